import hashlib, numpy as np
N=[0,0]
class ANY: pass
def _h(name): return int(hashlib.md5(name.encode()).hexdigest()[:8],16)/2**32
def real(name,lo=None,hi=None):
    lo=-3 if lo is None else lo; hi=3 if hi is None else hi
    return lo+(hi-lo)*_h(name)
def pos(name,*a): return real(name,0.1,3)
def nonneg(name,*a): return real(name,0.1,3)
def _bad(label,msg=""):
    N[1]+=1; print("FAIL",label,msg)
def check(c,label=""):
    N[0]+=1
    if not c: _bad(label)
def equal(a,b,label=""):
    N[0]+=1
    try:
        ok=np.allclose(np.asarray(a),np.asarray(b),equal_nan=True)
    except Exception as e:
        ok=(a==b)
    if not ok: _bad(label,f"{a!r} vs {b!r}")
def fail(label): _bad(label)
def expect_raises(exc,label,fn,*args):
    N[0]+=1
    try: fn(*args)
    except exc: return
    except Exception as e: _bad(label,repr(e)); return
    _bad(label,"no raise")
def accepted(label,fn,*args):
    N[0]+=1
    return fn(*args)
def disjoint(a,b,label): 
    N[0]+=1
    if set(map(id,a))&set(map(id,b)): _bad(label)
def frozen(label,roots,fn,*args): return fn(*args)
def same_object(a,b,label): check(a is b,label)
def arr(name,shape,kind="real",lo=None,hi=None):
    shape=tuple(shape)
    n=int(np.prod(shape)) if shape else 1
    v=np.array([real(name+str(i),lo,hi) for i in range(n)])
    if kind=="complex": v=v+1j*np.array([real(name+"i"+str(i),lo,hi) for i in range(n)])
    if kind=="pos" and lo is None: v=np.abs(v)+.1
    return v.reshape(shape)
def size(name): return 4
def integer(name): return 3
def posint(name): return 3
def boolean(name): return True
def string(name): return "s_"+name
def cplx(name,*a): return real(name,*a)+1j*real(name+"_i",*a)
def app(name,*args):
    x=np.sin(_h(name)*5)
    for k,a in enumerate(args): x=x*1.0+np.sin(np.asarray(a)*(.37+.1*k)+_h(name)*7)
    if not name.startswith("r_"): x=x+1j*np.cos(x*3)
    return x
def func(name): return lambda *a: app(name,*a)
def fail(label): _bad(label)
def undecided(label): pass
def debug(*a): print(*a)
