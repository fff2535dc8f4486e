import sys; sys.path[:0]=['/tmp/shim','/verif/sa/specs']
import copy, vf, lmfit, ipywidgets, traitlets
from ipywidgets import widgets
widgets.CREATED=[]
widgets.Widget.on_widget_constructed(lambda w: widgets.CREATED.append(w))
lmfit.CALLS=[];lmfit.STARTS=[]
class R: pass
def minimize(fcn,params,method="leastsq",args=None,kws=None,**kw):
    work=copy.deepcopy(params); n=len(lmfit.CALLS)
    for k in work:
        if work[k].vary: work[k].value=vf.real("fit%d_%s"%(n,k),3+0.015625*(n%256),3+0.015625*(n%256)+0.0078125)
    a=list(args or []);k=dict(kws or {})
    res=R(); res.params=work; res.residual=fcn(work,*a,**k)
    lmfit.STARTS.append(copy.deepcopy(params)); lmfit.CALLS.append((fcn,params,a,k,method,res,res.residual))
    return res
lmfit.minimize=minimize
exec(open('/tmp/shim/run.py').read())
