import sys; sys.path[:0]=['/tmp/shim','/verif/sa/specs']
import types, os, tempfile, pathlib, yaml, vf
ROOTS={}
D=tempfile.mkdtemp()
PRE="/pkg/elli/database/refractiveindexinfo-database/database/"
vf_io=types.ModuleType("vf_io")
def register(path, content, encoding="utf-8"):
    q=os.path.join(D,path[len(PRE):]) if path.startswith(PRE) else path
    os.makedirs(os.path.dirname(q),exist_ok=True)
    with open(q,"w",encoding="utf-8") as f: yaml.safe_dump(content,f,allow_unicode=True,sort_keys=False)
vf_io.register=register
sys.modules["vf_io"]=vf_io
import elli.database.refractive_index_info as m
m.files=lambda p: pathlib.Path(D)
import rapidfuzz.process as P
P.SCORES={}
def extract(q,choices,limit=5,score_cutoff=None,**k):
    out=[(c,P.SCORES.get((q,c),100.0 if q==c else 0.0),i) for i,c in enumerate(choices) if c is not None]
    out=[o for o in out if score_cutoff is None or o[1]>=score_cutoff]
    out.sort(key=lambda o:-o[1])
    return out[:limit]
P.extract=extract
def numeral(text,value): return repr(float(value)) if False else text
exec(open('/tmp/shim/run.py').read())
