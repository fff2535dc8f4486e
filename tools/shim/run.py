import sys,traceback; sys.path[:0]=['/tmp/shim','/verif/sa/specs']
import importlib,vf
m=importlib.import_module(sys.argv[1])
for n in dir(m):
    if n.startswith('ob_') and (len(sys.argv)<3 or sys.argv[2]==n):
        try: getattr(m,n)()
        except Exception as e: print('EXC',n); traceback.print_exc(limit=-3)
print(vf.N)
