import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from pyvc import run, solve
import time, z3
oc=solve.check
def chk(fs,timeout,nra=False):
    t=time.time(); r,s=oc(fs,timeout,nra); dt=time.time()-t
    if dt>1 or r!=z3.unsat: print("   check",len(fs),r,round(dt,2), s.reason_unknown() if r==z3.unknown else "")
    if dt>4: open("/tmp/slow.smt2","w").write(s.to_smt2())
    chk.last=fs
    return r,s
solve.check=chk
op=solve.prove1
def p1(eng,hyps,goal,*a):
    t=time.time(); r=op(eng,hyps,goal,*a); 
    if r.status!="valid": print("PROVE",r.status,r.backend,round(time.time()-t,2),str(z3.simplify(goal))[:300]); 
    if r.model is not None and "-m" in sys.argv:
        for d in sorted(r.model.decls(),key=lambda d:d.name()): print("     ",d,"=",str(r.model[d])[:150])
    return r
solve.prove1=p1
prog,reg=run.load()
for i,u in enumerate(reg.units):
    if u.name==sys.argv[1]:
        eng=run.make_engine(prog,reg); eng.debug=True
        for o in u.verify(reg,eng,None):
            if o['status']!='valid': print(o['status'],o['name'])
