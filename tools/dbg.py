import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/specs')
import importlib,time
from vc import ir,theory,engine,contract,discharge
import z3
pid,idx=sys.argv[1],int(sys.argv[2])
mod=importlib.import_module(pid.lower())
prog=ir.extract(mod.FILES,'/tmp/irt')
cons=mod.contracts(); con=cons[idx]
W=theory.World(prog)
if hasattr(mod,"world"): mod.world(W)
ex=engine.Ex(W,prog)
import os
ex.trace=os.environ.get("TRACE") or False
for c in cons:
    if c.usable:
        c.resolve(prog)
        if c is not con: ex.contracts[c.fn["key"]]=c
con.resolve(prog)
t=time.time()
if len(sys.argv)>4:
    import cProfile,pstats
    p=cProfile.Profile(); p.enable()
print(contract.verify(ex,con,float(os.environ.get("BUD","300")))); print("vcgen",time.time()-t)
if len(sys.argv)>4:
    p.disable(); pstats.Stats(p).sort_stats("cumtime").print_stats(35)
print(ex.loop_stats, W.stats)
pat=sys.argv[3] if len(sys.argv)>3 else None
if pat=="-": sys.exit()
for o in ex.obs:
    if pat and pat not in o.name: continue
    for k,v in (o.wopts or {}).items(): setattr(W,k,v)
    r=discharge.solve_one(W,o,15)
    print(r[:3],o.kind,o.name,o.loc)
    if pat:
        if r[0]!="proved":
            print(r[3])
            print("HYPS"); 
            for f in W.assemble(o.hyps,o.goal): print("  *",str(f)[:1500])
