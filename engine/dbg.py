import sys, time
sys.path.insert(0, "/verif/engine")
import z3
import mir, vexec
from vexec import *
import vbuiltins, contracts as C
from collections import Counter
def run(ix, P=None, verbose=True, contracts=C.CONTRACTS, mv=8):
    P = P or mir.Program('/tmp/dump/presale.json')
    ex = Exec(P, vbuiltins.B, contracts, max_visits=mv)
    inst = P.find('presale::__private::__global::'+ix)
    pid = ex.lazy(inst.body.locals[1], "program_id")
    PID = mkint("program_id",0,(1<<256)-1)
    accs = ex.expand(Lazy(inst.body.locals[2], "acc"))
    data = ex.expand(Lazy(inst.body.locals[3], "ixdata"))
    st = ex.start(inst, [pid, accs, data], gh={"program_id": PID})
    res=[]
    t=time.time()
    try:
        while True:
            try:
                ex.run(st.copy(), res.append); break
            except Restart:
                res.clear(); ex.cut_stop=()
    except Unsupported as e:
        print("UNSUPPORTED", e, *["\n   %s bb%s L%s"%(n[:150],b,l) for n,b,l in e.where])
        raise SystemExit
    c=Counter()
    for r in res:
        if r.kind=='return':
            v=ex.force(r.info); c['ok' if v.v==0 else 'err']+=1
        else: c[(r.kind,str(r.info)[:90])]+=1
    print(ix, len(res), dict(c), "t=%.1f steps=%d feas=%d"%(time.time()-t, ex.steps, ex.feas.nchecks))
    for k,v in ex.loops.items(): print("  ",k,v["fn"][-60:],v["sym"],len(v["steps"]))
    return ex,res
if __name__=="__main__":
    for a in sys.argv[1:]:
        ex,res=run(a)
        for r in res:
            if r.kind=='return' and ex.force(r.info).v==0:
                print("OK PATH pc:"); 
                for c in r.pc: print("   ",str(c)[:150].replace("\n"," "))
                for e in r.eff: print("   EFF",str(e)[:300])
                break
