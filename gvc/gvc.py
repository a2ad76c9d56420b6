"""command line: gvc.py verify PROPERTY | func NAME"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json, glob, time
from ir import Prog
from execu import Exec
import contract as C

def mk(ssa, files, opts=None):
    p = Prog(ssa)
    cs = C.Contracts()
    for f in files:
        cs.load(f)
    e = Exec(p, cs, opts)
    cs.bind(e)
    return e

if __name__ == "__main__":
    ssa = sys.argv[1]; files = sys.argv[2].split(","); fn = sys.argv[3]
    dbg = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    import specs
    e = mk(ssa, files, {"debug": dbg, "dump": True})
    specs.install(e)
    fns = [fn] if fn != "all" else [k for k, c in e.cs.funcs.items() if not c.trusted and c.kind == "func"]
    for f in fns:
        e = mk(ssa, files, {"debug": dbg, "dump": True})
        specs.install(e)
        t = time.time()
        r = C.verify(e, e.cs.funcs[f])
        bad = [o for o in e.obls if o["status"] != "proved"]
        print(f, r, "obls", len(e.obls), "bad", len(bad), "qf", e.qf.stats, "solver %.2f" % e.solver_time, "t=%.1f" % (time.time() - t))
        for o in bad[:int(os.environ.get("NB", "3"))]:
            print("  FAIL", o["name"], o["status"], o["info"])
            print("     goal:", o.get("goal", "")[:600])
            if dbg >= 2:
                print("     model:", o.get("model", "")[:1500])
                for x in o.get("pc", []):
                    print("        ", x.replace("\n", " "))
