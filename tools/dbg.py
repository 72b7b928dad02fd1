"""Run the proof units of one property and print every obligation: dbg.py c14 [unit substring] [-v]"""
import sys, os, time, importlib, faulthandler; faulthandler.register(10)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyv import load
from pyv.models import Verifier
name = sys.argv[1]
filt = [a for a in sys.argv[2:] if not a.startswith("-")]
verbose = "-v" in sys.argv
prog = load.Program()
mod = importlib.import_module("specs." + name)
for spec, contracts in mod.units(prog):
    for c in contracts:
        if filt and not any(f in c.key for f in filt):
            continue
        eng = Verifier(prog, spec)
        t = time.time()
        try:
            n = c.run(eng) if hasattr(c, "run") else eng.verify(c)
        except Exception as e:
            if type(e).__name__ not in ("Unsupported", "Restart"):
                raise
            print("  UNSUPPORTED", c.key, e)
            n = -1
        bad = [o for o in eng.obligs if not o["ok"]]
        print("%s: paths %s obligations %d failed %d  %.1fs (solver %.1fs, %d queries, restarts %d) inv %s" % (c.key, n, len(eng.obligs), len(bad), time.time() - t, eng.solver_time, eng.n_checks, len(eng.restart_log), getattr(eng, "n_inv", 0)))
        if "-r" in sys.argv:
            for r in eng.restart_log: print("    restart", r)
        seen = set()
        for o in bad:
            k = (o["name"], o["where"])
            if k in seen and not verbose:
                continue
            seen.add(k)
            print("   FAIL", o["name"], o["result"], "at", o["where"], "|", o["detail"][:1500 if verbose else 200])
        if "-t" in sys.argv:
            for o in sorted(eng.obligs, key=lambda o: -o["time"])[:8]:
                print("   SLOW %.1f %s at %s" % (o["time"], o["name"], o["where"]))
        if "-i" in sys.argv:
            for s, i in eng.loops.items():
                print("   LOOP", s[-1] if isinstance(s[-1], str) else s, "dropped", sorted(n for _, n in i.dropped), "locals", {k[1]: str(v) for k, v in i.locals.items()}, "heap", list(i.heap))
                for w in getattr(i, "why", []): print("      ", w)
