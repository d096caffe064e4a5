import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import lib
sys.modules["native_lib"] = lib

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only", default=None)
ap.add_argument("--jobs", type=int, default=6)
ap.add_argument("--out", default="/dev/null")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
res = lib.run_property(a.prop, a.seed, a.tier, a.out, a.only, a.jobs)
if a.out == "/dev/null" or a.v:
    for r in res:
        print(f"{'FAIL' if r['failures'] else ('ERR ' if r['error'] else 'ok  ')} {r['evaluations']:5} evals {r['nontrivial']:5} nontrivial {r['wall_s']:6}s  {r['name']}{' (time)' if r.get('truncated') else ''}")
        if r["error"]:
            print("    ", r["error"])
        for f in r["failures"]:
            print("    key:", f["key"], "\n       ", f["message"])
            if f.get("traceback"):
                print("       ", f["traceback"][-1500:])
