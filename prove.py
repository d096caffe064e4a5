#!/usr/bin/env python3
"""Discharge the proof obligations of one property: python3-vt prove.py C05 [name-substring] [-v]"""
import sys, json, importlib, os, time, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def load(pid):
    try:
        m = importlib.import_module("contracts." + pid)
    except ModuleNotFoundError as e:
        if e.name == "contracts." + pid:
            return None
        raise
    return m.P


def _one(args):
    pid, i, tier = args
    import threading
    from pyvc.contract import run_obligation
    P = load(pid)
    out = {}
    threading.stack_size(512 * 1024 * 1024)

    def go():
        try:
            out["r"] = run_obligation(P.obligations[i], tier)
        except BaseException as e:
            out["r"] = dict(name=P.obligations[i].name, targets=P.obligations[i].targets, status="undecided", goals=0,
                            discharged=0, paths=0, error=f"verifier crash {type(e).__name__}: {e}", failed=[], bound=None,
                            backends={}, solver_s=0, queries=0, functions=[], models=[], notes=[], wall_s=0)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out["r"]


def run(pid, tier="quick", only=None, jobs=8, total_s=500):
    import multiprocessing as mp
    P = load(pid)
    if P is None:
        return [], []
    idx = [i for i, o in enumerate(P.obligations) if not only or only in o.name]
    res = {}
    deadline = time.time() + total_s
    ctx = mp.get_context("fork")
    procs = []
    pend = list(idx)
    running = {}
    while pend or running:
        while pend and len(running) < jobs:
            i = pend.pop(0)
            r, w = ctx.Pipe(False)

            def child(i=i, w=w):
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                try:
                    w.send(_one((pid, i, tier)))
                finally:
                    w.close()
                    os._exit(0)
            p = ctx.Process(target=child)
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        for i, (p, r, t) in list(running.items()):
            o = P.obligations[i]
            if r.poll(0.01):
                try:
                    res[i] = r.recv()
                except EOFError:
                    res[i] = None
                p.join()
                del running[i]
            elif time.time() - t > o.budget * 2 + 20 or time.time() > deadline:
                p.kill()
                p.join()
                res[i] = None
                del running[i]
    out = []
    for i in idx:
        o = P.obligations[i]
        r = res.get(i)
        if r is None:
            r = dict(name=o.name, targets=o.targets, status="undecided", goals=0, discharged=0, paths=0,
                     error="time or memory limit", failed=[], bound=o.bound, backends={}, solver_s=0, queries=0,
                     functions=[], models=[], notes=[], wall_s=0)
        out.append(r)
    return out, P.trusted


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    res, _ = run(args[0], os.environ.get("VERIF_TIER", "quick"), args[1] if len(args) > 1 else None)
    if "--json" in sys.argv:
        json.dump(dict(results=res, trusted=_), sys.stdout)
        sys.exit(0)
    for r in res:
        print(f"{r['status']:10} {r['discharged']}/{r['goals']} goals {r['paths']} paths {r['wall_s']}s  {r['name']}" +
              (f"\n    {r['error']}" if r["error"] else ""))
        for f in r["failed"]:
            print("    ", f[0], f[1], str(f[2])[:1500])
        if "-v" in sys.argv:
            print("    functions:", r["functions"], "\n    models:", r["models"])
