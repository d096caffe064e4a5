#!/usr/bin/env python3
"""Decide one property on /repo's current working tree:  python3-vt check.py C05

1. the verifier discharges the proof obligations generated from the current source (prove.py);
2. the bounded contract suite runs the real code (native/, the repository's interpreter): it replays
   and concretises what the proofs refute, and stands in (labelled bounded) where an obligation is
   outside the verifier's reach.
Exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: the check could not run.
"""
import json, os, subprocess, sys, tempfile, time, threading, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ENV = "/opt/vp/env.sh"


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
                rest = line.split(f"property={pid} ", 1)[1]
                if rest.startswith("key="):
                    key, what = rest[4:].split(" :: ", 1)
                    out.append((key.strip(), what))
    return out


def run_native(pid, seed, tier, result):
    if not os.path.exists(os.path.join(HERE, "native", pid + ".py")):
        result["res"] = []
        return
    d = tempfile.mkdtemp(prefix=f"vp_chk_{pid}_")
    out = os.path.join(d, "native.json")
    alt = os.environ.get("PYVC_REPO")          # development aid: another checkout; unset in the registered commands
    alt = f"export PYTHONPATH={alt}/src/python:{alt}; " if alt else ""
    cmd = f'. {ENV}; {alt}exec "$PY" {HERE}/native/run.py {pid} --seed {seed} --tier {tier} --out {out}'
    lim = 6000 if tier == "thorough" else 780
    try:
        for attempt in (1, 2):
            try:
                r = subprocess.run(["bash", "-c", cmd], cwd=d, capture_output=True, text=True, timeout=lim)
                result["log"] = (r.stdout + r.stderr)[-4000:]
            except subprocess.TimeoutExpired:
                result["log"] = "time limit"
                break
            if os.path.exists(out):
                with open(out) as f:
                    result["res"] = json.load(f)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    nat = {}
    th = threading.Thread(target=run_native, args=(pid, seed, tier, nat))
    th.start()
    import prove
    try:
        proofs, trusted = prove.run(pid, tier, jobs=6, total_s=3000 if tier == "thorough" else 420)
        perr = None
    except Exception as e:
        proofs, trusted, perr = [], [], f"{type(e).__name__}: {e}"
    th.join()
    clauses = nat.get("res")
    if clauses is None and (perr or not proofs):
        print(f"check could not run: native: {nat.get('log')}; proofs: {perr}")
        return 2
    clauses = clauses or []

    known = known_findings(pid)
    failures = [f for c in clauses for f in c["failures"]]
    seen_known, new = [], []
    for f in failures:
        k = f"{f['clause']}/{f['key']}"
        m = [w for key, w in known if key == k]
        if m:
            seen_known.append((k, m[0]))
        else:
            new.append(f)
    for k, w in dict(seen_known).items():
        print(f"KNOWN-FINDING: property={pid} {w}")

    goals = sum(r["goals"] for r in proofs)
    disc = sum(r["discharged"] for r in proofs)
    refuted = [r for r in proofs if r["status"] == "refuted"]
    undec = [r for r in proofs if r["status"] == "undecided"]
    unb = [r for r in proofs if r["status"] == "discharged" and not r["bound"]]
    bnd = [r for r in proofs if r["status"] == "discharged" and r["bound"]]
    backends = {}
    for r in proofs:
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    funcs = sorted({f for r in proofs for f in r["functions"]})
    models = sorted({f for r in proofs for f in r["models"]})
    notes = sorted({f for r in proofs for f in r["notes"]})
    ev_n = sum(c["evaluations"] for c in clauses)
    cov = dict(
        obligations=len(proofs), discharged=len(unb) + len(bnd),
        obligations_discharged_without_bound=len(unb),
        obligations_discharged_for_stated_sizes=[f"{r['name']} [{r['bound']}]" for r in bnd],
        goals=goals, goals_discharged=disc, goals_by_back_end=backends,
        solver_queries=sum(r["queries"] for r in proofs), solver_seconds=round(sum(r["solver_s"] for r in proofs), 2),
        checker_cmd=f"python3-vt /verif/prove.py {pid}",
        functions_under_contract=sorted({t for r in proofs for t in r["targets"]}),
        functions_interpreted=funcs,
        trusted_base=["pyvc verification-condition generator (/verif/pyvc), z3, cvc5"] + list(trusted)
        + [f"assumed contract of library function {m}" for m in models] + notes,
        undecided=[f"{r['name']}: {r['error'] or r['failed'][:1]}"[:600] for r in undec],
        refuted=[f"{r['name']}: {r['failed'][:1]}"[:1200] for r in refuted],
        evaluations=ev_n, distinct_nontrivial=sum(c["nontrivial"] for c in clauses),
        rule="bounded contract evaluation of the real code: one evaluation per enumerated or seeded random input of a clause; "
             "distinct by its written-out input, non-trivial unless the generator marks it degenerate (empty or identity input)",
        samples=[s for c in clauses for s in c["samples"][:3]][:40],
        bounded_clauses=[dict(clause=c["name"], evaluations=c["evaluations"], nontrivial=c["nontrivial"],
                              seconds=c["wall_s"], stopped_by_time=bool(c.get("truncated")),
                              not_run=c["error"]) for c in clauses],
        known_findings_seen=[k for k, _ in dict(seen_known).items()],
    )
    import manifest_info
    level = manifest_info.level(pid)
    evid = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                assumptions=["library functions listed in trusted_base behave as modelled",
                             "machine floating point is read as exact arithmetic in the proofs; the bounded clauses use tolerances"],
                wall_s=round(time.time() - t0, 2), violations=len(new) + (len(refuted) if not new else 0))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1, default=str)

    if new or refuted:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier,
                           failing_inputs=new[:20],
                           refuted_obligations=[dict(name=r["name"], targets=r["targets"], failed=r["failed"]) for r in refuted],
                           rerun=f"bash -c '. {ENV}; $PY {HERE}/native/run.py {pid} --seed {seed} --tier {tier} -v' ; python3-vt {HERE}/prove.py {pid}"),
                      f, indent=1, default=str)
        for f in new[:3]:
            print(f"  failing input [{f['clause']}] {f['key'][:300]}: {f['message'][:500]}")
        for r in refuted[:3]:
            print(f"  refuted obligation [{r['name']}]: {str(r['failed'][:1])[:600]}")
        tail = "" if new else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={path}{tail}")
        return 1
    dead = [c for c in clauses if c["error"]]
    print(f"{pid}: {len(unb) + len(bnd)}/{len(proofs)} obligations discharged ({disc}/{goals} goals), "
          f"{len(undec)} undecided; {ev_n} bounded evaluations in {len(clauses)} clauses"
          + (f", {len(dead)} clauses could not run" if dead else "") + f"; {time.time() - t0:.1f}s")
    if nat.get("res") is None and os.path.exists(os.path.join(HERE, "native", pid + ".py")) and undec:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
