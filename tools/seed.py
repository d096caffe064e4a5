#!/usr/bin/env python3
"""Development aid: make and validate planted bugs in scratch copies (never in /repo).
   seed.py make SPEC.py            write /verif/seeded/<id>/ for every entry of SPEC.SEEDS and validate it
   seed.py check [ID ...]          run the property's check against a scratch copy with the bug
SPEC.SEEDS: list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"
SH = """#!/bin/bash
. /opt/vp/env.sh
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$D" && timeout 250 "$PY" "$HERE/demo.py"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="vpseed_", dir="/tmp")
    sh(f"cp -a /repo/. {d}/ && cd {d} && git checkout -q -- . && git clean -fdq")
    return d


def demo(d, folder):
    s = tempfile.mkdtemp(prefix="vpdemo_", dir="/tmp")
    try:
        r = sh(f'. /opt/vp/env.sh; export PYTHONPATH={d}/src/python:{d}; cd {s}; timeout 280 "$PY" {folder}/demo.py')
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(s)


def stable(d):
    s = tempfile.mkdtemp(prefix="vpt_", dir="/tmp")
    try:
        t = open("/opt/vp/test.sh").read().replace("/opt/vp/run.", s + "/run.").replace("/repo", d).replace(". /opt/vp/env.sh", f". /opt/vp/env.sh; export PYTHONPATH={d}/src/python:{d}")
        t = t.replace('PYTHONPATH="$root"', f'PYTHONPATH="{d}/src/python:$root"').replace("tail -n 1", "tail -n 1")
        open(s + "/t.sh", "w").write(t)
        sh(f"bash {s}/t.sh {s}/out.json")
        if not os.path.exists(s + "/out.json"):
            return ["no test output"]
        got = open(s + "/out.json").read()
        o = json.loads(got)
        b = json.load(open("/opt/vp/BASELINE.json"))
        st = b["stable"] if "stable" in b else b["passed"]
        passed = set(o["passed"])
        return [x for x in st if x not in passed]
    finally:
        shutil.rmtree(s)


def make(e):
    m = make_(e)
    if ": ok; " not in m:
        shutil.rmtree(os.path.join(V, e["id"]), ignore_errors=True)
    return m


def make_(e):
    f = os.path.join(V, e["id"])
    os.makedirs(f, exist_ok=True)
    d = copy()
    try:
        for fn, old, new in e["edits"]:
            p = os.path.join(d, fn if fn.startswith(("src", "steps", "subtrees")) else "src/python/zquantum/core/" + fn)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{e['id']}: edit matches {s.count(old)} times in {fn}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=d).stdout
        open(f + "/patch.diff", "w").write(diff)
        open(f + "/demo.py", "w").write(e["demo"].lstrip("\n"))
        open(f + "/demo.sh", "w").write(SH)
        os.chmod(f + "/demo.sh", 0o755)
        json.dump(dict(property=e["prop"], needs=e["needs"], what_it_breaks=e["breaks"]), open(f + "/meta.json", "w"), indent=1)
        rc1, o1 = demo("/repo", f)
        rc2, o2 = demo(d, f)
        if rc1 != 0:
            return f"{e['id']}: demo fails on the unchanged tree: {o1}"
        if rc2 == 0:
            return f"{e['id']}: demo passes with the patch"
        c = sh(f'. /opt/vp/env.sh; PYTHONPYCACHEPREFIX=/tmp/pyc_{e["id"]} "$PY" -m compileall -q {d}/src/python; rm -rf /tmp/pyc_{e["id"]}')
        if c.returncode:
            return f"{e['id']}: does not compile {c.stdout[-300:]}"
        bad = stable(d)
        if bad:
            return f"{e['id']}: stable tests fail: {bad[:4]} ({len(bad)})"
        return f"{e['id']}: ok; " + check_in(e["id"], e["prop"], d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_in(sid, prop, d):
    r = sh(f"PYVC_REPO={d} VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt {CHK}/check.py {prop}", cwd="/tmp")
    last = r.stdout.strip().splitlines()[-1:] or [r.stderr[-300:]]
    lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
    info = [l for l in lines if "refuted obligation" in l][:2] + [l for l in lines if "refuted obligation" not in l][:2]
    word = "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED"
    return f"{word} rc={r.returncode} {last[0][:160]} " + " | ".join(x[:170] for x in info)


CHK = "/verif"


def main():
    global CHK
    CHK = tempfile.mkdtemp(prefix="vpchk_", dir="/tmp")
    sh(f"cp -a /verif/. {CHK}/; rm -rf {CHK}/.git {CHK}/seeded {CHK}/evidence {CHK}/replay")
    jobs = int(os.environ.get("JOBS", "2"))
    try:
        if sys.argv[1] == "make":
            ns = {}
            exec(open(sys.argv[2]).read(), ns)
            only = sys.argv[3:]
            todo = [e for e in ns["SEEDS"] if not only or e["id"] in only]
            with ThreadPoolExecutor(jobs) as ex:
                for m in ex.map(make, todo):
                    print(m, flush=True)
        else:
            ids = sys.argv[2:] or sorted(os.listdir(V))

            def one(i):
                d = copy()
                try:
                    a = sh(f"git apply {V}/{i}/patch.diff", cwd=d)
                    if a.returncode:
                        return f"{i}: patch does not apply"
                    return f"{i}: " + check_in(i, json.load(open(f"{V}/{i}/meta.json"))["property"], d)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            with ThreadPoolExecutor(jobs) as ex:
                for m in ex.map(one, ids):
                    print(m, flush=True)
    finally:
        shutil.rmtree(CHK, ignore_errors=True)


main()
