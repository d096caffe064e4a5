import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import manifest_info as mi
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    hasn = os.path.exists(f"{HERE}/native/{pid}.py")
    hasp = os.path.exists(f"{HERE}/contracts/{pid}.py")
    if not (hasn or hasp):
        na.append(dict(property=pid, reason="no check built yet"))
        continue
    lvl, note = mi.INFO.get(pid, ("exploration", ""))
    checks.append(dict(property=pid, quick_cmd=f"python3-vt check.py {pid}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {pid} --thorough",
                       technique="contract-based deductive verification of the real Python source (pyvc VC generator, z3/cvc5/ring); "
                                 "bounded contract evaluation as labelled stand-in and replay oracle" if hasp else
                                 "contracts on the real functions, evaluated on bounded inputs (labelled bounded)",
                       level=lvl, level_note=(mi.COMMON if hasp else "") + note))
json.dump(dict(version=1, setup_cmd="python3-vt tools/selftest.py", checks=checks, not_applicable=na,
               notes="Known and fixed findings: KNOWN_FINDINGS.txt. No hooks in /repo."), open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
