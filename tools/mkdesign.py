"""DESIGN.md = notes/design_head.md + one section per property (from properties.jsonl, contracts/, native/, manifest_info) + findings + planted bugs."""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import manifest_info as mi
out = [open(f"{HERE}/notes/design_head.md").read().rstrip(), "", "## The properties", ""]
for l in open(f"{HERE}/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    out += [f"### {pid} {p['title']}", p["statement"], ""]
    obs, tr = [], []
    if os.path.exists(f"{HERE}/contracts/{pid}.py"):
        m = importlib.import_module("contracts." + pid).P
        obs, tr = m.obligations, m.trusted
    cl = re.findall(r'@clause\("([^"]+)"', open(f"{HERE}/native/{pid}.py").read())
    if obs:
        fs = sorted({t.replace("zquantum.core.", "") for o in obs for t in o.targets})
        out += [f"*Functions under contract ({len(fs)}):* " + ", ".join(f"`{f}`" for f in fs), ""]
        for title, some in (("for all inputs", [o for o in obs if not o.bound]), ("for all values at stated sizes", [o for o in obs if o.bound])):
            if some:
                seen, txt = {}, []
                for o in some:
                    k = (re.sub(r"\d+", "#", o.name), re.sub(r"\d+", "#", o.bound or ""))
                    seen.setdefault(k, []).append(o)
                for k, v in seen.items():
                    o = v[0]
                    more = f" (and {len(v) - 1} more sizes of the same contract)" if len(v) > 1 else ""
                    txt.append(f"- {o.name}" + (f" [{o.bound}]" if o.bound else "") + (" (sufficient)" if o.sufficient else "") + more)
                out += [f"*Obligations {title} ({len(some)}):*", *txt, ""]
        if tr:
            out += ["*Assumed:* " + "; ".join(tr) + ".", ""]
    out += ["*Bounded layer (real code, seeded and enumerated inputs):* " + "; ".join(cl) + ".", ""]
    if pid in mi.GAPS:
        out += ["*Decided by the bounded layer only:* " + mi.GAPS[pid], ""]
out += ["## Findings", "`KNOWN_FINDINGS.txt` lists every genuine defect found: repaired ones (`fixed:`, one `fix:` commit each) and recorded ones.", ""]
for l in open(f"{HERE}/KNOWN_FINDINGS.txt"):
    if l.strip() and not l.startswith("#"):
        out.append("- " + l.strip())
out += ["", "## Planted bugs", "Each was confirmed in a scratch copy (stable tests pass, demonstration fails). *Caught by* as measured on scratch copies:", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(f"{HERE}/notes/caught.json"):
    caught = json.load(open(f"{HERE}/notes/caught.json"))
for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[-2]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not measured')} |")
out.append("")
tail = f"{HERE}/notes/design_tail.md"
if os.path.exists(tail):
    out.append(open(tail).read())
open(f"{HERE}/DESIGN.md", "w").write("\n".join(out))
print(len(out), "lines")
