"""Writes DESIGN.md from doc/head.md, props.py, the evidence of the last runs, seeded/*/meta.json, known-findings.txt and doc/tail.md."""
import glob, json, os, textwrap
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def wrap(s, ind=""): return "\n".join(textwrap.wrap(" ".join(s.split()), 150, initial_indent=ind, subsequent_indent=" " * len(ind) if ind else ""))
out = []
for p in props.PROPS:
    ev = json.load(open(f"{V}/evidence/{p['id']}.json")); c = ev["coverage"]
    out += [f"### {p['id']} {p['title']}", "", wrap(p["statement"]), ""]
    out.append(wrap(f"Decided by: {p['technique']}. Quantifies over {p['text']}. {p['note'][0].upper() + p['note'][1:]}.", "- "))
    out.append(wrap(f"Why tests cannot settle it: {p['why']}.", "- "))
    out.append("- Rules (instances on the current tree):")
    for k, r in c["by_rule"].items(): out.append(wrap(f"`{k}` ({r['instances']}): {r['rule']}.", "  - "))
    for h, l in (("Assumes", ev.get("assumptions") or []), ("Trusts", c.get("trusted_base") or [])):
        if l: out.append(wrap(f"{h}: " + "; ".join(l) + ".", "- "))
    out.append(f"- Anchors: {', '.join('`' + f + '`' for f in p['files'])}. Cost: {max(1, round(ev['wall_s']))} s after extraction (about 20 s). "
               "Quick and thorough are the same analysis: it is exhaustive over the constructs it enumerates.")
    out.append("")
na = "\n".join(wrap(f"{n[0]} {n[1]}: {n[3]}", "- ") for n in props.NA)
seeds = ["| seed | property / check | needs |", "|---|---|---|"]
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.append(f"| {m.split('/')[-2]} | {d['property']} | {' '.join(d['needs'].split())} |")
fixes = []
for l in open(f"{V}/known-findings.txt"):
    if l.startswith("fixed:"):
        a = l[len("fixed: property="):].split(None, 2); fixes.append(wrap(f"{a[1]} ({a[0]}): {a[2]}", "- "))
t = open(f"{V}/tool/doc/head.md").read().replace("@PROPS@", "\n".join(out)) + "\n" + open(f"{V}/tool/doc/tail.md").read()
t = t.replace("@NA@", na).replace("@SEEDS@", "\n".join(seeds)).replace("@FIXES@", "\n".join(fixes))
open(f"{V}/DESIGN.md", "w").write(t)
