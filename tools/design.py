#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md (between <!-- x --> and <!-- /x -->) from propdefs, config, evidence, seeded and known_findings."""
import json, re, sys, collections
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from tools.config import PROPS
from tools.propdefs import DEFS

parts = collections.defaultdict(list)
seeds = {}
for m in sorted((V / "seeded").glob("*/meta.json")):
    seeds[m.parent.name] = json.loads(m.read_text())
bugs = collections.defaultdict(list)
for n, m in seeds.items():
    bugs[m["property"]].append(n)

keep = {}  # the numbers already in DESIGN.md, for runs without evidence
for d in DEFS:
    i = d["id"]
    p = PROPS[i]
    o = parts["properties"]
    o.append(f"### {i} — {d['title']}\n")
    o.append(f"*Specified.* {d['statement']}\n")
    o.append(f"*Over* {', '.join(d['over'])}: {d['quant']}\n")
    o.append(f"*Workload.* {p['rule']}\n")
    o.append(f"*Oracle.* {d['technique'][0].upper() + d['technique'][1:]}; observed: {'; '.join(d['observe'])}.\n")
    def tier(t):
        return " + ".join(f"{v['variant']} ×{v['scale']}" for v in p[t])
    cost = f"*Bounds and cost.* Quick: {tier('quick')}; thorough: {tier('thorough')} (thorough families are larger still)."
    ev = V / "evidence" / f"{i}.json"
    if ev.exists():
        e = json.loads(ev.read_text())
        if e["tier"] == "quick":
            c = e["coverage"]
            fam = c["cases_per_family"]
            fams = ", ".join(f"{k} {v:,}" for k, v in fam.items()) if len(fam) < 12 else f"{len(fam)} families, one or more per language"
            obs = ", ".join(f"{k} {v:,}" for k, v in c["observed"].items())
            cost += f" Cases: {fams}. Observed: {obs}. {e['wall_s']:.0f} s."
    o.append(cost + "\n")
    o.append(f"*Reach.* {d['why']}\n")
    if bugs[i]:
        o.append(f"*Planted bugs:* {', '.join(bugs[i])}.\n")

o = parts["seeded"]
o.append("| change | property | needs | caught by |\n|---|---|---|---|")
for n, m in sorted(seeds.items(), key=lambda x: (x[1]["property"], x[0])):
    o.append(f"| {n} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")

k = json.loads((V / "known_findings.json").read_text())
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    parts["fixes"].append(f"* {m[1]} `{m[2]}` — {m[3]}")

c = collections.defaultdict(set)
n = collections.Counter()
for f in k["findings"]:
    s = f["signature"]
    lang, rest = s.split(": ", 1) if ": " in s else ("", s)
    rest = re.sub(r" \((own test file|several-byte characters)\)", "", rest)
    c[(f["property"], rest)].add(lang)
    n[(f["property"], rest)] += 1
o = parts["findings"]
o.append("| property | what fails | languages | entries |\n|---|---|---|---|")
for (p, r), ls in sorted(c.items()):
    names = ", ".join(sorted(x for x in ls if x)) or "—"
    o.append(f"| {p} | {r} | {names if len(ls) <= 20 else str(len(ls)) + ' languages'} | {n[(p, r)]} |")

t = (V / "DESIGN.md").read_text()
for name, lines in parts.items():
    t, hits = re.subn(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + "\n" + "\n".join(lines) + "\n\n" + m[2], t, flags=re.S)
    assert hits == 1, name
(V / "DESIGN.md").write_text(t)
