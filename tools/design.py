#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the property table, the checks' evidence and the seeded
bugs (run by hand; no check runs it)."""
import json, os, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/tools')
import props
MARK = "<!-- generated by tools/design.py: edit there -->"
N = json.load(open(here + '/tools/design_notes.json'))
find = {}
for l in open(here + '/known_findings.jsonl'):
    d = json.loads(l)
    find.setdefault(d['property'], []).append(d)
seeds = {}
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
o = [MARK, "", "# The properties", "",
     "Counts and times are of the last quick run on this machine (8 cores). \"Executed\" counts complete executions",
     "compared with the oracle; every section was exhausted within its bounds unless it says otherwise.", ""]
for p in props.P:
    i = p['id']
    e = json.load(open(f'{here}/evidence/{i}.json'))
    c = e['coverage']
    o += [f"## {i} {p['title']}", "", p['statement'], ""]
    o += [f"* *Enumerated:* {c.get('enumerated', c.get('rule'))}.", f"* *Bounds:* {c['bounds']}.", f"* *Method and oracle:* {p['technique']}. {p['note']}"]
    o += [f"* *What tests cannot reach:* {p['why']}"]
    secs = ", ".join(f"{s['name']} ({s['enumerated']}" + (f" + {s['inner_executions']} inner" if s.get('inner_executions') else "") + ")" for s in c['sections'])
    wall = e['wall_s']
    cost = "under 1 s" if wall < 1 else f"about {wall:.0f} s"
    o += [f"* *Sections (executed):* {secs}. Quick: {cost}." + (f" Thorough: {N['thorough'][i]}." if i in N.get('thorough', {}) else "")]
    if e.get('assumptions'):
        o += ["* *Assumptions:* " + "; ".join(e['assumptions']) + "."]
    for n in N['notes'].get(i, []):
        o += [f"* *Note:* {n}"]
    for d in find.get(i, []):
        if d['kind'] == 'fixed':
            o += [f"* *Fixed* in {d['commit']}: " + d['what'].split(d['commit'], 1)[1].strip()]
        else:
            o += [f"* *Known finding* `{d['key']}` (not repaired): {d['what']}"]
    if i in seeds:
        o += ["* *Planted bugs caught:* " + ", ".join(n + (" (missed at first)" if n in N['missed'] else "") for n, _ in seeds[i]) + "."]
    o.append("")
o += ["# Planted bugs", "", "Each is in `seeded/<id>/`; each compiles and passes the repository's tests. All are caught by the quick check",
      "of their property; those marked were missed at first and led to a stronger check.", "",
      "| bug | property | needs | first |", "|---|---|---|---|"]
for i in sorted(seeds):
    for n, d in seeds[i]:
        o.append(f"| {n} | {i} | {d['needs'].replace('|', '/')} | {'missed: ' + N['missed'][n] if n in N['missed'] else 'caught'} |")
t = open(here + '/DESIGN.md').read().split(MARK)[0].rstrip()
open(here + '/DESIGN.md', 'w').write(t + "\n\n" + "\n".join(o) + "\n")
