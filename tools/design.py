#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json,glob,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
d=json.loads(subprocess.check_output(['go','run','-ldflags=-checklinkname=0','./cmd/mcheck','-describe'],cwd=V+'/go',env=env))
t=json.load(open(V+'/tools/technique.json'))
cost=json.load(open(V+'/tools/cost.json'))
out=open(V+'/tools/design_head.md').read()
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']; c=d[i]
    out+=f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    out+=f"- *Anchors:* "+'; '.join(f"{m['where']} ({m['name']})" for m in p['anchors']['mechanism'])+".\n"
    out+=f"- *Method* ({c['level']}): {t[i][0]}; {t[i][1]}.\n"
    out+=f"- *Enumerated:* {c['rule']}.\n"
    out+=f"- *Quick bounds:* {c['quick']}.\n- *Thorough bounds:* {c['thorough']}.\n"
    if c['assumptions']: out+=f"- *Assumptions:* {'; '.join(c['assumptions'])}.\n"
    out+=f"- *Cost of quick:* {cost.get(i,'?')}.\n"
    out+=f"- *Why not tests:* over {p['quantifier']['text']}; {p['why_tests_cant']}.\n\n"
out+=open(V+'/tools/design_tail.md').read()
notes=json.load(open(V+'/tools/seednotes.json'))
out+="| bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    out+=f"| {n} | {m['property']} | {m['needs']} | {notes.get(n,m['property'])} |\n"
open(V+'/DESIGN.md','w').write(out)
