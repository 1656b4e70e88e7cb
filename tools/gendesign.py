"""Writes DESIGN.md from tools/design_head.md, design_texts.py, the scenario list, the evidence of the last runs (tools/costs.json) and tools/design_tail.md."""
import json,os,subprocess,sys
sys.path.insert(0,'/verif/tools')
from design_texts import D
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
ls={};cur=None
for l in subprocess.run(['bash','/verif/run.sh','list','C30'],capture_output=True,text=True).stdout.split('\n'):
    if l.startswith('  '): ls[cur].append(l.strip().split('\t'))
    elif l.strip(): cur=l.strip(); ls[cur]=[]
cf='/verif/tools/costs.json'
costs=json.load(open(cf)) if os.path.exists(cf) else {}
out=[open('/verif/tools/design_head.md').read()]
out.append('\n## Properties\n')
for p in P:
    i=p['id']; d=D[i]
    out.append('\n### %s %s\n'%(i,p['title']))
    out.append('\n*Enumerated:* %s\n\n*Oracle:* %s\n\n*Left out:* %s\n'%d)
    if i in costs: out.append('\n*Cost of the quick tier:* %s cases, %s comparisons, %s s (8 cores, otherwise idle).\n'%tuple(costs[i]))
    out.append('\n| scenario | B quick | B thorough | space |\n|---|---|---|---|\n')
    for s in ls[i]: out.append('| %s | %s | %s | %s |\n'%(s[0],s[1][2:].replace('-1','off'),s[2][2:].replace('-1','off'),(s[3] if len(s)>3 else '').replace('|','/')))
tail=open('/verif/tools/design_tail.md').read()
ids=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
rows=['| planted bug | property | needs | caught by |\n|---|---|---|---|\n']
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i)); rows.append('| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'],ids.get(i,'not run')))
tail=tail.replace('%SEEDS%',''.join(rows))
bt='/verif/tools/bugs_table.md'
tail=tail.replace('%BUGS%',open(bt).read() if os.path.exists(bt) else '')
out.append('\n'+tail)
open('/verif/DESIGN.md','w').write(''.join(out))
