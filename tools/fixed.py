# regenerates the "fixed:" part of known_findings.txt from /repo's fix commits and tools/fixed.json
import json,subprocess
m=json.load(open('/verif/tools/fixed.json'))
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
out=[l for l in open('/verif/known_findings.txt').read().splitlines() if not l.startswith('fixed:')] if __import__('os').path.exists('/verif/known_findings.txt') else []
for l in log:
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        k=s[5:]
        if k not in m: print('MISSING',k); continue
        out.append(f"fixed: property={m[k][0]} {h} {m[k][1]}")
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
