"""development tool: remember how a planted bug was caught (tools/seed_results.tsv, used by mkdesign.py)"""
import sys,re,os
s,p,rc=sys.argv[1:]
F='/verif/tools/seed_results.tsv'
log=open(f'/verif/work/seed-{s}.log').read()
rp=f'/verif/work/replay-{p}.txt'
how='missed'
if rc=='1' and f'VIOLATION property={p}' in log:
    r=open(rp).read() if os.path.exists(rp) else ''
    obl=[]
    for m in re.finditer(r'^== (\S+)',r,re.M):
        if m[1] not in obl: obl.append(m[1])
    inp='no-failing-input-found' not in log
    how='; '.join((['obligation of '+', '.join('`'+o+'`' for o in obl[:3])+(' and more' if len(obl)>3 else '')] if obl else [])+(['input'] if inp else []))
    und=re.findall(r'^undecided: (\S+?): ',log,re.M)
    if und and not obl: how+=' (undecided: '+', '.join('`'+u+'`' for u in und[:2])+')'
d={}
if os.path.exists(F): d=dict((l.split('\t')[0],l) for l in open(F).read().splitlines() if l)
d[s]=f'{s}\t{p}\t{how}'
open(F,'w').write('\n'.join(d[k] for k in sorted(d))+'\n')
if os.path.exists(rp): os.remove(rp)
