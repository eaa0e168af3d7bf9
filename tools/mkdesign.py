"""writes DESIGN.md: tools/design/head.md (1, 2), the assumptions and methods of tools/config.py (3, 4),
the planted bugs (5), tools/design/tail.md (6-9)"""
import json,os,sys
sys.path.insert(0,'/verif/tools')
import config as C
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
D='/verif/tools/design/'
names=[("REAL",C.REAL),("TEXT",C.TEXT),("HASH",C.HASH),("DYN",C.DYN),("DRAWN",C.DRAWN),("SHOWN",C.SHOWN)]
code={v:k for k,v in names if v}
o=[open(D+'head.md').read().rstrip(),'','## 3 Assumptions','','For every property:','']
o+=['* '+a[0].upper()+a[1:]+'.' for a in C.COMMON_ASSUME]
o+=['','Shared by several properties:','']+[f'* **{k}**: {v}.' for k,v in names if v]
o+=['','Per property (from `tools/config.py`; also in each evidence file, next to the list that the scan of the','verified text produced: every `external_body`, `assume_specification`, `axiom`, `uninterp`):','']
for p in props:
    x=C.ASSUME.get(p['id'],[])
    o.append(f"* **{p['id']}**: "+('; '.join(code.get(a,a) for a in x)+'.' if x else 'nothing but the above.'))
o+=['','The bounded part (compiled code, IEEE arithmetic, the real standard library) runs against exactly these','assumptions: rounding, the text functions of std, hashing and the file system behave there as they do.','']
o+=['## 4 The properties','','For each: what is specified and proved, the modules (contracts/<module>.vspec), what the bounded part runs on,','and what only it covers.','']
for p in props:
    i=p['id']; o+=[f"### {i} {p['title']}",'',C.NOTE.get(i,''),'']
    r=C.RULE[i]; r=r if isinstance(r,str) else r[-1]
    t=f"Modules: {', '.join(C.MODULES[i])}. Bounded companion: {r.rstrip('.')}."
    if C.REST.get(i): t+=' Not covered by a contract: '+'; '.join(C.REST[i])+'.'
    o+=[t,'']
o+=['## 5 Planted bugs','']
res={}
F='/verif/tools/seed_results.tsv'
if os.path.exists(F):
    for l in open(F):
        s,p,h=l.rstrip('\n').split('\t'); res[s]=h
ids=sorted(os.listdir('/verif/seeded'),key=lambda s:(json.load(open(f'/verif/seeded/{s}/meta.json'))['property'],s))
miss=[s for s in ids if res.get(s,'missed')=='missed']
o+=[f"`seeded/` has {len(ids)} changes that break a property, compile and pass the tests, each with a demonstration. `tools/seeds.py`",
 'holds them as text substitutions, `tools/mkseed.py` makes the folders and confirms each in a scratch copy,',
 "`tools/runseeds.sh` runs the quick check of its property on each. How they are caught (*obligation*: a named proof",
 "obligation fails; *input*: an input on which the real code breaks the property is found as well; *undecided*: the",
 "change puts the function outside the verifier's subset, so the bounded part decides):",'','| property | change | what it breaks | caught by |','|---|---|---|---|']
for s in ids:
    m=json.load(open(f'/verif/seeded/{s}/meta.json')); w=m['what_it_breaks'].replace('|','\\|')
    o.append(f"| {m['property']} | {s} | {w} | {res.get(s,'?')} |")
o+=['',f"Missed by the quick check: {', '.join(miss) if miss else 'none'}."]
o+=[open(D+'planted.md').read().rstrip() if os.path.exists(D+'planted.md') else '','',open(D+'tail.md').read().rstrip(),'']
open('/verif/DESIGN.md','w').write('\n'.join(o))
