#!/bin/bash
# development tool: runs the planted bugs in N copies at once (mount namespaces: /repo and /verif are copies there)
N=4; W=/tmp/parw; mkdir -p $W
ids="${*:-$(ls /verif/seeded)}"; printf '%s\n' $ids > $W/ids; : > $W/out
for i in $(seq 1 $N); do
  mkdir -p $W/$i; rsync -a --delete /repo/ $W/$i/repo/ 2>/dev/null || { rm -rf $W/$i/repo; cp -a /repo $W/$i/repo; }
  rm -rf $W/$i/verif; cp -a /verif $W/$i/verif
  unshare -m bash -c "mount --bind $W/$i/repo /repo; mount --bind $W/$i/verif /verif; cd /verif; awk 'NR%$N==$i%$N' $W/ids > work/ids; [ -s work/ids ] && bash tools/runseeds.sh \$(cat work/ids) >> $W/out 2>&1" &
done
wait
# merge the results
python3 - $N $W <<'P'
import sys
N,W=int(sys.argv[1]),sys.argv[2]
F='/verif/tools/seed_results.tsv'
d=dict((l.split('\t')[0],l) for l in open(F).read().splitlines() if l)
ids=open(W+'/ids').read().split()
for i in range(1,N+1):
    mine=set(ids[k] for k in range(len(ids)) if (k+1)%N==i%N)
    for l in open(f'{W}/{i}/verif/tools/seed_results.tsv'):
        if l.split('\t')[0] in mine: d[l.split('\t')[0]]=l.rstrip('\n')
open(F,'w').write('\n'.join(d[k] for k in sorted(d))+'\n')
P
sort $W/out
