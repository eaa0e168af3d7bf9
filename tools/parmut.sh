#!/bin/bash
# development tool: parmut.sh SEED COUNT -> mutants in N copies at once, results in /tmp/mutw/out
N=4; W=/tmp/mutw; mkdir -p $W
python3 /verif/tools/mutate.py list $1 $2 $W/list.json; 
for i in $(seq 0 $((N-1))); do
  mkdir -p $W/$i; rsync -a --delete /repo/ $W/$i/repo/; rsync -a --delete /verif/ $W/$i/verif/; mkdir -p $W/$i/tmp
  unshare -m bash -c "cp $W/list.json $W/$i/list.json; L=\$(cat $W/$i/list.json | wc -c); mkdir -p /dev/shm/mw$i; mount --bind $W/$i/repo /repo; mount --bind $W/$i/verif /verif; cp $W/list.json /verif/work/ml.json; touch $W/out; exec 3>>$W/out; mount --bind /dev/shm/mw$i /tmp; cd /verif; python3 tools/mutate.py run work/ml.json $i $N /dev/fd/3" &
done
wait
