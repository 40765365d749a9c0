#!/bin/bash
# sweep.sh PROPS TIME [extra args]: run every flavour
P=$1; T=$2; shift 2
cd /verif; mkdir -p build/replays build/out
./build/cluster --list | xargs -P 8 -I{} sh -c "timeout 900 ./build/cluster --flavour {} --props $P --time $T --replays build/replays --out build/out/{}.json $* > build/out/{}.txt 2>&1; echo {} rc=\$? >> build/out/rc.txt"
python3 - <<'PY'
import json,glob
for f in sorted(glob.glob('/verif/build/out/*.json')):
    j=json.load(open(f))
    print("%-14s d=%d/%d b=%d st=%8d tr=%9d wall=%6.1f rc=%d val=%d/%d ld=%d cm=%d rs=%d sn=%d cf=%d rd=%d %s %s"%(j['flavour'],j['depth_completed'],j['depth_bound'],j['budget'],j['states'],j['all_transitions'],j['wall'],j['rc'],j['validated'],j['mismatched'],j['leaders'],j['commits'],j['restarts'],j['snapshots'],j['conf_applied'],j['reads'],j['monitor'],j['violation'][:150]))
PY
