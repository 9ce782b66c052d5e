#!/bin/bash
# try.sh P12 FAMILY-index N [seed]: time the trace check of N random scenarios of a property (development aid)
cd "$(dirname "$0")/.." && exec timeout ${LIMIT:-300} python3 - "$@" <<'PY'
import sys,random,importlib,os,time,itertools
sys.path[:0]=['lib','props']
import vf
pid,fi,n=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); seed=int(sys.argv[4]) if len(sys.argv)>4 else 7
fam=importlib.import_module(pid.lower()).CHECK.families[fi]
exe=vf.build_harness(fam["harness"],fam["targets"],fam.get("ldextra",()),fam.get("variant",("visr",)))
s=list(fam['gen'](random.Random(seed),'quick')); random.Random(seed).shuffle(s)
s=s[:n]
open('/tmp/try.txt','w').write(''.join('scn %d\n%s\n'%(i,'\n'.join(x)) for i,x in enumerate(s)))
print(vf.run_harness(exe,'/tmp/try.txt','/tmp/try.ndjson',timeout=100))
print(sum(1 for _ in open('/tmp/try.ndjson')),'events', os.path.getsize('/tmp/try.ndjson'))
PY
