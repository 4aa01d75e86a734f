#!/bin/bash
# run.sh REGEX [go test flags]: runs replay tests on the repository ($VERIF_REPO or /repo)
R=${VERIF_REPO:-/repo}; rx=$1; shift
T=$(mktemp -d)
python3 - "$R" "$T/ov.json" <<'P'
import sys,os,json
R,o=sys.argv[1:]
d="/verif/replay"; rep={}
for f in sorted(os.listdir(d)):
    if f.endswith("_verif_test.go"):
        sub={"stats":"memcache/stats","netconn":"memcache/netconn"}.get(f.split("_")[0],"memcache")
        rep[os.path.join(R,sub,"zz_"+f)]=os.path.join(d,f)
json.dump({"Replace":rep},open(o,"w"))
P
cd $R && go test -overlay $T/ov.json -vet=off -count=1 -run "$rx" "$@" ./memcache ./memcache/stats ./memcache/netconn
rc=$?; rm -r "$T"; exit $rc
