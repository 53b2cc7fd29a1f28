#!/bin/bash
# seedtest.sh ID...: try planted bugs in a private copy of /repo (its own mount namespace): demo passes without, patch builds, tests pass, demo fails with
# NOTEST=1 skips the test suite, CHECK=1 also runs the property's check on the patched copy
W=/tmp/w/repo
if [ -z "$IN_NS" ]; then
    mkdir -p /tmp/w
    [ -d $W ] || cp -a /repo $W
    IN_NS=1 exec unshare -m bash "$0" "$@"
fi
mount --bind $W /repo || exit 9
cd /repo
for id in "$@"; do
    S=/verif/seeded/$id
    git -C /repo checkout -q -- . && git -C /repo clean -fdq src 
    D=/tmp/w/demo.$id; rm -rf /tmp/w/demo.$id; mkdir -p $D; cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
    bash /opt/vp/build.sh > /tmp/w/$id.build0 2>&1 || { echo "$id: base build failed"; continue; }
    timeout 300 bash $D/demo.sh > /tmp/w/$id.demo0 2>&1 && echo "$id: demo ok on base" || echo "$id: DEMO FAILS ON BASE (see /tmp/w/$id.demo0)"
    git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
    if bash /opt/vp/build.sh > /tmp/w/$id.build1 2>&1; then
        timeout 300 bash $D/demo.sh > /tmp/w/$id.demo1 2>&1 && echo "$id: DEMO PASSES WITH THE BUG" || echo "$id: demo fails with the bug"
        if [ -z "$NOTEST" ]; then
            bash /opt/vp/test.sh /tmp/w/$id.json > /tmp/w/$id.test 2>&1
            python3 - $id <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/%s.json'%sys.argv[1]))
names=b if isinstance(b,list) else b['stable']
p=set(r['passed']); bad=[n for n in names if n not in p]
print(sys.argv[1]+':', 'tests pass' if not bad else 'TESTS FAIL: %s'%bad[:5])
PY
        fi
    else
        echo "$id: DOES NOT BUILD"; tail -5 /tmp/w/$id.build1
    fi
    if [ -n "$CHECK" ]; then
        p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
        cp -f /verif/evidence/$p.json /tmp/w/ev.$p.json 2>/dev/null
        MC_BUILD=/tmp/w/mcbuild python3 /verif/mc/check.py $p > /tmp/w/$id.check 2>/tmp/w/$id.checkerr; rc=$?
        cp -f /tmp/w/ev.$p.json /verif/evidence/$p.json 2>/dev/null
        echo "$id: check $p exit $rc: $(grep -m1 -e VIOLATION -e OK /tmp/w/$id.check) $(head -1 /tmp/w/$id.check)"
    fi
    git apply -R $S/patch.diff
done
