#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what_it_breaks" < demo.cpp ; the bug is the current diff of /repo's working tree
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff
test -s $D/patch.diff
cat > $D/demo.cpp
cp /verif/tools/probe.hpp $D/probe.hpp
cat > $D/demo.sh <<'X'
#!/bin/bash
# run with cwd /repo; exits 0 when the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -g -I"$PWD" -I"$D" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 60 "$T/demo"
X
chmod +x $D/demo.sh
python3 - "$@" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
X
cd /repo
bash /opt/vp/build.sh >/tmp/w/seed_b.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/w/seed_b.log; }
bash /opt/vp/test.sh /tmp/w/seed_o.json 2>&1 | tail -1
set +e
bash $D/demo.sh; echo "demo with bug: $?"
git stash -q; bash $D/demo.sh; echo "demo without: $?"; git stash pop -q
