#!/bin/bash
# mkbug.sh ID PROPERTY NEEDS BREAKS
# Takes the uncommitted change in the scratch worktree /tmp/wt and the demo
# program /tmp/demo.go (package main), confirms that the change builds, passes
# the stable tests, that the demo distinguishes it, and stores it.
set -u
id=$1 prop=$2 needs=$3 breaks=$4
d=/verif/seeded/$id
mkdir -p $d/prog
# With DEMOPKG the demo /tmp/demo_test.go is a test in that package.
if [ -n "${DEMOPKG:-}" ]; then cp /tmp/demo_test.go $d/prog/demo.go.txt; else cp /tmp/demo.go $d/prog/main.go; fi
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.sh <<'EOS'
#!/bin/bash
# Runs prog/main.go inside the module in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=${DEMO_REPO:-/repo}
cd "$repo" || exit 2
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\"Replace\":{\"$repo/zzdemo/main.go\":\"$here/prog/main.go\"}}" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zzdemo || exit 0
timeout 120 "$tmp/demo"
EOS
[ -n "${DEMOPKG:-}" ] && cat > $d/demo.sh <<EOS
#!/bin/bash
# Runs prog/demo.go.txt as a test of package $DEMOPKG.
here="\$(cd "\$(dirname "\$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=\${DEMO_REPO:-/repo}
cd "\$repo" || exit 2
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
cp "\$here/prog/demo.go.txt" "\$tmp/zzdemo_test.go"
echo "{\"Replace\":{\"\$repo/$DEMOPKG/zzdemo_test.go\":\"\$tmp/zzdemo_test.go\"}}" > "\$tmp/o.json"
timeout 200 go test -vet=off -count=1 -overlay "\$tmp/o.json" -run ZZDemo ./$DEMOPKG
EOS
chmod +x $d/demo.sh
python3 - "$prop" "$needs" "$breaks" > $d/meta.json <<'EOS'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1,ensure_ascii=False))
EOS
W=/tmp/wt
. /opt/vp/env.sh
[ -d /tmp/wtclean ] || git clone -q /repo /tmp/wtclean
git -C /tmp/wtclean fetch -q && git -C /tmp/wtclean reset -q --hard origin/HEAD
DEMO_REPO=/tmp/wtclean bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; cat /tmp/demo.out; rm -r $d; exit 1; }
git -C /tmp/wtclean apply --check $d/patch.diff || exit 1
cd $W
go build ./... || { echo "DOES NOT BUILD"; exit 1; }
go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" > /tmp/demo.test; grep -q FAIL /tmp/demo.test && { echo "TESTS FAIL"; grep -m8 -e "--- FAIL" -e "FAIL" /tmp/demo.test; rm -r $d; exit 1; }
DEMO_REPO=$W bash $d/demo.sh >/tmp/demo.out 2>&1 && { echo "DEMO PASSES WITH BUG"; rm -r $d; exit 1; }
echo "demo: $(tail -2 /tmp/demo.out)"
if [ "${CHECK:-1}" = 1 ]; then for p in $prop ${ALSO:-}; do (cd /verif && REPO_DIR=$W ./check $p quick | grep -E 'VIOLATION|input|harness|held' | head -6); done; fi
git -C $W checkout -q -- .
