#!/bin/bash
# tryseed.sh ID [CHECK...]: tries a planted bug in a scratch copy of /repo that a private mount shows as /repo.
# Builds, runs the tests, the demo with and without the patch, and the property's check (and any others named).
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX)
trap '/bin/rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/verif" "$W/demo"
(cd "$V" && tar cf - --exclude=.build --exclude=evidence --exclude=seeded --exclude=.git .) | (cd "$W/verif" && tar xf -)
(cd "$S" && tar cf - --exclude='*.diff' --exclude=meta.json .) | (cd "$W/demo" && tar xf -)
cat > "$W/go.sh" <<EOG
set -u
mount --bind $W/repo /repo
mount --bind $W/verif /verif
cd /repo
if [ -z "\${NODEMO:-}" ]; then
bash $W/demo/demo.sh >$W/d0 2>&1; echo "demo unpatched: \$?"
fi
git apply $S/patch.diff || { echo PATCH FAILS; exit 1; }
if [ -z "\${NODEMO:-}" ]; then
bash /opt/vp/test.sh $W/out.json > $W/tlog 2>&1; tail -1 $W/tlog
bash $W/demo/demo.sh >$W/d1 2>&1; echo "demo patched: \$?"; tail -3 $W/d1
fi
cd /verif
for p in $prop "\$@"; do
  [ -n "\${NOCHECK:-}" ] || { timeout 1500 python3 check.py \$p > $W/c 2>&1; echo "check \$p: rc=\$?"; grep -A1 VIOLATION $W/c | cut -c1-300 | head -6; tail -1 $W/c | cut -c1-200; }
done
EOG
[ -f "$S/patch.diff" ] || { echo no patch; exit 1; }
V_S=$S
cp "$S/patch.diff" "$W/patch.diff"; sed -i "s#$S/patch.diff#$W/patch.diff#" "$W/go.sh"
echo "== $id ($prop)"
VERIF_SEED=${VERIF_SEED:-1} unshare -rm bash "$W/go.sh" "$@"
