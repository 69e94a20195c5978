#!/bin/bash
# plant.sh ID new PROPERTY : takes the uncommitted changes of /tmp/wt/repo as the patch of seeded/ID
# plant.sh ID              : applies seeded/ID to /repo, runs tests, demo and the property's check, undoes it
set -u
cd "$(dirname "$0")/.."
S=seeded/$1
if [ "${2:-}" = new ]; then
  mkdir -p $S; cp tools/lib.py $S/lib.py
  git -C /tmp/wt/repo diff > $S/patch.diff
  printf '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec /opt/pypyvenv/bin/python -B "$D/demo.py"\n' > $S/demo.sh
  git -C /tmp/wt/repo checkout -q -- .
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /repo && bash /verif/$S/demo.sh) > /tmp/demo0.txt 2>&1; echo "demo on clean tree: $?"
git -C /repo apply $PWD/$S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/build.txt 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh /tmp/x/r.json 2>&1 | tail -1
(cd /repo && bash /verif/$S/demo.sh) > /tmp/demo1.txt 2>&1; echo "demo with patch: $?"; tail -2 /tmp/demo1.txt
python3 harness/run.py ${3:-$P} | cut -c1-700; echo "check $P: ${PIPESTATUS[0]}"
