#!/bin/bash
# runs the quick check of planted bugs in a scratch copy of /repo and /verif: tools/catchc.sh ID...   (P=Cxx: another property)
W=${W:-/tmp/mu3}
mkdir -p "$W/repo" "$W/verif"
rsync -a --delete --exclude target /repo/ "$W/repo/"
rsync -a --delete --exclude seeded --exclude /out --exclude target --exclude /evidence /verif/ "$W/verif/"
mkdir -p "$W/verif/out" "$W/verif/evidence"
cd "$W/verif" || exit 2
sed -i "s#/repo#$W/repo#g" mc/Cargo.toml mcx/Cargo.toml mcn/Cargo.toml
sed -i "s#/verif#$W/verif#g;s#/repo#$W/repo#g" env.sh run.sh
grep -rl '/verif' mc/src mcx/src mcx/build.rs mcn/src | xargs sed -i "s#/verif#$W/verif#g"
for id in "$@"; do
  d=/verif/seeded/$id
  p=${P:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C "$W/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  ./run.sh "$p" quick >"$W/log" 2>&1
  rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-t))s $(grep -m1 VIOLATION "$W/log" | cut -c1-200)"
  git -C "$W/repo" checkout -q -- .
done
