#!/bin/bash
# parseeds.sh ID...: run each planted bug's check on scratch copies of /repo and /verif, in parallel
one() {
  i=$1; W=/tmp/ps/$i; mkdir -p "$W"
  cp -a /repo "$W/r"
  rsync -a --exclude evidence --exclude .git --exclude seeded /verif/ "$W/v/"; mkdir -p "$W/v/evidence"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  if git -C "$W/r" apply "/verif/seeded/$i/patch.diff"; then
    (cd "$W/v" && VP_REPO="$W/r" timeout 900 python3 check.py "$p" > "/tmp/seed_$i.log" 2>&1)
    c=$?
    echo "$i $p exit=$c $(grep -c '^VIOLATION' "/tmp/seed_$i.log")"
  else
    echo "$i DOES NOT APPLY"
  fi
  rm -rf "/tmp/ps/$i"
}
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
