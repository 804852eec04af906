#!/bin/bash
# hunt.sh ID...: does the check of the planted bug's property catch it? Works on a copy of
# /repo that is mounted over it in a namespace of its own, with what is committed in /verif.
S=$(mktemp -d /tmp/hunt.XXXXXX)
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git clone -q /verif "$S/verif"; git clone -q /repo "$S/repo"
  git -C "$S/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for q in ${CHECKS_TO_RUN:-$p}; do
    s=$(date +%s)
    unshare -Urmn --kill-child bash -c "ip link set lo up; mount --bind $S/repo /repo; cd $S/verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $q" > "/tmp/hunt.$id.$q.log" 2>&1; r=$?
    echo "$id: $q exit $r ($(( $(date +%s)-s )) s) $(grep -m1 "^VIOLATION" "/tmp/hunt.$id.$q.log" | cut -c1-200) $(grep -m1 -iE 'NO ANSWER' "/tmp/hunt.$id.$q.log" | cut -c1-100)"
  done
  chmod -R u+w "$S"; rm -rf "$S/verif" "$S/repo"
done
rm -rf "$S"
