#!/bin/bash
# plant.sh ID...: is /verif/seeded/ID a planted bug that counts? Works in scratch copies of /repo.
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/plant.XXXXXX)
  git clone -q /repo "$s/repo"; mkdir "$s/demo"
  for f in "$d"/*; do case $f in *.diff|*.patch|*/meta.json) ;; *) cp "$f" "$s/demo/";; esac; done
  cd "$s/repo" || exit 1
  go build ./... || { echo "$id: clean tree does not build"; }
  bash "$s/demo/demo.sh" > "$s/clean.log" 2>&1; c=$?
  msg=""
  [ $c = 0 ] || msg="$msg DEMO-CLEAN=$c"
  git apply "$d/patch.diff" || msg="$msg NOT-APPLIED"
  # at least one changed line is of the original repository
  own=$(python3 - "$d/patch.diff" <<'P'
import re,subprocess,sys
n=0; bad=0; f=None
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m.group(1)); continue
    if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
    if l.startswith('-'):
        b=subprocess.run(['git','-C','/repo','blame','-l','-s','-L%d,%d'%(ln,ln),'HEAD','--',f],stdout=subprocess.PIPE,text=True).stdout
        anc=subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',b.split()[0].lstrip('^'),'721b15d']).returncode
        if anc==0: n+=1
        else: bad+=1
        ln+=1
    elif l.startswith('+'): pass
    else: ln+=1
print(n,bad)
P
)
  case $own in "0 "*) msg="$msg NO-ORIGINAL-LINE($own)";; esac
  go build ./... > "$s/build.log" 2>&1 || { msg="$msg BUILD"; cat "$s/build.log"; }
  pk=$(go list ./... | grep -vxF -e github.com/ElectroUnion/egts-gate/cli/receiver -e github.com/ElectroUnion/egts-gate/cli/receiver/server)
  go test -vet=off -count=1 $pk > "$s/test.log" 2>&1 || { msg="$msg TESTS"; grep -E '^(---|FAIL)' "$s/test.log"; }
  bash "$s/demo/demo.sh" > "$s/patched.log" 2>&1; p=$?
  [ $p != 0 ] || msg="$msg DEMO-PATCHED=0"
  if [ -n "$msg" ]; then echo "$id:$msg"; echo "-- clean:"; tail -15 "$s/clean.log"; echo "-- patched:"; tail -15 "$s/patched.log"; else echo "$id: counts (original/own lines $own) [$(grep -m1 -E 'demo_test.go:|panic:|DATA RACE|demo:' "$s/patched.log" | cut -c1-150)]"; fi
  cd /; chmod -R u+w "$s"; rm -rf "$s"
done
