#!/bin/bash
# usage: new.sh <id> <property> <needs> <breaks>  -- reads the body of main() on stdin; the change to
# /repo is taken from `git -C /tmp/seedrepo diff`. Confirms everything before keeping it.
set -u
d=/verif/seeded/$1
mkdir -p "$d"
[ -t 0 ] || B=$(cat)
{ cat /verif/tools/seed/prelude.rs; echo; echo "fn main() {"; echo "$B"; echo '    println!("ok");'; echo "}"; } > "$d/main.rs"
cp /verif/tools/seed/demo.sh "$d/demo.sh"
git -C /tmp/seedrepo diff > "$d/patch.diff"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
echo "== $1: patched"; (cd /tmp/seedrepo && bash "$d/demo.sh"); echo "rc=$? (want nonzero, not 3)"
echo "== $1: unpatched"; (cd /repo && bash "$d/demo.sh"); echo "rc=$? (want 0)"
