#!/bin/bash
# Re-confirms kept bugs: retest.sh <id>...
for i in "$@"; do d=/verif/seeded/$i
git -C /tmp/seedrepo checkout -q . ; git -C /tmp/seedrepo apply $d/patch.diff || echo "NO APPLY $i"
(cd /tmp/seedrepo && bash $d/demo.sh >/tmp/seed.out 2>&1); a=$?
git -C /tmp/seedrepo checkout -q .
(cd /repo && bash $d/demo.sh >/tmp/seed.out2 2>&1); b=$?
echo "$i patched=$a unpatched=$b"; [ $b = 0 ] || head -5 /tmp/seed.out2; [ $a = 3 ] && head -5 /tmp/seed.out
done
