#!/bin/bash
# mkbug.sh ID PROPERTY : takes the uncommitted changes of the scratch copy /tmp/w/repo as the patch of seeded/ID
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w/repo diff > $d/patch.diff
git -C /tmp/w/repo checkout -q -- .
