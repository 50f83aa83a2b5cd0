#!/bin/bash
# tools/unfix.sh <commit> <property>...: run checks on a scratch copy of /repo with one of its commits undone
c=$1; shift
rm -rf /tmp/unfix; cp -a /repo /tmp/unfix
git -C /tmp/unfix update-index -q --refresh; git -C /repo show "$c" > /tmp/unfix.patch; git -C /tmp/unfix apply -R --3way /tmp/unfix.patch || { echo "cannot undo $c"; exit 2; }
cd "$(dirname "$0")/.."
for p in "$@"; do FFCL_REPO=/tmp/unfix FFCL_BUILD=/tmp/unfix/simbuild python3 check.py $p 2>&1 | grep -v built | tail -4; done
rm -rf /tmp/unfix
