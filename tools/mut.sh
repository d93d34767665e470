#!/bin/bash
# usage: mut.sh PATCH CNN [args]: run a check against a scratch copy of /repo with PATCH applied (-R PATCH: reversed)
rev=""; [ "$1" = "-R" ] && { rev="-R"; shift; }
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/calkulate "$d/calkulate"
( cd "$d" && patch -s -p1 $rev < "$patch" ) || { echo "PATCH FAILED"; rm -rf "$d"; exit 3; }
SIMCALK_REPO="$d" "$(dirname "$0")/../run.sh" "$@"
rc=$?
rm -rf "$d"
exit $rc
