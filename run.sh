#!/bin/sh
# run.sh ID [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
[ -x bin/engine ] || ./build.sh || exit 2
[ -n "$2" ] && { VERIF_TIER=$2; export VERIF_TIER; }
exec ./bin/engine check "$1"
