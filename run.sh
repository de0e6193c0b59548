#!/bin/bash
# run.sh ID: decide one property against /repo's current tree
cd "$(dirname "$0")" || exit 2
[ -x bin/vc ] || bash build.sh || exit 2
exec bin/vc check "$1"
