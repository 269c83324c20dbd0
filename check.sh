#!/bin/bash
# check.sh ID: decides one property on /repo's current working tree.
cd "$(dirname "$0")"
if [ ! -x bin/deckardcheck ] || [ -n "$(find checker -name '*.go' -newer bin/deckardcheck -print -quit)" ]; then ./setup.sh || exit 2; fi
. checker/env.sh
exec bin/deckardcheck -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -property "$1"
