#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go' | head -1)" ]; then
  bash ./setup.sh || exit 2
fi
exec bin/govc check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
