#!/bin/bash
# check.sh PROPERTY [quick|thorough]: runs the check of one property against /repo.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
build_engine || { echo "the engine does not build"; exit 2; }
unset GOFLAGS
exec "$ENGINE" -verif "$VERIF" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
