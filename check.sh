#!/bin/bash
# check.sh PROPERTY [engine flags]: decide one property for /repo's current tree.
cd "$(dirname "$0")" || exit 2
p=$1; shift
./setup.sh >&2 || exit 2
exec ./bin/gosymx -repo "${REPO:-/repo}" -verif "$PWD" -prop "$p" "$@"
