#!/bin/bash
# check.sh ID [quick|thorough]: build the analyser if needed and run one check
# on the current source of /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
if [ ! -x "$here/bin/rsa" ] || [ -n "$(find "$here/rsa" -newer "$here/bin/rsa" -print -quit)" ]; then
	mkdir -p "$here/bin"
	tmp="$here/bin/rsa.$$"
	(cd "$here/rsa" && go build -o "$tmp" .) || { rm -f "$tmp"; exit 2; }
	mv -f "$tmp" "$here/bin/rsa"
fi
[ "${1:-}" = "--build" ] && exit 0
exec "$here/bin/rsa" check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${RSA_REPO:-/repo}" -out "$here"
