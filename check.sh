#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/ratuscheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
	"$here/build.sh" || exit 2
fi
if [ -n "${2:-}" ]; then export VERIF_TIER="$2"; fi
exec "$bin" -repo "${RATUS_REPO:-/repo}" -out "$here" run "$1"
