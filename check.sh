#!/bin/bash
# check.sh PROPERTY [quick|thorough]
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.bin/gocv
new=$(find "$V/gocv" -name '*.go' -newer "$B" 2>/dev/null | head -1)
if [ ! -x "$B" ] || [ -n "$new" ]; then "$V/setup.sh" || exit 2; fi
exec "$B" -check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${GOCV_REPO:-/repo}" -verif "$V"
