#!/bin/sh
# run.sh PROPERTY TIER: decides one property on /repo's current tree.
. /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
[ -x "$d/bin/gosym" ] || sh "$d/setup.sh" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off
exec "$d/bin/gosym" check "$1" -verif "$d" -tier "${2:-quick}"
