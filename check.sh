#!/bin/bash
# usage: check.sh PROPERTY [tier]   - decides one property from /repo's current source
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PHX_VERIF=$here
bin=$here/bin/phx
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -type f 2>/dev/null | head -1)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/checker" && GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$bin" .) || { echo "cannot build the checker"; exit 2; }
fi
exec "$bin" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
