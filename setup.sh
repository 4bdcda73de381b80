#!/bin/bash
# builds the checker from the committed files
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$here/bin/phx" .
