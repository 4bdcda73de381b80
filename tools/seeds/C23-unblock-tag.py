prop="C23"
mod,pkg="tea","internal"
edits=[("tea/internal/infrastructure/input/stdin_unblock_other.go","//go:build !windows","//go:build linux")]
needs="building for macOS"
breaks="the tea module no longer compiles for macOS"
demo='''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
cd tea && CGO_ENABLED=0 GOOS=darwin GOARCH=arm64 go build ./...
'''
