prop="C23"
mod,pkg="clipboard","internal"
f="clipboard/internal/infrastructure/native/clipboard_windows.go"
edits=[(f,"""	srcSlice := unsafe.Slice(src, size/2)
""","""	const maxTransfer = 1 << 31 // refuse absurd sizes
	if size > maxTransfer {
		return
	}
	srcSlice := unsafe.Slice(src, size/2)
""")]
needs="building for 32-bit Windows"
breaks="the clipboard module no longer compiles for windows/386"
demo='''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
cd clipboard && CGO_ENABLED=0 GOOS=windows GOARCH=386 go build ./...
'''
