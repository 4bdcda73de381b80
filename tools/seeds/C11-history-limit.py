prop="C11"
mod,pkg="clipboard","internal/domain/service"
edits=[("clipboard/internal/domain/service/clipboard_history.go","""	h.maxSize = maxSize

	// Enforce new size limit
	if h.maxSize > 0 &&""","""	shrunk := maxSize < h.maxSize
	h.maxSize = maxSize

	// Enforce new size limit
	if shrunk && h.maxSize > 0 &&""")]
needs="a history without a limit (0) that is given one while it holds more entries"
breaks="0 stands for no limit, so going from 0 to a limit does not look like shrinking: the history keeps more entries than its limit"
test='''
package service

import (
	"testing"

	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
)

func TestSeed(t *testing.T) {
	h := NewClipboardHistory(0, 0)
	for i := 0; i < 5; i++ {
		if err := h.Add([]byte("x"), value.MIMETypePlainText); err != nil {
			t.Fatal(err)
		}
	}
	h.SetMaxSize(2)
	if h.Size() > h.MaxSize() {
		t.Fatal(h.Size())
	}
}
'''
