prop="C05"
mod,pkg='tea','internal/infrastructure/renderer'
edits=[('tea/internal/infrastructure/renderer/inline.go','''	r.mu.Lock()
	defer r.mu.Unlock()
	r.out = w
''','''	r.mu.Lock()
	if w == nil {
		return // nothing to redirect to
	}
	defer r.mu.Unlock()
	r.out = w
''')]
needs='redirecting the output to a nil writer, then drawing again'
breaks='the renderer lock stays held and the next frame blocks for ever'
test='''
package renderer

import (
	"bytes"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	r := NewInlineRenderer(&bytes.Buffer{}, 80, 24)
	if err := r.Render("one"); err != nil {
		t.Fatal(err)
	}
	r.SetOutput(nil)
	done := make(chan struct{})
	go func() { r.SetOutput(&bytes.Buffer{}); _ = r.Render("two"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Render blocked")
	}
}
'''
