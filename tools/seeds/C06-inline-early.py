prop="C06"
mod,pkg='tea','internal/infrastructure/renderer'
edits=[('tea/internal/infrastructure/renderer/inline.go','''	_, err := r.out.Write(buf.Bytes())
	if err != nil {
		return err
	}
''','''	r.lastLines = newLines
	_, err := r.out.Write(buf.Bytes())
	if err != nil {
		return err
	}
'''),('tea/internal/infrastructure/renderer/inline.go','''	r.lastView = view
	r.lastLines = newLines
''','''	r.lastView = view
''')]
needs='a frame whose write fails once after another frame was drawn, then the same frame again'
breaks='the frame is recorded as drawn although its write failed, so it is never drawn'
test='''
package renderer

import (
	"bytes"
	"errors"
	"strings"
	"testing"
)

type flaky struct {
	bytes.Buffer
	fail bool
}

func (f *flaky) Write(p []byte) (int, error) {
	if f.fail {
		f.fail = false
		return 0, errors.New("busy")
	}
	return f.Buffer.Write(p)
}

func TestSeed(t *testing.T) {
	w := &flaky{}
	r := NewInlineRenderer(w, 80, 24)
	if err := r.Render("one"); err != nil {
		t.Fatal(err)
	}
	w.fail = true
	if err := r.Render("two"); err == nil {
		t.Fatal("no error")
	}
	if err := r.Render("two"); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(w.String(), "two") {
		t.Fatal("the frame was never drawn")
	}
}
'''
