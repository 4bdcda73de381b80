prop="C17"
mod,pkg="terminal","."
edits=[("terminal/new.go",'''return t.internal.WriteAt(x, y, s) }''','''return t.internal.WriteAt(y, x, s) }''')]
needs="WriteAt with different column and row through the platform-neutral terminal"
breaks="the text is written at the transposed position"
test='''
package terminal

import "testing"

type recorder struct {
	internalTerminal
	x, y int
}

func (r *recorder) WriteAt(x, y int, s string) error { r.x, r.y = x, y; return nil }

func TestSeed(t *testing.T) {
	r := &recorder{}
	if err := (&terminalAdapter{internal: r}).WriteAt(3, 7, "a"); err != nil || r.x != 3 || r.y != 7 {
		t.Errorf("%v %d,%d", err, r.x, r.y)
	}
}
'''
