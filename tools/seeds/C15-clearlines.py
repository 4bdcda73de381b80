prop="C15"
mod,pkg="terminal","internal/infrastructure/unix"
edits=[("terminal/internal/infrastructure/unix/ansi.go","""	// Multiple lines: move up to first line, then clear to end.
	_, err := fmt.Fprintf(a.output, "\\033[%dA\\r\\033[J", count-1)""","""	// Multiple lines: move up to first line, then clear to end.
	// The cursor never moves above the first row, so long counts need no exact distance.
	up := count - 1
	if up > 99 {
		up = 99
	}
	_, err := fmt.Fprintf(a.output, "\\033[%dA\\r\\033[J", up)""")]
needs="clearing more than 100 lines on a tall terminal"
breaks="only the last 100 lines are cleared and the cursor ends in the wrong row"
test='''
package unix

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeed(t *testing.T) {
	name := filepath.Join(t.TempDir(), "out")
	f, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	if err := NewANSIWithOutput(f).ClearLines(150); err != nil {
		t.Fatal(err)
	}
	f.Close()
	out, _ := os.ReadFile(name)
	if string(out) != "\\x1b[149A\\r\\x1b[J" {
		t.Errorf("%q", out)
	}
}
'''
