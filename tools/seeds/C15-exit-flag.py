prop="C15"
mod,pkg="terminal","internal/infrastructure/unix"
edits=[("terminal/internal/infrastructure/unix/ansi.go","""	_, err := fmt.Fprint(a.output, "\\033[?1049l")
	if err != nil {
		return fmt.Errorf("failed to exit alternate screen buffer: %w", err)
	}

	a.inAltScreen = false
	return nil""","""	a.inAltScreen = false
	_, err := fmt.Fprint(a.output, "\\033[?1049l")
	if err != nil {
		return fmt.Errorf("failed to exit alternate screen buffer: %w", err)
	}

	return nil""")]
needs="the write of the exit sequence fails once (a full or temporarily unwritable terminal) and the caller asks whether it is still in the alternate screen, or retries"
breaks="the terminal stays in the alternate screen while the object says it left, and retrying is refused"
test='''
package unix

import (
	"os"
	"path/filepath"
	"testing"
)

func TestSeed(t *testing.T) {
	name := filepath.Join(t.TempDir(), "out")
	good, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	defer good.Close()
	bad, err := os.Open(name) // read-only: writes fail
	if err != nil {
		t.Fatal(err)
	}
	defer bad.Close()
	a := NewANSIWithOutput(good)
	if err := a.EnterAltScreen(); err != nil {
		t.Fatal(err)
	}
	a.output = bad
	if err := a.ExitAltScreen(); err == nil {
		t.Fatal("write did not fail")
	}
	a.output = good
	if !a.IsInAltScreen() {
		t.Error("says it left the alternate screen without having told the terminal")
	}
	if err := a.ExitAltScreen(); err != nil {
		t.Error(err)
	}
}
'''
