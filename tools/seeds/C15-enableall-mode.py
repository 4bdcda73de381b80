prop="C15"
mod,pkg="mouse","internal/infrastructure/platform"
edits=[("mouse/internal/infrastructure/platform/terminal_mode.go","""	t.enabled = true
	t.mode = ansi.ModeSGR
	return nil
}""","""	t.enabled = true
	t.mode = ansi.ModeButtonMotion
	return nil
}""")]
needs="EnableAll switched off with Disable (or by enabling another mode) instead of DisableAll"
breaks="SGR encoding stays switched on in the terminal"
test='''
package platform

import (
	"io"
	"os"
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = w
	defer func() { os.Stdout = old }()
	m := NewTerminalMode()
	for _, e := range []error{m.EnableAll(), m.Disable()} {
		if e != nil {
			t.Error(e)
		}
	}
	w.Close()
	out, _ := io.ReadAll(r)
	for _, mode := range []string{"?1006", "?1002"} {
		if strings.LastIndex(string(out), mode+"h") > strings.LastIndex(string(out), mode+"l") {
			t.Errorf("mode %s left on: %q", mode, out)
		}
	}
}
'''
