prop="C15"
mod,pkg="mouse","internal/infrastructure/platform"
edits=[("mouse/internal/infrastructure/platform/terminal_mode.go","""func (t *TerminalMode) Enable(mode ansi.MouseMode) error {
	if t.enabled {""","""func (t *TerminalMode) Enable(mode ansi.MouseMode) error {
	// The button tracking modes replace each other in the terminal.
	if t.enabled && (mode != ansi.ModeAnyMotion || t.mode == ansi.ModeSGR) {""")]
needs="switching from one of the less common protocols to any-motion tracking, then disabling"
breaks="the mode of the earlier protocol stays set in the terminal after Disable"
test='''
package platform

import (
	"io"
	"os"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/ansi"
)

func TestSeed(t *testing.T) {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = w
	defer func() { os.Stdout = old }()
	m := NewTerminalMode()
	for _, e := range []error{m.Enable(ansi.ModeURxvt), m.Enable(ansi.ModeAnyMotion), m.Disable()} {
		if e != nil {
			t.Error(e)
		}
	}
	w.Close()
	out, _ := io.ReadAll(r)
	if strings.LastIndex(string(out), "?1015h") > strings.LastIndex(string(out), "?1015l") {
		t.Errorf("mode 1015 left on: %q", out)
	}
}
'''
