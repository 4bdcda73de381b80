prop="C16"
mod,pkg="style","."
edits=[("style/internal/application/command/border_renderer.go","""	termCap := style.GetTerminalCapability()
	ansiCode := br.colorToANSI(borderColor, termCap, true)
	reset := br""","""	termCap := style.GetTerminalCapability()
	if termCap == value2.ANSI16 && hasLeft != hasRight {
		// A single rule down one side: the 256-colour palette keeps it distinct from bright text.
		termCap = value2.ANSI256
	}
	ansiCode := br.colorToANSI(borderColor, termCap, true)
	reset := br""")]
needs="a coloured border with only the left or only the right side on a 16-colour terminal"
breaks="that side is drawn with a 256-colour sequence on a 16-colour terminal"
test='''
package style

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New().Border(NormalBorder).BorderTop(false).BorderBottom(false).BorderRight(false).BorderColor(Red).TerminalCapability(1)
	if out := Render(s, "x"); strings.Contains(out, ";5;") {
		t.Errorf("%q", out)
	}
}
'''
