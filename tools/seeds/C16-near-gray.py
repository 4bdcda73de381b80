prop="C16"
mod,pkg="style","."
edits=[("style/internal/domain/service/color_adapter.go","""func (a *DefaultColorAdapter) toANSI256Background(color value2.Color) string {
	code""","""func (a *DefaultColorAdapter) toANSI256Background(color value2.Color) string {
	// The gray ramp drops the tint of near-gray backgrounds: keep it exactly.
	if r, g, b := color.RGB(); isGrayish(r, g, b) && (r != g || g != b) {
		return a.toTrueColorBackground(color)
	}
	code""")]
needs="a near-gray background (components within 10 of each other but not equal) on a 256-colour terminal"
breaks="the background is emitted as a true-colour sequence on a 256-colour terminal"
test='''
package style

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New().Background(RGB(120, 124, 118)).TerminalCapability(2)
	if out := Render(s, "x"); strings.Contains(out, ";2;") {
		t.Errorf("%q", out)
	}
}
'''
