prop="C14"
mod,pkg="style","internal/application/command"
edits=[("style/internal/application/command/render.go","""	if style.GetStrikethrough() {
""","""	if _, colored := style.GetForeground(); style.GetStrikethrough() && !colored {
""")]
needs="a style with strikethrough and a foreground colour"
breaks="strikethrough is dropped from coloured text"
test='''
package command

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
	"github.com/phoenix-tui/phoenix/style/internal/domain/service"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
)

func TestSeed(t *testing.T) {
	rc := NewRenderCommand(service.NewColorAdapter(), service.NewSpacingCalculator(), service.NewTextAligner(), ansi.NewANSICodeGenerator())
	got, err := rc.Execute(model.NewStyle().Foreground(value.RGB(255, 0, 0)).Strikethrough(true), "x")
	if err != nil || !strings.Contains(got, "\\x1b[9m") {
		t.Fatalf("%q %v", got, err)
	}
}
'''
