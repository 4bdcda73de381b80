prop="C14"
mod,pkg="components","modal"
edits=[("components/modal/modal.go","""	if m.domain.DimBackground() {
""","""	if m.domain.DimBackground() && x > 0 {
""")]
needs="a modal with a dimmed background at the left edge of the terminal"
breaks="the background is not dimmed for a modal that starts in the first column"
test='''
package modal

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

func TestSeed(t *testing.T) {
	m := New("x").Size(10, 4).Position(0, 0).DimBackground(true).Show()
	m, _ = m.Update(tea.WindowSizeMsg{Width: 20, Height: 8})
	if !strings.Contains(m.View(), "░") {
		t.Fatal("not dimmed")
	}
}
'''
