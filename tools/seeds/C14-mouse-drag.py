prop="C14"
mod,pkg="components","viewport"
edits=[("components/viewport/viewport.go","""		if v.mouseEnabled {
			return v.handleMouseMsg(msg), nil
		}
""","""		if v.mouseEnabled || msg.Button == tea.MouseButtonWheelDown {
			return v.handleMouseMsg(msg), nil
		}
""")]
needs="a viewport without mouse support and a wheel-down event"
breaks="the mouse setting of a viewport is ignored for one kind of event"
test='''
package viewport

import (
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

func TestSeed(t *testing.T) {
	v := New(10, 2).SetLines([]string{"a", "b", "c", "d", "e", "f"}).ScrollToTop()
	v, _ = v.Update(tea.MouseMsg{Button: tea.MouseButtonWheelDown, Action: tea.MouseActionPress})
	if v.ScrollOffset() != 0 {
		t.Fatalf("offset %d", v.ScrollOffset())
	}
}
'''
