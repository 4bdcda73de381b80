prop="C19"
mod,pkg="components","viewport"
edits=[("components/viewport/viewport.go","""	case tea.MouseMsg:
		if v.mouseEnabled {
			return v.handleMouseMsg(msg), nil
		}
""","""	case tea.MouseMsg:
		// A drag that is under way is always followed to its end
		if v.mouseEnabled || v.isDragging {
			return v.handleMouseMsg(msg), nil
		}
""")]
needs="disabling the mouse in the middle of a drag"
breaks="the viewport goes on scrolling with the mouse after its mouse handling was disabled"
test='''
package viewport

import (
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

func TestSeed(t *testing.T) {
	v := NewWithLines([]string{"a", "b", "c", "d", "e"}, 10, 2).MouseEnabled(true)
	v, _ = v.Update(tea.MouseMsg{Button: tea.MouseButtonLeft, Action: tea.MouseActionPress, Y: 1})
	v = v.MouseEnabled(false)
	v, _ = v.Update(tea.MouseMsg{Button: tea.MouseButtonWheelDown, Action: tea.MouseActionPress})
	if v.ScrollOffset() != 0 {
		t.Fatal("scrolled with the mouse disabled")
	}
}
'''
