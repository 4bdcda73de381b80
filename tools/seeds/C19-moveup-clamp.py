prop="C19"
mod,pkg="components","input"
edits=[("components/input/internal/textarea/domain/service/navigation.go","""	newRow := row - 1
	newLineLen := len([]rune(ta.Lines()[newRow]))
	newCol := col
	if newCol > newLineLen {
		newCol = newLineLen
	}

	to := model.NewCursorPos(newRow, newCol)
""","""	newRow := row - 1
	newLineLen := len([]rune(ta.Lines()[newRow]))
	newCol := col

	to := model.NewCursorPos(newRow, newCol)
	if newCol > newLineLen {
		newCol = newLineLen
	}
""")]
needs="moving up from a column that the line above does not have, under a validator that refuses the column the cursor ends in"
breaks="the validator is asked about the column the cursor comes from, and the cursor is put elsewhere"
test='''
package input

import (
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

func TestSeed(t *testing.T) {
	ta := NewTextArea().SetValue("ab\\nabcdef").SetCursorPosition(1, 5)
	ta = ta.OnMovement(func(_, to CursorPos) bool { return to.Col != 2 })
	ta, _ = ta.Update(tea.KeyMsg{Type: tea.KeyUp})
	if r, c := ta.CursorPosition(); r != 1 || c != 5 {
		t.Fatalf("cursor at %d,%d, refused", r, c)
	}
}
'''
