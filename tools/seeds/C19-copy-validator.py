prop="C19"
mod,pkg="components","input"
edits=[("components/input/internal/textarea/domain/model/textarea.go","""func (t *TextArea) WithKillRing(killRing *KillRing) *TextArea {
	return t.withKillRing(killRing)
}""","""func (t *TextArea) WithKillRing(killRing *KillRing) *TextArea {
	if killRing == nil {
		return t
	}
	c := NewTextArea().WithSize(t.width, t.height).WithReadOnly(t.readOnly)
	c.buffer, c.cursor, c.selection = t.buffer, t.cursor, t.selection
	c.maxLines, c.maxChars, c.wrap, c.placeholder = t.maxLines, t.maxChars, t.wrap, t.placeholder
	c.scrollRow, c.scrollCol = t.scrollRow, t.scrollCol
	c.showLineNumbers, c.lineNumberWidth, c.showCursor = t.showLineNumbers, t.lineNumberWidth, t.showCursor
	c.cursorMovedHandler, c.boundaryHitHandler = t.cursorMovedHandler, t.boundaryHitHandler
	c.killRing = killRing.Copy()
	return c
}""")]
needs="a kill command, then a move that the validator refuses"
breaks="killing text forgets the movement validator, so later moves are not checked"
test='''
package input

import (
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

func TestSeed(t *testing.T) {
	ta := NewTextArea().Size(40, 10).SetValue("abc def").SetCursorPosition(0, 3)
	ta = ta.OnMovement(func(_, to CursorPos) bool { return to.Col >= 3 })
	ta, _ = ta.Update(tea.KeyMsg{Type: tea.KeyRune, Rune: 'k', Ctrl: true})
	ta, _ = ta.Update(tea.KeyMsg{Type: tea.KeyLeft})
	if _, c := ta.CursorPosition(); c != 3 {
		t.Fatalf("cursor at column %d, refused", c)
	}
}
'''
