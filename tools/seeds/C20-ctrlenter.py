prop="C20"
mod,pkg="components","input"
edits=[("components/input/internal/textarea/infrastructure/keybindings/emacs.go",'''	if !msg.Ctrl && !msg.Alt {
		switch msg.Type {''','''	if msg.Ctrl && msg.Type == tea.KeyEnter {
		return e.editing.InsertChar(ta, '\\n'), nil
	}
	if !msg.Ctrl && !msg.Alt {
		switch msg.Type {''')]
needs="Ctrl+Enter, which terminals send as Enter"
breaks="a branch is reserved for a key that cannot arrive"
test='''
package input

import (
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

// No key the reader produces has the type Enter and the Ctrl modifier, so nothing may be reserved
// for it.
func TestSeed(t *testing.T) {
	ta := NewTextArea().SetValue("one")
	n, _ := ta.Update(tea.KeyMsg{Type: tea.KeyEnter, Ctrl: true})
	if n.Value() != "one" {
		t.Errorf("got %q", n.Value())
	}
}
'''
