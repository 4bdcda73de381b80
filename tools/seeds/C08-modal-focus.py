prop="C08"
mod,pkg="components","modal/internal/domain/model"
edits=[("components/modal/internal/domain/model/modal.go","""		focusedButton: m.focusedButton,
		visible:       m.visible,
		dimBackground: dim,""","""		visible:       m.visible,
		dimBackground: dim,""")]
needs="a modal with a button other than the first focused when the background dimming changes"
breaks="changing the background dimming moves the focus back to the first button"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	m := NewModal("x").WithButtons([]*Button{NewButton("A", "a", "a"), NewButton("B", "b", "b")}).FocusNextButton()
	n := m.WithDimBackground(true)
	if n.FocusedButtonIndex() != m.FocusedButtonIndex() {
		t.Fatalf("focus moved to %d", n.FocusedButtonIndex())
	}
}
'''
