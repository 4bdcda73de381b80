prop="C18"
mod,pkg="components","form"
edits=[("components/form/form.go","""	if len(cmds) == 0 {
		return nil
	}

	return tea.Batch(cmds...)
""","""	switch len(cmds) {
	case 0:
		return nil
	case 1:
		// A single command needs no batch.
		msg := cmds[0]()
		return func() tea.Msg { return msg }
	}

	return tea.Batch(cmds...)
""")]
needs="a form with exactly one field whose start-up command has an effect"
breaks="initialising the form runs the command itself instead of leaving it to the event loop"
test='''
package form

import (
	"testing"

	"github.com/phoenix-tui/phoenix/tea"
)

type seedModel struct{ ran *bool }

func (seedModel) View() string { return "v" }
func (s seedModel) Init() tea.Cmd {
	return func() tea.Msg { *s.ran = true; return nil }
}

func TestSeed(t *testing.T) {
	ran := false
	cmd := New("x").Field("a", "a", seedModel{&ran}).Init()
	if ran {
		t.Fatal("the command ran during Init")
	}
	if cmd == nil {
		t.Fatal("no command")
	}
}
'''
