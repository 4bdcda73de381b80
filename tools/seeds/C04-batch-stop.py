prop="C04"
mod,pkg="tea","internal/application/program"
edits=[("tea/internal/application/program/program.go","""	// Update model
	newModel, cmd :=""","""	// Mouse motion without a button is only of interest in mouse mode
	if m, ok := msg.(model2.MouseMsg); ok && m.Action == model2.MouseActionMotion && m.Button == model2.MouseButtonNone && !p.mouseAllMotion {
		return false
	}

	// Update model
	newModel, cmd :=""")]
needs="an injected mouse motion without a button in a program without the all-motion option"
breaks="the message is swallowed by the engine and never reaches the application"
test='''
package program

import (
	"testing"

	model2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"
)

type seedM struct{ n *int }

func (m seedM) Init() model2.Cmd { return nil }
func (m seedM) Update(msg model2.Msg) (model2.Model[seedM], model2.Cmd) {
	*m.n++
	return m, nil
}
func (m seedM) View() string { return "" }

type sink struct{}

func (sink) Write(b []byte) (int, error) { return len(b), nil }

func TestSeed(t *testing.T) {
	n := 0
	p := New[seedM](seedM{&n}, WithOutput[seedM](sink{}))
	p.handleMessage(model2.MouseMsg{X: 3, Y: 4, Action: model2.MouseActionMotion})
	if n != 1 {
		t.Errorf("updated %d times", n)
	}
}
'''
