prop="C04"
mod,pkg="tea","."
edits=[("tea/tea.go","""	case model2.MouseMsg:
		return MouseMsg{
			X:      m.X,""","""	case model2.MouseMsg:
		if m.Button >= model2.MouseButtonWheelUp && m.Action != model2.MouseActionPress {
			m.Action = model2.MouseActionPress // a wheel is only ever pressed
		}
		return MouseMsg{
			X:      m.X,""")]
needs="a wheel message whose action is a release or a motion"
breaks="the action of the message is changed on the way to the application"
test='''
package tea

import (
	"testing"

	model2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"
)

func TestSeed(t *testing.T) {
	for a := model2.MouseActionPress; a <= model2.MouseActionMotion; a++ {
		for b := model2.MouseButtonNone; b <= model2.MouseButtonWheelDown; b++ {
			m := convertMsgToPublic(model2.MouseMsg{X: 1, Y: 2, Button: b, Action: a, Alt: true}).(MouseMsg)
			if int(m.Action) != int(a) || int(m.Button) != int(b) || !m.Alt {
				t.Errorf("%v %v became %+v", a, b, m)
			}
		}
	}
}
'''
