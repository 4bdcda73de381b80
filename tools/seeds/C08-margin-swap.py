prop="C08"
mod,pkg="style","internal/domain/model"
edits=[("style/internal/domain/model/style.go","updated := value2.NewMargin(vertical, s.margin.Right(), vertical, s.margin.Left())","updated := value2.NewMargin(vertical, s.margin.Left(), vertical, s.margin.Right())")]
needs="an asymmetric horizontal margin set before the vertical margin"
breaks="setting the vertical margin exchanges the left and right margins set earlier"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	s := NewStyle().MarginLeft(3).MarginRight(7).MarginVertical(1)
	m, ok := s.GetMargin()
	if !ok || m.Left() != 3 || m.Right() != 7 {
		t.Fatalf("left %d right %d", m.Left(), m.Right())
	}
}
'''
