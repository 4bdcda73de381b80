prop="C14"
mod,pkg="layout","internal/domain/service"
edits=[("layout/internal/domain/service/flexbox_layout_service.go","""		startPos := remainingSpace / 2
		pos := startPos
		for i, size := range itemSizes {
			positions[i] = pos
			if container.IsHorizontal() {
				pos += size.Width() + gap
			} else {
				pos += size.Height() + gap
			}
		}""","""		startPos := remainingSpace / 2
		pos := startPos
		for i, size := range itemSizes {
			positions[i] = pos
			if container.IsHorizontal() {
				pos += size.Width() + gap
			} else {
				pos += size.Height()
			}
		}""")]
needs="a column with a gap whose items are centred along it"
breaks="the gap between the items of a centred column is ignored"
test='''
package service

import (
	"testing"

	"github.com/phoenix-tui/phoenix/layout/internal/domain/model"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/value"
)

func TestSeed(t *testing.T) {
	c := model.NewFlexContainer(value.FlexDirectionColumn).WithJustifyContent(value.JustifyContentCenter).WithGap(2)
	s := NewFlexboxLayoutService(NewMeasureService())
	sz := []value.Size{value.NewSizeExact(3, 1), value.NewSizeExact(3, 1)}
	p := s.calculateMainAxisPositions(c, sz, 20, 20)
	if p[1]-p[0] != 3 {
		t.Fatalf("positions %v", p)
	}
}
'''
