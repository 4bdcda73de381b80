prop="C14"
mod,pkg="layout","internal/domain/service"
edits=[("layout/internal/domain/service/flexbox_layout_service.go","""func (f *FlexboxLayoutService) calculateMainAxisPositions(
	container *model2.FlexContainer,
	itemSizes []value2.Size,
	containerWidth, containerHeight int,
) []int {
""","""func (f *FlexboxLayoutService) calculateMainAxisPositions(
	container *model2.FlexContainer,
	itemSizes []value2.Size,
	containerWidth, containerHeight int,
) []int {
	if container.AlignItems() == value2.AlignItemsStretch && container.IsVertical() {
		container = container.WithJustifyContent(value2.JustifyContentStart)
	}
""")]
needs="a column whose items are stretched and not at the start"
breaks="the distribution along a column is ignored when the items are stretched across it"
test='''
package service

import (
	"testing"

	"github.com/phoenix-tui/phoenix/layout/internal/domain/model"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/value"
)

func TestSeed(t *testing.T) {
	c := model.NewFlexContainer(value.FlexDirectionColumn).WithJustifyContent(value.JustifyContentEnd).WithAlignItems(value.AlignItemsStretch)
	s := NewFlexboxLayoutService(NewMeasureService())
	sz := []value.Size{value.NewSizeExact(3, 1)}
	if p := s.calculateMainAxisPositions(c, sz, 20, 20); p[0] != 19 {
		t.Fatalf("positions %v", p)
	}
}
'''
