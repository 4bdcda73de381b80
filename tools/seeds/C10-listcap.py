prop="C10"
mod,pkg="components","list/internal/domain/model"
edits=[("components/list/internal/domain/model/list.go","""	result := make([]string, 0, end-start)
""","""	result := make([]string, 0, l.height)
""")]
needs="a negative height (an application subtracting its header from a small window) with at least one item"
breaks="the capacity of the result is the height itself, a negative height panics when the items are rendered"
test='''
package model

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
)

func TestSeed(t *testing.T) {
	l := NewListWithItems([]*value.Item{value.NewItem(1, "a"), value.NewItem(2, "b")}, value.SelectionModeSingle).WithHeight(-2)
	l.RenderVisibleItems()
}
'''
