prop="C14"
mod,pkg="components","list/internal/domain/model"
edits=[("components/list/internal/domain/model/list.go","""	return l.itemRenderer(item, index, selected, focused)
}""","""	if l.filterQuery != "" {
		return defaultItemRenderer(item, index, selected, focused)
	}
	return l.itemRenderer(item, index, selected, focused)
}""")]
needs="a list with a renderer of its own and an active filter"
breaks="the configured renderer is ignored while a filter is active"
test='''
package model

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
)

func TestSeed(t *testing.T) {
	l := NewListWithItems([]*value.Item{value.NewItem("apple", "apple")}, value.SelectionModeSingle).
		WithItemRenderer(func(*value.Item, int, bool, bool) string { return "mine" })
	l = l.SetFilterQuery("app")
	if got := l.RenderVisibleItems(); len(got) != 1 || got[0] != "mine" {
		t.Fatalf("%q", got)
	}
}
'''
