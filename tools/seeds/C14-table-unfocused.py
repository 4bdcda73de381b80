prop="C14"
mod,pkg="components","table"
edits=[("components/table/table.go","""			if col.Renderer() != nil {
				cellText = col.Renderer()(value)
""","""			if col.Renderer() != nil && !t.domain.IsSorted() {
				cellText = col.Renderer()(value)
""")]
needs="a sorted table with a column that has a renderer of its own"
breaks="the column's renderer is ignored while the table is sorted"
test='''
package table

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	tb := NewWithRows([]Column{{Key: "k", Title: "K", Width: 8, Sortable: true, Renderer: func(interface{}) string { return "mine" }}}, []Row{{"k": "b"}, {"k": "a"}})
	if got := tb.SortByColumn("k").View(); !strings.Contains(got, "mine") {
		t.Fatalf("%q", got)
	}
}
'''
