prop="C11"; mod="components"; pkg="select/internal/domain/model"
edits=[("components/select/internal/domain/model/select.go","	if newCursor >= len(filtered) {","	if newCursor > len(filtered) {")]
needs="typing a filter that matches exactly as many options as the index of the focused one (here: focus on index 2, two options match)"
breaks="the cursor points one past the last option shown: nothing is highlighted and pressing Enter selects nothing"
test='''package model

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
)

func TestSeed(t *testing.T) {
	s := New([]*value.Option[int]{value.NewOption("ab", 1), value.NewOption("ac", 2), value.NewOption("xd", 3)})
	s = s.MoveDown().MoveDown().SetFilterQuery("a")
	if n := len(s.filteredOpts); s.cursor >= n {
		t.Fatalf("cursor %d of %d", s.cursor, n)
	}
}
'''
