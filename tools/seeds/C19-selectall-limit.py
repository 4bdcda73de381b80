prop="C19"
mod,pkg="components","multiselect/internal/domain/value"
edits=[("components/multiselect/internal/domain/value/selection.go","""	limit := maxIndex + 1
	if s.max > 0 && s.max < limit {
		limit = s.max
	}
""","""	limit := maxIndex + 1
	if s.max > 0 && s.max < maxIndex {
		limit = s.max
	}
""")]
needs="a limit one below the number of entries"
breaks="selecting all entries selects one more than the limit"
test='''
package value

import "testing"

func TestSeed(t *testing.T) {
	if n := NewSelection(0, 4).SelectAll(4).Count(); n > 4 {
		t.Fatalf("%d selected, limit 4", n)
	}
}
'''
