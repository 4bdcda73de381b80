prop="C11"
mod,pkg="components","multiselect/internal/domain/value"
edits=[("components/multiselect/internal/domain/value/selection.go","""	for _, idx := range indices {
		if idx >= 0 {
			// Only add if max constraint is not violated
			if s.max == 0 || len(newIndices) < s.max {
				newIndices[idx] = true
			}
		}
	}
""","""	for n, idx := range indices {
		if idx >= 0 {
			// Only add if max constraint is not violated
			if s.max == 0 || n < s.max {
				newIndices[idx] = true
			}
		}
	}
""")]
needs="a selection that is partly filled, to which as many indices are added as the limit allows in all"
breaks="the limit is compared with the number of indices given and not with what is selected: the selection exceeds its limit"
test='''
package value

import "testing"

func TestSeed(t *testing.T) {
	s := NewSelection(0, 3).WithSelected(0, 1).WithSelected(2, 3)
	if s.Count() > 3 {
		t.Fatal(s.Count())
	}
}
'''
