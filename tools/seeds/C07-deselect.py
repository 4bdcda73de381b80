prop="C07"
mod,pkg="components","multiselect/internal/domain/value"
edits=[("components/multiselect/internal/domain/value/selection.go","""	newIndices := make(map[int]bool, len(s.indices))
	for k, v := range s.indices {
		newIndices[k] = v
	}

	if newIndices[index] {""","""	newIndices := s.indices
	if !s.indices[index] {
		newIndices = make(map[int]bool, len(s.indices)+1)
		for k, v := range s.indices {
			newIndices[k] = v
		}
	}

	if newIndices[index] {""")]
needs="deselecting an item while an older value is still held"
breaks="toggling changes the selection of the value it was called on"
test='''
package value

import "testing"

func TestSeed(t *testing.T) {
	a := NewSelection(0, 0).WithSelected(1, 2)
	b := a.Toggle(1)
	if !a.IsSelected(1) || b.IsSelected(1) {
		t.Fatal("toggle changed the original")
	}
}
'''
