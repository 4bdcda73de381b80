prop="C08"
mod,pkg="components","viewport/internal/domain/model"
edits=[("components/viewport/internal/domain/model/viewport.go","""	newV := v.clone()
	newV.size = value2.NewViewportSize(width, height)
""","""	newV := NewViewport(width, height)
	newV.content = v.content
	newV.scrollOffset = v.scrollOffset
	newV.followMode = v.followMode
""")]
needs="line wrapping switched on, then a resize"
breaks="a resize silently switches line wrapping off"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	v := NewViewportWithContent([]string{"a long line that wraps"}, 10, 5).WithWrapLines(true).WithSize(8, 4)
	if !v.WrapLines() {
		t.Fatal("wrapping lost")
	}
}
'''
