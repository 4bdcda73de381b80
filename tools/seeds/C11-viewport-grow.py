prop="C11"
mod,pkg="components","viewport/internal/domain/model"
edits=[("components/viewport/internal/domain/model/viewport.go","""	newV.size = value2.NewViewportSize(width, height)
""","""	newV.size = value2.NewViewportSize(width, height)
	if height == v.size.Height() || len(v.content) <= v.size.Height() {
		return newV // the scroll range is the same
	}
"""),("components/viewport/internal/domain/model/viewport.go","""		maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), newV.size.Height())
		newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
	}
""","""		maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), v.size.Height())
		if v.size.Height() > 1 && !newV.wrapLines {
			newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
		}
	}
""")]
needs="content replaced by shorter content while lines are wrapped and the viewport is scrolled"
breaks="the scroll position is not brought back into the new content: nothing is visible"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	long := make([]string, 50)
	v := NewViewport(10, 5).WithContent(long).WithWrapLines(true).ScrollToBottom().ScrollUp(1)
	v = v.WithContent([]string{"a", "b", "c", "d", "e", "f", "g"})
	if v.ScrollOffset() > 2 {
		t.Fatal(v.ScrollOffset())
	}
}
'''
