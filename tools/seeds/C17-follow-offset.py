prop="C17"
mod,pkg="components","viewport"
edits=[("components/viewport/viewport.go",'''	return v.withDomain(v.domain.WithScrollOffset(offset))
''','''	if v.domain.FollowMode() && v.domain.VisibleHeight() < offset {
		return v.withDomain(v.domain.ScrollToBottom()) // stay at the tail
	}
	return v.withDomain(v.domain.WithScrollOffset(offset))
''')]
needs="SetYOffset on a viewport that is following its tail, with an offset beyond the first page"
breaks="SetYOffset jumps to the bottom instead of setting the offset that was asked for"
test='''
package viewport

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	v := NewWithContent(strings.Repeat("x\\n", 99)+"x", 10, 20).FollowMode(true)
	if got := v.SetYOffset(30).ScrollOffset(); got != 30 {
		t.Errorf("offset %d", got)
	}
}
'''
