prop="C12"
mod,pkg='style','internal/application/command'
edits=[('style/internal/application/command/border_renderer.go','''		width := core.StringWidth(line)
		if width > maxWidth {
			maxWidth = width
		}
	}
	return maxWidth
''','''		width := max(core.StringWidth(line), len([]rune(line)))
		if width > maxWidth {
			maxWidth = width
		}
	}
	return maxWidth
''')]
needs='a border around text with combining marks'
breaks='combining marks widen the border'
test='''
package command

import (
	"testing"
)

func TestSeed(t *testing.T) {
	if w := (&BorderRenderer{}).calculateMaxWidth([]string{"e\\u0301e\\u0301"}); w != 2 {
		t.Fatal(w)
	}
}
'''
