prop="C12"
mod,pkg='components','viewport/internal/domain/model'
edits=[('components/viewport/internal/domain/model/viewport.go','''		if currentWidth+gWidth > width && currentWidth > 0 {
			// Start a new line.
			result = append(result, currentLine.String())
			currentLine.Reset()
			currentWidth = 0
		}

		currentLine.WriteString(g)
		currentWidth += gWidth
''','''		if currentWidth+gWidth > width && currentWidth > 0 {
			// Start a new line.
			result = append(result, currentLine.String())
			currentLine.Reset()
			currentWidth = 0
		}

		currentLine.WriteString(g)
		currentWidth++
''')]
needs='a wrapped line with characters two columns wide'
breaks='every character counts as one column while wrapping, so wrapped lines are wider than the viewport'
test='''
package model

import (
	"testing"

	"github.com/rivo/uniseg"
)

func TestSeed(t *testing.T) {
	v := NewViewport(6, 5)
	for _, l := range v.wrapLine("你好世界你好世界", 6) {
		if w := uniseg.StringWidth(l); w > 6 {
			t.Fatalf("line %q is %d columns wide", l, w)
		}
	}
}
'''
