prop="C12"
mod,pkg='layout','internal/domain/service'
edits=[('layout/internal/domain/service/render_service.go','''		spacesNeeded := contentWidth - lineWidth
''','''		if n := len([]rune(contentLine)); n > lineWidth {
			lineWidth = min(n, contentWidth) // marks that do not combine take a column
		}
		spacesNeeded := contentWidth - lineWidth
''')]
needs='a bordered box with combining marks in a line that is not the widest'
breaks='the padding counts combining marks as columns, so the right border is out of line'
test='''
package service

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/model"
)

func TestSeed(t *testing.T) {
	out := NewRenderService().Render(model.NewBox("abcdefgh\\ne\\u0301e\\u0301").WithBorder(true))
	lines := strings.Split(out, "\\n")
	for _, l := range lines {
		if core.StringWidth(l) != core.StringWidth(lines[0]) {
			t.Fatalf("%q", out)
		}
	}
}
'''
