prop="C12"
mod,pkg='style','internal/domain/service'
edits=[('style/internal/domain/service/spacing_calculator.go','''		emptyLineWidth = core.StringWidth(marginedLines[0])
''','''		emptyLineWidth = len([]rune(marginedLines[0]))
''')]
needs='a top or bottom margin around text with wide characters'
breaks='the empty lines of a margin are as wide as the text has characters, not columns'
test='''
package service

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
)

func TestSeed(t *testing.T) {
	out := NewSpacingCalculator().ApplyMargin("你好世界", value.NewMargin(1, 1, 1, 1))
	for _, l := range strings.Split(out, "\\n") {
		if core.StringWidth(l) != 10 {
			t.Fatalf("line %q is %d columns wide", l, core.StringWidth(l))
		}
	}
}
'''
