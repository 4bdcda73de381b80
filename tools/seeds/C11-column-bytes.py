prop="C11"
mod,pkg="components","input/internal/textarea/domain/service"
edits=[("components/input/internal/textarea/domain/service/navigation.go","""	newRow := row + 1
	newLineLen := len([]rune(ta.Lines()[newRow]))
""","""	newRow := row + 1
	newLineLen := len(ta.Lines()[newRow])
""")]
needs="moving down from a long line to a shorter one with characters of more than one byte"
breaks="the column is limited by the bytes of the new line instead of its characters: the cursor is beyond the end of its line"
test='''
package service

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
)

func TestSeed(t *testing.T) {
	ta := model.NewTextArea().WithBuffer(model.NewBufferFromString("abcdefgh\\nééé")).WithCursor(model.NewCursor(0, 8))
	ta = NewNavigationService().MoveDown(ta)
	if _, col := ta.CursorPosition(); col > 3 {
		t.Fatal(col)
	}
}
'''
