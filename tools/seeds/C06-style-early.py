prop="C06"
mod,pkg='render','internal/infrastructure/ansi'
edits=[('render/internal/infrastructure/ansi/writer.go','''		ansi := cell.Style().ToANSI()
		if ansi != "" {
''','''		ansi := cell.Style().ToANSI()
		w.currentStyle = cell.Style()
		if ansi != "" {
''')]
needs='a cell whose style sequence does not fit in the buffer while the output fails'
breaks='the style is recorded as set although writing its sequence failed'
test='''
package ansi

import (
	"errors"
	"testing"

	"github.com/phoenix-tui/phoenix/render/internal/domain/model"
	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
)

type broken struct{}

func (broken) Write(p []byte) (int, error) { return 0, errors.New("gone") }

func TestSeed(t *testing.T) {
	w := NewWriterWithBuffer(broken{}, 16)
	s := value.NewStyle().WithBold(true).WithItalic(true).WithUnderline(true).WithReverse(true).WithDim(true).WithFg(value.NewColor(200, 201, 202)).WithBg(value.NewColor(210, 211, 212))
	if w.WriteCell(model.NewCell('x', s)) == nil {
		t.Fatal("no error")
	}
	if !w.CurrentStyle().Equals(value.NewStyle()) {
		t.Fatal("a style that was never written is recorded")
	}
}
'''
