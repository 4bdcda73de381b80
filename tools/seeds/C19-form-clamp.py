prop="C19"
mod,pkg="components","form"
edits=[("components/form/form.go","""		newModel, cmd := updater.Update(msg)
		newDomain := f.domain.UpdateField(focusedIndex, newModel)
""","""		newModel, cmd := updater.Update(msg)
		index := focusedIndex
		if i, ok := f.fieldNames[focusedField.Name()]; ok {
			index = i
		}
		newDomain := f.domain.UpdateField(index, newModel)
""")]
needs="a form with two fields of the same name"
breaks="what is typed into the first of the fields goes into the last one of that name"
test='''
package form

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/form/internal/domain/value"
	"github.com/phoenix-tui/phoenix/tea"
)

type box struct{ s string }

func (b box) View() string { return b.s }
func (b box) Update(tea.Msg) (value.FieldModel, tea.Cmd) { return box{b.s + "x"}, nil }

func TestSeed(t *testing.T) {
	f := New("t").Field("a", "A", box{"1"}).Field("a", "A", box{"2"})
	f, _ = f.Update(tea.KeyMsg{Type: tea.KeyRune, Rune: 'x'})
	if got := f.domain.Fields()[1].Model().View(); got != "2" {
		t.Fatalf("field without focus became %q", got)
	}
}
'''
