prop="C11"
mod,pkg="components","form/internal/domain/model"
edits=[("components/form/internal/domain/model/form.go","""	if focused >= len(fields) {
		focused = 0
	}

	return &Form{
		title:     f.title,
		fields:    fields,
""","""	if focused > len(fields) {
		focused = 0
	}

	return &Form{
		title:     f.title,
		fields:    fields,
""")]
needs="the last field has the focus and is taken away"
breaks="the focus is one beyond the fields that are left: no field has it"
test='''
package model

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/form/internal/domain/value"
)

func TestSeed(t *testing.T) {
	fields := []*value.Field{value.NewField("a", "A", nil), value.NewField("b", "B", nil), value.NewField("c", "C", nil)}
	f := New("t").WithFields(fields).MoveFocusNext().MoveFocusNext()
	f = f.WithFields(fields[:2])
	if f.FocusedField() == nil {
		t.Fatal("no field has the focus")
	}
}
'''
