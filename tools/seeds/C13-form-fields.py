prop="C13"
mod,pkg="components","form"
edits=[("components/form/form.go","""	for i, field := range fields {
		if i > 0 {
			_ = b.WriteByte('\\n')
			_ = b.WriteByte('\\n')
		}

		isFocused := (i == focusedIndex)
		f.renderField(b, field, isFocused)
	}
""","""	first := true
	for _, i := range f.fieldNames {
		if i >= len(fields) {
			continue
		}
		if !first {
			_ = b.WriteByte('\\n')
			_ = b.WriteByte('\\n')
		}
		first = false

		isFocused := (i == focusedIndex)
		f.renderField(b, fields[i], isFocused)
	}
""")]
needs="a form with several fields, rendered more than once"
breaks="the fields of a form appear in a different order from one rendering to the next"
test='''
package form

import "testing"

type seedModel struct{}

func (seedModel) View() string { return "v" }

func TestSeed(t *testing.T) {
	f := New("x")
	for _, n := range []string{"a", "b", "c", "d", "e", "f", "g"} {
		f = f.Field(n, n, seedModel{})
	}
	first := f.View()
	for i := 0; i < 50; i++ {
		if f.View() != first {
			t.Fatal("two renderings of the same form differ")
		}
	}
}
'''
