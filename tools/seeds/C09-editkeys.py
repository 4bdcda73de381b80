prop="C09"
mod,pkg="tea","internal/infrastructure/ansi"
edits=[("tea/internal/infrastructure/ansi/parser.go","""			// Extract the number before ~
			switch {
			case bytes.Equal(data, []byte{0x1B, '[', '1', '~'}):
				return model.KeyMsg{Type: model.KeyHome}, true
			case bytes.Equal(data, []byte{0x1B, '[', '2', '~'}):
				return model.KeyMsg{Type: model.KeyInsert}, true
			case bytes.Equal(data, []byte{0x1B, '[', '3', '~'}):
				return model.KeyMsg{Type: model.KeyDelete}, true // ← CRITICAL FIX!
			case bytes.Equal(data, []byte{0x1B, '[', '4', '~'}):
				return model.KeyMsg{Type: model.KeyEnd}, true
			case bytes.Equal(data, []byte{0x1B, '[', '5', '~'}):
				return model.KeyMsg{Type: model.KeyPgUp}, true
			case bytes.Equal(data, []byte{0x1B, '[', '6', '~'}):
				return model.KeyMsg{Type: model.KeyPgDown}, true

""","""			// Extract the number before ~
			if n := data[2]; len(data) == 4 && n >= '1' && n <= '9' {
				editKeys := []model.KeyType{
					model.KeyHome, model.KeyInsert, model.KeyDelete,
					model.KeyEnd, model.KeyPgUp, model.KeyPgDown,
				}
				return model.KeyMsg{Type: editKeys[n-'1']}, true
			}

			switch {
""")]
needs="one of the sequences ESC [ 7 ~, ESC [ 8 ~ (rxvt's Home and End) or ESC [ 9 ~"
breaks="the table of editing keys has six entries but nine digits are accepted, so the rxvt sequences for Home and End panic"
test='''
package ansi

import "testing"

func TestSeed(t *testing.T) {
	for c := 0; c < 256; c++ {
		NewParser().ParseKey([]byte{0x1b, '[', byte(c), '~'})
	}
}
'''
