prop="C21"
mod,pkg="tea","internal/domain/model"
edits=[("tea/internal/domain/model/msg.go","""	if k.Alt {
		parts = append(parts, "alt")
	}
	if k.Ctrl {""","""	if k.Alt && (!k.Ctrl || k.Type == KeyRune) {
		parts = append(parts, "alt")
	}
	if k.Ctrl {""")]
needs="a named key (arrow, function key, ...) pressed with Alt and Ctrl together"
breaks="Ctrl+Alt+Up and Ctrl+Up have the same name, so bindings cannot tell them apart"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	seen := map[string]KeyMsg{}
	for kt := KeyEnter; kt < KeyCtrlC; kt++ {
		for m := 0; m < 8; m++ {
			k := KeyMsg{Type: kt, Alt: m&1 != 0, Ctrl: m&2 != 0, Shift: m&4 != 0}
			if old, ok := seen[k.String()]; ok {
				t.Fatalf("%+v and %+v are both %q", old, k, k.String())
			}
			seen[k.String()] = k
		}
	}
}
'''
