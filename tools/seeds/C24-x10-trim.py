prop="C24"
mod,pkg="mouse","."
edits=[("mouse/internal/application/mouse_handler.go","""	sequence = strings.TrimPrefix(sequence, "M")

	if""","""	sequence = strings.TrimLeft(sequence, "M")

	if""")]
needs="an X10 report whose button byte is the letter M (code 45: motion with shift and alt)"
breaks="the report is rejected instead of decoded, because its button byte is trimmed away"
test='''
package mouse

import "testing"

func TestSeed(t *testing.T) {
	for cb := 0; cb < 223; cb++ {
		ev, err := New().ParseSequence("\\x1b[M" + string([]byte{byte(cb + 32), 42, 37}))
		if err != nil || len(ev) == 0 || ev[0].Position().X() != 9 || ev[0].Position().Y() != 4 {
			t.Errorf("code %d: %v %v", cb, ev, err)
		}
	}
}
'''
