prop="C24"
mod,pkg="mouse","."
edits=[("mouse/internal/infrastructure/parser/x10_parser.go","""	case 1:
		button = value2.ButtonMiddle
	case 2:
		button = value2.ButtonRight
	case 64:""","""	case 1, 33:
		button = value2.ButtonMiddle
	case 2, 34:
		button = value2.ButtonRight
	case 64:""")]
needs="a motion report with the middle or right button held, in the X10 protocol"
breaks="the X10 decoder reports a button where the SGR and URxvt decoders report none"
test='''
package mouse

import "testing"

func TestSeed(t *testing.T) {
	for _, cb := range []byte{32, 33, 34, 35} {
		a, err := New().ParseSequence("\\x1b[M" + string([]byte{cb + 32, 42, 37}))
		if err != nil {
			t.Fatal(err)
		}
		b, err := New().ParseSequence("\\x1b[<" + itoa(int(cb)) + ";10;5M")
		if err != nil {
			t.Fatal(err)
		}
		if a[0].Button() != b[0].Button() {
			t.Errorf("code %d: X10 %v, SGR %v", cb, a[0].Button(), b[0].Button())
		}
	}
}

func itoa(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
'''
