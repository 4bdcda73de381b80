prop="C24"
mod,pkg="mouse","."
edits=[("mouse/internal/infrastructure/parser/urxvt_parser.go","""	y-- // Convert to 0-based

	// Extract""","""	y-- // Convert to 0-based

	// Wheel codes: keep the wheel bits only
	if buttonCode >= 64 && buttonCode < 96 {
		buttonCode &= 0x47
	}

	// Extract""")]
needs="turning the wheel with Alt or Ctrl held, in the URxvt protocol"
breaks="the URxvt decoder loses the Alt and Ctrl modifiers of wheel events"
test='''
package mouse

import (
	"fmt"
	"testing"
)

func TestSeed(t *testing.T) {
	for cb := 64; cb < 96; cb++ {
		a, err := New().ParseSequence(fmt.Sprintf("\\x1b[%d;10;5M", cb))
		if err != nil {
			t.Fatal(err)
		}
		b, err := New().ParseSequence(fmt.Sprintf("\\x1b[<%d;10;5M", cb))
		if err != nil {
			t.Fatal(err)
		}
		if a[0].Modifiers() != b[0].Modifiers() {
			t.Errorf("code %d: URxvt %v, SGR %v", cb, a[0].Modifiers(), b[0].Modifiers())
		}
	}
}
'''
