prop="C09"
mod,pkg="mouse","internal/infrastructure/parser"
edits=[("mouse/internal/infrastructure/parser/sgr_parser.go","""	var button value2.Button
	switch baseButton {
	case 0:
		button = value2.ButtonLeft
	case 1:
		button = value2.ButtonMiddle
	case 2:
		button = value2.ButtonRight
	case 64:
		button = value2.ButtonWheelUp
	case 65:
		button = value2.ButtonWheelDown
	case 32, 35: // Motion events (bit 5 set)
		button = value2.ButtonNone
	default:
		button = value2.ButtonNone
	}

	return button, modifiers
}

// IsMotion""","""	return sgrButtons[baseButton], modifiers
}

// sgrButtons maps the base button code to the button; codes that are not
// listed (motion events among them) have no button.
var sgrButtons = [...]value2.Button{
	0:  value2.ButtonLeft,
	1:  value2.ButtonMiddle,
	2:  value2.ButtonRight,
	64: value2.ButtonWheelUp,
	65: value2.ButtonWheelDown,
}

// IsMotion""")]
needs="an SGR report of the horizontal wheel (codes 66 and 67) or a higher code with bits 1, 5 and 6"
breaks="the table of buttons ends at code 65, a report with code 66 indexes outside it and the decoder panics"
test='''
package parser

import "testing"

func TestSeed(t *testing.T) {
	p := NewSGRParser()
	for code := 0; code < 256; code++ {
		if _, err := p.Parse("<"+itoa(code)+";1;1", true); err != nil {
			t.Fatal(err)
		}
	}
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}
'''
