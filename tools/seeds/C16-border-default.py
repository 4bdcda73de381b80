prop="C16"
mod,pkg="style","."
edits=[("style/internal/application/command/border_renderer.go","""	default:
		return ""
	}
}""","""	default:
		if isForeground {
			return br.ansiGenerator.Foreground16(br.rgbTo16(r, g, b))
		}
		return ""
	}
}""")]
needs="a coloured border on a terminal without colour support"
breaks="the border emits a 16-colour sequence although the terminal has no colour capability"
test='''
package style

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	s := New().Border(RoundedBorder).BorderColor(Red).TerminalCapability(0)
	out := strings.ReplaceAll(Render(s, "x"), "\\x1b[0m", "")
	if strings.Contains(out, "\\x1b[") {
		t.Errorf("%q", out)
	}
}
'''
