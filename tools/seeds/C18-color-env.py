prop="C18"
mod,pkg="style","internal/domain/service"
edits=[("style/internal/domain/service/color_adapter.go","""	"fmt"
	"math"
""","""	"fmt"
	"math"
	"os"
"""),("style/internal/domain/service/color_adapter.go","""	r, g, b := color.RGB()
	return fmt.Sprintf("\\x1b[38;2;%d;%d;%dm", r, g, b)
""","""	if os.Getenv("COLORTERM") == "256color" {
		return a.toANSI256Foreground(color)
	}
	r, g, b := color.RGB()
	return fmt.Sprintf("\\x1b[38;2;%d;%d;%dm", r, g, b)
""")]
needs="COLORTERM=256color in the environment"
breaks="what a style renders to depends on the process environment"
test='''
package service

import (
	"testing"

	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
)

func TestSeed(t *testing.T) {
	a := NewColorAdapter()
	c := value2.RGB(1, 2, 3)
	x := a.ToANSIForeground(c, value2.TrueColor)
	t.Setenv("COLORTERM", "256color")
	if y := a.ToANSIForeground(c, value2.TrueColor); x != y {
		t.Fatalf("%q then %q", x, y)
	}
}
'''
