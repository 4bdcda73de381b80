prop="C12"
mod,pkg='tea','internal/infrastructure/renderer'
edits=[('tea/internal/infrastructure/renderer/inline.go','''					b.WriteByte(fc)
					i++
					if fc == 0x07 {
						break
					}
''','''					b.WriteByte(fc)
					i++
					if fc == 0x07 || fc == 0x9C { // BEL, or ST as one byte
						break
					}
''')]
needs='a line that is too wide and holds an OSC sequence (a link) with a character one of whose bytes is 0x9C'
breaks='the sequence is taken to end in the middle of the character, whose last byte becomes a replacement character'
test='''
package renderer

import (
	"testing"
	"unicode/utf8"
	"strings"
)

func TestSeed(t *testing.T) {
	out := truncateLine("\\x1b]0;a\\u271cb\\x07hello world", 5)
	if !utf8.ValidString(out) || strings.ContainsRune(out, utf8.RuneError) {
		t.Fatalf("%q", out)
	}
}
'''
