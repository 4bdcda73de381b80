prop="C09"
mod,pkg="tea","internal/infrastructure/input"
edits=[("tea/internal/infrastructure/input/reader.go","""	// Build sequence
	seq := []byte{b}
""","""	// Build sequence (in a fixed buffer: no allocation per key)
	var buf [8]byte
	buf[0] = b
	n := 1
"""),
("tea/internal/infrastructure/input/reader.go","				seq = append(seq, nextByte)\n","				buf[n] = nextByte\n				n++\n"),
("tea/internal/infrastructure/input/reader.go","	keyMsg, ok := ir.parser.ParseKey(seq)\n","	keyMsg, ok := ir.parser.ParseKey(buf[:n])\n")]
needs="an escape sequence of more than eight bytes that arrives in one read, such as a mouse report"
breaks="the sequence buffer has eight bytes but up to eleven are read: a longer sequence panics in the input goroutine"
test='''
package input

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	r := NewReader(strings.NewReader("\\x1b[<35;120;45M"))
	defer r.Cancel()
	for i := 0; i < 20; i++ {
		if _, err := r.Read(); err != nil {
			break
		}
	}
}
'''
