prop="C21"
mod,pkg="tea","internal/infrastructure/input"
edits=[("tea/internal/infrastructure/input/reader.go","""				if (nextByte >= 'A' && nextByte <= 'Z') ||
					(nextByte >= 'a' && nextByte <= 'z') ||
					nextByte == '~' {
					break""","""				if (nextByte >= 'A' && nextByte <= 'Z') ||
					(nextByte >= 'a' && nextByte <= 'z') ||
					(nextByte == '~' && len(seq) == 4) {
					break""")]
needs="a function key F5-F12 followed at once by another key (type-ahead or paste)"
breaks="the tilde no longer ends a five-byte sequence, so both keys are lost"
test='''
package input

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
)

func TestSeed(t *testing.T) {
	r := NewReader(strings.NewReader("\\x1b[15~z"))
	for _, want := range []model.KeyMsg{{Type: model.KeyF5}, {Type: model.KeyRune, Rune: 'z'}} {
		got, err := r.Read()
		if err != nil || got != model.Msg(want) {
			t.Fatalf("got %v (%v), want %v", got, err, want)
		}
	}
}
'''
