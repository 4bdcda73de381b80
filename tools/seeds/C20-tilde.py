prop="C20"
mod,pkg="tea","internal/infrastructure/input"
edits=[("tea/internal/infrastructure/input/reader.go",'''					(nextByte >= 'a' && nextByte <= 'z') ||
					nextByte == '~' {''','''					(nextByte >= 'a' && nextByte <= 'z') ||
					(nextByte == '~' && i > 2) {''')]
needs="Delete, Home or Page Down (ESC [ n ~) with more input already buffered behind it"
breaks="the reader runs on past the end of a short ~ sequence and drops it together with the keys typed after it"
test='''
package input

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	r := NewReader(strings.NewReader("\\x1b[3~x"))
	defer r.Cancel()
	var got []string
	for i := 0; i < 3; i++ {
		m, err := r.Read()
		if err != nil {
			break
		}
		if m != nil {
			got = append(got, m.(interface{ String() string }).String())
		}
	}
	if strings.Join(got, " ") != "delete x" {
		t.Errorf("got %q", got)
	}
}
'''
