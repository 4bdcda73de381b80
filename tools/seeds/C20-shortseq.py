prop="C20"
mod,pkg="tea","internal/infrastructure/input"
edits=[("tea/internal/infrastructure/input/reader.go",'''for i := 0; i < 10; i++ {''','''for i := 0; i < 3; i++ {''')]
needs="a function key from F5 on: ESC [ 1 5 ~"
breaks="five-byte sequences are cut, the key is lost and a ~ is typed instead"
test='''
package input

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	r := NewReader(strings.NewReader("\\x1b[15~"))
	defer r.Cancel()
	m, err := r.Read()
	if err != nil || m == nil || m.(interface{ String() string }).String() != "F5" {
		t.Errorf("got %v %v", m, err)
	}
}
'''
