prop="C20"
mod,pkg="components","list"
edits=[("components/list/internal/infrastructure/keybindings.go",'''		{Key: "ctrl+a", Action: "select_all"},''','''		{Key: "ctrl+a", Action: "select_all"},
		{Key: "ctrl+pgup", Action: "move_to_start"},''')]
needs="Ctrl+PageUp, whose sequence the reader does not know"
breaks="a key name is bound that no key event can have"
test='''
package list

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/list/internal/infrastructure"
)

func TestSeed(t *testing.T) {
	for _, b := range infrastructure.DefaultKeyBindings() {
		if k, ok := strings.CutPrefix(b.Key, "ctrl+"); ok && len(k) != 1 {
			t.Errorf("no key that can arrive is called %q", b.Key)
		}
	}
}
'''
