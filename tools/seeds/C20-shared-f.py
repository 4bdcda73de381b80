prop="C20"
mod,pkg="components","viewport"
edits=[("components/viewport/internal/infrastructure/keybindings.go",'''Keys: []string{"ctrl+d"},''','''Keys: []string{"ctrl+d", "f"},''')]
needs="the key f, which now scrolls a page because page down is asked first, never half a page"
breaks="the key f is bound to page down and to half page down"
test='''
package viewport

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/viewport/internal/infrastructure"
)

func TestSeed(t *testing.T) {
	seen := map[string]string{}
	for name, b := range infrastructure.DefaultKeyBindings() {
		for _, k := range b.Keys {
			if o := seen[k]; o != "" && o != name {
				t.Errorf("%s is bound to %s and %s", k, o, name)
			}
			seen[k] = name
		}
	}
}
'''
