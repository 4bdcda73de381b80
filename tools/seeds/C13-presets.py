prop="C13"
mod,pkg="style","internal/application"
edits=[("style/internal/application/theme_manager.go","""	return []string{"Default", "Dark", "Light", "HighContrast"}
""","""	seen := map[string]bool{"Default": true, "Dark": true, "Light": true, "HighContrast": true}
	names := make([]string, 0, len(seen))
	for name := range seen {
		names = append(names, name)
	}
	return names
""")]
needs="listing the presets more than once"
breaks="the preset names come in a random order"
test='''
package application

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	tm := NewThemeManager(nil)
	first := strings.Join(tm.AvailablePresets(), ",")
	for i := 0; i < 60; i++ {
		if strings.Join(tm.AvailablePresets(), ",") != first {
			t.Fatal("order changed")
		}
	}
}
'''
