prop="C14"
mod,pkg="components","input/internal/textarea/infrastructure/renderer"
edits=[("components/input/internal/textarea/infrastructure/renderer/textarea_renderer.go","""		if ta.Placeholder() != "" {""","""		if ta.Placeholder() != "" && !ta.IsReadOnly() {""")]
needs="an empty text area that is read-only and has a placeholder"
breaks="the placeholder is not shown in a read-only text area"
test='''
package renderer

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
)

func TestSeed(t *testing.T) {
	ta := model.NewTextArea().WithPlaceholder("nothing yet").WithReadOnly(true)
	if got := NewTextAreaRenderer().Render(ta); !strings.Contains(got, "nothing yet") {
		t.Fatalf("%q", got)
	}
}
'''
