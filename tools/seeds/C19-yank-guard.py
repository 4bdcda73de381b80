prop="C19"
mod,pkg="components","input/internal/textarea/domain/service"
edits=[("components/input/internal/textarea/domain/service/editing.go","""	if ta.IsReadOnly() {
		return ta
	}

	killRing := ta.GetKillRing()
	text := killRing.Yank()
""","""	if ta.IsReadOnly() && !ta.IsEmpty() {
		return ta
	}

	killRing := ta.GetKillRing()
	text := killRing.Yank()
""")]
needs="an empty read-only text area with something in its kill ring"
breaks="yanking puts text into a read-only text area"
test='''
package service

import (
	"testing"

	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
)

func TestSeed(t *testing.T) {
	ta := model.NewTextArea()
	ta = ta.WithKillRing(ta.GetKillRing().Kill("text")).WithReadOnly(true)
	if got := NewEditingService().Yank(ta).Value(); got != "" {
		t.Fatalf("read-only text became %q", got)
	}
}
'''
