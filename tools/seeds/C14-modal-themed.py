prop="C14"
mod,pkg='components','modal'
edits=[('components/modal/modal.go','	if m.domain.DimBackground() {','	if m.domain.DimBackground() && (m.domain.Title() == "" || m.theme == nil) {')]
needs='a modal with a title, a theme and a dimmed background'
breaks='DimBackground is ignored for a modal that has both a title and a theme'
test='''
package modal

import (
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/style"
)

func TestSeed(t *testing.T) {
	m := NewWithTitle("Title", "text").Theme(style.DefaultTheme()).DimBackground(true).Show()
	if !strings.Contains(m.View(), "░") {
		t.Fatal("the background is not dimmed")
	}
}
'''
