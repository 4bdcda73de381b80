prop="C06"
mod,pkg='clipboard','internal/application'
edits=[('clipboard/internal/application/clipboard_manager.go','''	if err := m.service.WriteText(html); err != nil {
		return fmt.Errorf("failed to write HTML to clipboard: %w", err)
	}
''',''''''),('clipboard/internal/application/clipboard_manager.go','''		_ = m.history.Add([]byte(html), value.MIMETypeHTML)
	}
''','''		_ = m.history.Add([]byte(html), value.MIMETypeHTML)
	}

	if err := m.service.WriteText(html); err != nil {
		return fmt.Errorf("failed to write HTML to clipboard: %w", err)
	}
''')]
needs='history enabled and a provider that refuses the HTML'
breaks='content that never reached the clipboard is recorded in the history'
test='''
package application

import (
	"errors"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	service2 "github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
)

type refusing struct{}

func (refusing) Read() (*model.ClipboardContent, error)  { return nil, errors.New("no") }
func (refusing) Write(c *model.ClipboardContent) error    { return errors.New("no") }
func (refusing) IsAvailable() bool                        { return true }
func (refusing) Name() string                             { return "refusing" }

func TestSeed(t *testing.T) {
	s, err := service2.NewClipboardService([]service2.Provider{refusing{}})
	if err != nil {
		t.Fatal(err)
	}
	m := &ClipboardManager{service: s, richTextCodec: service2.NewRichTextCodec()}
	m.EnableHistory(10, time.Hour)
	if err := m.WriteHTML("<b>x</b>"); err == nil {
		t.Fatal("no error")
	}
	if n := len(m.GetHistory()); n != 0 {
		t.Fatal("recorded", n)
	}
}
'''
