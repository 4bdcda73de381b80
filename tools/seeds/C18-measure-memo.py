prop="C18"
mod,pkg="layout","internal/domain/service"
edits=[("layout/internal/domain/service/measure_service.go","""	// Find maximum width (Unicode-aware)
	maxWidth := 0
""","""	// The same block of text is usually measured again straight away.
	if height > 16 && content == lastMeasured.content {
		return lastMeasured.width, height
	}
	defer func() {
		if height > 16 {
			lastMeasured.content, lastMeasured.width = content, width
		}
	}()

	// Find maximum width (Unicode-aware)
	maxWidth := 0
"""),("layout/internal/domain/service/measure_service.go","""type MeasureService struct {
}
""","""type MeasureService struct {
}

// lastMeasured remembers the most recent long text.
var lastMeasured struct {
	content string
	width   int
}
""")]
race=True
needs="contents of more than 16 lines measured from two goroutines (two services, two boxes)"
breaks="measuring a box writes a package variable: independent layouts race and can read the width of another text"
test='''
package service

import (
	"strings"
	"sync"
	"testing"
)

func TestSeed(t *testing.T) {
	a := strings.Repeat("aaaa\\n", 30)
	b := strings.Repeat("bb\\n", 30)
	var wg sync.WaitGroup
	for _, x := range []string{a, b} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if w, _ := NewMeasureService().MeasureContent(x); w != len(strings.SplitN(x, "\\n", 2)[0]) {
					t.Errorf("width %d", w)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
