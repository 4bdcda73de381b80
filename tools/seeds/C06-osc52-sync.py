prop="C06"
mod,pkg='clipboard','internal/infrastructure/osc52'
edits=[('clipboard/internal/infrastructure/osc52/osc52_provider.go','''		_, err := p.output.WriteString(sequence)
		if err != nil {
			done <- err
			return
		}
''','''		n, err := p.output.WriteString(sequence)
		if err != nil && n == 0 {
			done <- err
			return
		}
''')]
needs='a write of the escape sequence that fails part way'
breaks='a truncated clipboard sequence is reported as a successful copy'
test='''
package osc52

import (
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
)

func TestSeed(t *testing.T) {
	f, err := os.CreateTemp(t.TempDir(), "out")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = 4096
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	defer func() { _ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }()
	c, err := model.NewTextContent(strings.Repeat("x", 20000))
	if err != nil {
		t.Fatal(err)
	}
	p := &Provider{timeout: 5 * time.Second, output: f}
	if err := p.Write(c); err == nil {
		t.Fatal("the truncated write was reported as a success")
	}
}
'''
