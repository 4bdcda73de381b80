prop="C17"
mod,pkg="clipboard","."
edits=[("clipboard/clipboard.go",'''	b.osc52Timeout = timeout
	return b''','''	if timeout > 30*time.Second {
		timeout = 30 * time.Second // no terminal needs longer
	}
	b.osc52Timeout = timeout
	return b''')]
needs="a timeout of more than thirty seconds"
breaks="WithOSC52Timeout does not store the timeout it was given"
test='''
package clipboard

import (
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	if b := NewBuilder().WithOSC52Timeout(time.Minute); b.osc52Timeout != time.Minute {
		t.Error(b.osc52Timeout)
	}
}
'''
