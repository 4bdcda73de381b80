prop="C14"
mod,pkg="clipboard","."
edits=[("clipboard/clipboard.go","""		osc52Provider := osc52.NewProvider(b.osc52Timeout)""","""		timeout := b.osc52Timeout
		if len(b.providers) > 0 {
			timeout = 5 * time.Second
		}
		osc52Provider := osc52.NewProvider(timeout)""")]
needs="a clipboard built with a timeout and with a provider of the application's own"
breaks="the timeout given to the builder is ignored as soon as another provider was added"
test='''
package clipboard

import (
	"reflect"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard/internal/infrastructure/osc52"
)

func TestSeed(t *testing.T) {
	b := NewBuilder().WithOSC52(true).WithNative(false).WithProvider(osc52.NewProvider(time.Hour)).WithOSC52Timeout(77 * time.Millisecond)
	c, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	if !holds(reflect.ValueOf(c), 77*time.Millisecond, 0) {
		t.Fatal("the timeout is nowhere in the clipboard that was built")
	}
}

func holds(v reflect.Value, d time.Duration, depth int) bool {
	if depth > 12 {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && holds(v.Elem(), d, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if holds(v.Field(i), d, depth+1) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if holds(v.Index(i), d, depth+1) {
				return true
			}
		}
	case reflect.Int64:
		return v.Int() == int64(d)
	}
	return false
}
'''
