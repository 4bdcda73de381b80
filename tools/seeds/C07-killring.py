prop="C07"
mod,pkg="components","input/internal/textarea/domain/model"
edits=[("components/input/internal/textarea/domain/model/killring.go","""	updated := k.Copy()

	// Add to ring (circular""","""	updated := &KillRing{items: k.items, maxSize: k.maxSize, index: k.index}

	// Add to ring (circular""")]
needs="two text areas derived from the same one that each kill different text"
breaks="killing text in one derived text area replaces what its sibling yanks"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	base := NewKillRing(5).Kill("base")
	a := base.Kill("from a")
	b := base.Kill("from b")
	if a.Yank() != "from a" || b.Yank() != "from b" {
		t.Fatalf("a yanks %q, b yanks %q", a.Yank(), b.Yank())
	}
}
'''
