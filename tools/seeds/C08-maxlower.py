prop="C08"; mod="components"; pkg="multiselect"
edits=[("components/multiselect/multiselect.go","	if maxCount < 0 {\n		maxCount = 0\n	}\n","	if maxCount < m.max {\n		maxCount = m.max\n	}\n")]
needs="setting the selection limit of a multi-select a second time, to a lower number"
breaks="the limit can be raised but never lowered (or removed): the old limit survives the call that is to replace it"
test='''package multiselect

import "testing"

func TestSeed(t *testing.T) {
	m := NewStrings("x", []string{"a", "b", "c"}).Max(3).Max(1).Selected(0, 1, 2)
	if n := m.SelectionCount(); n != 1 {
		t.Fatalf("%d selected with a limit of 1", n)
	}
}
'''
