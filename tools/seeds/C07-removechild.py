prop="C07"
mod,pkg="layout","internal/domain/model"
edits=[("layout/internal/domain/model/node.go","""	result.children = make([]*Node, len(n.children)-1)

	// Copy children before removed index
	for i := 0; i < index; i++ {
		result.children[i] = n.children[i]
	}

	// Copy children after removed index
	for i := index + 1; i < len(n.children); i++ {
		result.children[i-1] = n.children[i]
	}
""","""	if index == len(n.children)-1 {
		result.children = n.children[:index:index]
	} else {
		result.children = append(n.children[:index], n.children[index+1:]...)
	}
""")]
needs="removing a child that is not the last from a node whose older value is still in use"
breaks="removing a child shifts the children of the original node"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	mk := func(s string) *Node { return NewNode(NewBox(s)) }
	n := mk("root").AddChildren(mk("a"), mk("b"), mk("c"))
	before := n.Children()
	n.RemoveChild(0)
	after := n.Children()
	for i := range before {
		if before[i] != after[i] {
			t.Fatalf("child %d of the original changed", i)
		}
	}
}
'''
