prop="C10"
mod,pkg="render","internal/domain/model"
edits=[("render/internal/domain/model/buffer.go","""	for y := 0; y < minHeight; y++ {
		for x := 0; x < minWidth; x++ {
			newBuffer.cells[y][x] = b.cells[y][x]
		}
	}

	return newBuffer
""","""	for y := 0; y < minHeight; y++ {
		copy(newBuffer.cells[y][:minWidth], b.cells[y])
	}

	return newBuffer
""")]
needs="a buffer resized to a negative width but a positive height"
breaks="copying whole lines slices up to the smaller width, which is negative when the new width is: the resize panics"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	b := NewBuffer(4, 3)
	if r := b.Resize(-1, 2); r.Width() != 0 || r.Height() != 2 {
		t.Fatal(r.Width(), r.Height())
	}
}
'''
