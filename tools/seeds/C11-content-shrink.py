prop="C11"
mod="components"
pkg="input/internal/input/domain/model"
edits=[("components/input/internal/input/domain/model/input.go",
'''	t.content = content

	// Clamp cursor to new content length.
	maxOffset := t.cursorMovement.GraphemeCount(content)
	t.cursor = t.cursor.MoveTo(t.cursor.Offset(), maxOffset)
''','''	shorter := len(content) < len(t.content)
	t.content = content

	// Clamp cursor to new content length, if it got shorter.
	maxOffset := t.cursorMovement.GraphemeCount(content)
	if shorter {
		t.cursor = t.cursor.MoveTo(t.cursor.Offset(), maxOffset)
	}
''')]
needs="new content with more bytes but fewer characters than the old, and the cursor near the end"
breaks="the cursor of a text input ends up behind the end of its content"
test='''
package model

import "testing"

func TestSeed(t *testing.T) {
	ti := New(20).WithContent("abcde").MoveEnd()
	ti = ti.WithContent("日本語")
	if ti.CursorPosition() > 3 {
		t.Fatalf("cursor %d of 3 characters", ti.CursorPosition())
	}
}
'''
