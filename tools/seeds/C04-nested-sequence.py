prop="C04"
mod,pkg="tea","."
edits=[("tea/tea.go","""		internalMsgs := make([]model2.Msg, len(m.Messages))
		for i, msg := range m.Messages {
			internalMsgs[i] = convertMsgToInternal(msg)
		}
		return model2.SequenceMsg{Messages: internalMsgs}""","""		internalMsgs := make([]model2.Msg, len(m.Messages))
		for i, msg := range m.Messages {
			internalMsgs[i] = msg
		}
		return model2.SequenceMsg{Messages: internalMsgs}""")]
needs="a sequence of commands one of which quits, or contains a batch"
breaks="the messages of a sequence reach the engine as public values, which it does not recognise: quit is not obeyed, a nested batch is not expanded"
test='''
package tea

import (
	"testing"

	model2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"
)

func TestSeed(t *testing.T) {
	cmd := convertCmdToInternal(Sequence(Println("bye"), Quit()))
	s, ok := cmd().(model2.SequenceMsg)
	if !ok || len(s.Messages) != 2 {
		t.Fatalf("%v", s)
	}
	if _, ok := s.Messages[1].(model2.QuitMsg); !ok {
		t.Errorf("quit arrives as %T", s.Messages[1])
	}
}
'''
