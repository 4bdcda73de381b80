prop="C17"
mod,pkg="terminal","internal/infrastructure/unix"
edits=[("terminal/internal/infrastructure/unix/ansi.go",'''	return a.inAltScreen
}''','''	if a.inAltScreen && os.Getenv("TERM") == "cons25" {
		a.inAltScreen = false // cons25 has no alternate screen
	}
	return a.inAltScreen
}''')]
needs="asking IsInAltScreen with TERM=cons25 while in the alternate screen"
breaks="a query changes the state: after IsInAltScreen the alternate screen can no longer be left"
test='''
package unix

import "testing"

func TestSeed(t *testing.T) {
	t.Setenv("TERM", "cons25")
	a := &ANSITerminal{inAltScreen: true}
	a.IsInAltScreen()
	if !a.inAltScreen {
		t.Error("the query changed the state")
	}
}
'''
