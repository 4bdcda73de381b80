prop="C05"
mod,pkg='tea','internal/application/program'
edits=[('tea/internal/application/program/program.go',"""				_ = p.terminal.EnterRawMode() // Best effort
			}
			// Restart inputReader before returning error
			p.mu.Unlock()
			p.restartInputReader()
			p.mu.Lock()
""","""				_ = p.terminal.EnterRawMode() // Best effort
			}
			// Restart inputReader before returning error
			p.restartInputReader()
""")]
needs='leaving the alternate screen fails while suspending'
breaks='the error path takes the program lock it already holds and hangs'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"errors"\n\t"os/exec"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\nvar _ = errors.New\nvar _ = exec.Command\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw, alt   bool\n\texitRawErr error\n}\n\nfunc (s *seedTerm) EnterRawMode() error { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error {\n\tif s.exitRawErr != nil {\n\t\treturn s.exitRawErr\n\t}\n\ts.raw = false\n\treturn nil\n}\nfunc (s *seedTerm) EnterAltScreen() error { s.alt = true; return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { return errors.New("stuck") }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return s.alt }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc seedProgram(term *seedTerm, opts ...Option[seedModel]) *Program[seedModel] {\n\topts = append(opts, WithTerminal[seedModel](term), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\treturn New[seedModel](seedModel{}, opts...)\n}\n\nvar _ = time.Second\n\n\ntype idleModel struct{}\n\nfunc (m idleModel) Init() model2.Cmd { return nil }\nfunc (m idleModel) Update(msg model2.Msg) (model2.Model[idleModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m idleModel) View() string { return "" }\n\nfunc TestSeed(t *testing.T) {\n\t_ = seedProgram\n\tp := New[idleModel](idleModel{}, WithTerminal[idleModel](&seedTerm{raw: true, alt: true}), WithOutput[idleModel](&bytes.Buffer{}), WithInput[idleModel](strings.NewReader("")))\n\tres := make(chan error, 1)\n\tgo func() { res <- p.Suspend() }()\n\tselect {\n\tcase err := <-res:\n\t\tif err == nil {\n\t\t\tt.Fatal("no error")\n\t\t}\n\tcase <-time.After(5 * time.Second):\n\t\tt.Fatal("Suspend blocked on its own lock")\n\t}\n}\n'
