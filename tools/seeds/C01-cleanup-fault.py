prop="C01"
mod,pkg="tea","internal/application/program"
edits=[('tea/internal/application/program/program.go', "\t// Cleanup on exit\n\tdefer func() {\n\t\tp.stopInputReader()\n\n\t\tp.mu.Lock()\n\n\t\t// Exit raw mode if we're in it\n\t\tif p.terminal != nil && p.terminal.IsInRawMode() {\n\t\t\t_ = p.terminal.ExitRawMode() // Best effort cleanup\n\t\t}\n", "\t// Cleanup on exit\n\tdefer func() {\n\t\tp.stopInputReader()\n\n\t\tp.mu.Lock()\n\n\t\t// Exit raw mode if we're in it\n\t\tif p.terminal != nil && p.terminal.IsInRawMode() {\n\t\t\tif err := p.terminal.ExitRawMode(); err != nil {\n\t\t\t\t// The terminal is gone, nothing left to restore\n\t\t\t\tp.endRun()\n\t\t\t\tp.running = false\n\t\t\t\tp.mu.Unlock()\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n")]
needs='leaving raw mode fails at the end of a run with the alternate screen on'
breaks='the alternate screen is not left'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"errors"\n\t"os/exec"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\nvar _ = errors.New\nvar _ = exec.Command\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw, alt   bool\n\texitRawErr error\n}\n\nfunc (s *seedTerm) EnterRawMode() error { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error {\n\tif s.exitRawErr != nil {\n\t\treturn s.exitRawErr\n\t}\n\ts.raw = false\n\treturn nil\n}\nfunc (s *seedTerm) EnterAltScreen() error { s.alt = true; return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { s.alt = false; return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return s.alt }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc seedProgram(term *seedTerm, opts ...Option[seedModel]) *Program[seedModel] {\n\topts = append(opts, WithTerminal[seedModel](term), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\treturn New[seedModel](seedModel{}, opts...)\n}\n\nvar _ = time.Second\n\nfunc TestSeed(t *testing.T) {\n\tterm := &seedTerm{exitRawErr: errors.New("no")}\n\tp := seedProgram(term, WithAltScreen[seedModel]())\n\tif err := p.Run(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif term.alt {\n\t\tt.Fatal("alternate screen still on")\n\t}\n}\n'
