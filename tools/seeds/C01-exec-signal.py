prop="C01"
mod,pkg="tea","internal/application/program"
edits=[('tea/internal/application/program/program.go', '\tcmdErr := cmd.Run()\n\n\t// STEP 4', '\tcmdErr := cmd.Run()\n\tif ee, ok := cmdErr.(*exec.ExitError); ok && !ee.Exited() {\n\t\treturn fmt.Errorf("exec: command killed: %w", cmdErr)\n\t}\n\n\t// STEP 4')]
needs='the external command is killed by a signal'
breaks='the program stays suspended'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"errors"\n\t"os/exec"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\nvar _ = errors.New\nvar _ = exec.Command\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw, alt   bool\n\texitRawErr error\n}\n\nfunc (s *seedTerm) EnterRawMode() error { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error {\n\tif s.exitRawErr != nil {\n\t\treturn s.exitRawErr\n\t}\n\ts.raw = false\n\treturn nil\n}\nfunc (s *seedTerm) EnterAltScreen() error { s.alt = true; return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { s.alt = false; return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return s.alt }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc seedProgram(term *seedTerm, opts ...Option[seedModel]) *Program[seedModel] {\n\topts = append(opts, WithTerminal[seedModel](term), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\treturn New[seedModel](seedModel{}, opts...)\n}\n\nvar _ = time.Second\n\nfunc TestSeed(t *testing.T) {\n\tterm := &seedTerm{raw: true}\n\tp := seedProgram(term)\n\tif err := p.ExecProcess(exec.Command("sh", "-c", "kill -9 $$")); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tif p.IsSuspended() || !term.raw {\n\t\tt.Fatal("still suspended")\n\t}\n}\n'
