prop="C03"
mod,pkg="tea","internal/application/program"
edits=[('tea/internal/application/program/program.go', '\tp.mu.Lock()\n\tif !p.running {\n\t\tp.mu.Unlock()\n\t\treturn\n\t}\n\tp.mu.Unlock()\n\n\t// Signal quit\n', '\tp.mu.Lock()\n\tif !p.running || p.suspended {\n\t\tp.mu.Unlock()\n\t\treturn\n\t}\n\tp.mu.Unlock()\n\n\t// Signal quit\n')]
needs='Stop while the program is suspended'
breaks='the quit request of Stop is dropped while the program is suspended'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"errors"\n\t"os/exec"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\nvar _ = errors.New\nvar _ = exec.Command\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw, alt   bool\n\texitRawErr error\n}\n\nfunc (s *seedTerm) EnterRawMode() error { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error {\n\tif s.exitRawErr != nil {\n\t\treturn s.exitRawErr\n\t}\n\ts.raw = false\n\treturn nil\n}\nfunc (s *seedTerm) EnterAltScreen() error { s.alt = true; return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { s.alt = false; return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return s.alt }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc seedProgram(term *seedTerm, opts ...Option[seedModel]) *Program[seedModel] {\n\topts = append(opts, WithTerminal[seedModel](term), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\treturn New[seedModel](seedModel{}, opts...)\n}\n\nvar _ = time.Second\n\n\ntype idleModel struct{}\n\nfunc (m idleModel) Init() model2.Cmd { return nil }\nfunc (m idleModel) Update(msg model2.Msg) (model2.Model[idleModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m idleModel) View() string { return "" }\n\nfunc TestSeed(t *testing.T) {\n\t_ = seedProgram\n\tp := New[idleModel](idleModel{}, WithTerminal[idleModel](&seedTerm{}), WithOutput[idleModel](&bytes.Buffer{}), WithInput[idleModel](strings.NewReader("")))\n\tif err := p.Start(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttime.Sleep(50 * time.Millisecond)\n\tif err := p.Suspend(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp.Stop()\n\t_ = p.Resume()\n\n\tdeadline := time.Now().Add(3 * time.Second)\n\tfor p.IsRunning() {\n\t\tif time.Now().After(deadline) {\n\t\t\tt.Fatal("the quit request was lost")\n\t\t}\n\t\ttime.Sleep(5 * time.Millisecond)\n\t}\n}\n'
