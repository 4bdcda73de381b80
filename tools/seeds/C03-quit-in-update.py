prop="C03"
mod,pkg="tea","internal/application/program"
edits=[('tea/internal/application/program/program.go', '\tselect {\n\tcase <-done:\n\t\t// Goroutine exited gracefully\n\tcase <-time.After', '\tselect {\n\tcase <-done:\n\t\t// Goroutine exited gracefully\n\tcase <-p.quitCh:\n\t\t// Quitting, no need to wait any longer\n\tcase <-time.After')]
needs='a quit request pending while the update function suspends the program'
breaks='the request is swallowed by the wait for the input reader and the event loop goes on'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"errors"\n\t"os/exec"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\nvar _ = errors.New\nvar _ = exec.Command\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw, alt   bool\n\texitRawErr error\n}\n\nfunc (s *seedTerm) EnterRawMode() error { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error {\n\tif s.exitRawErr != nil {\n\t\treturn s.exitRawErr\n\t}\n\ts.raw = false\n\treturn nil\n}\nfunc (s *seedTerm) EnterAltScreen() error { s.alt = true; return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { s.alt = false; return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return s.alt }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc seedProgram(term *seedTerm, opts ...Option[seedModel]) *Program[seedModel] {\n\topts = append(opts, WithTerminal[seedModel](term), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\treturn New[seedModel](seedModel{}, opts...)\n}\n\nvar _ = time.Second\n\n\ntype quitModel struct{ p **Program[quitModel] }\n\nfunc (m quitModel) Init() model2.Cmd { return func() model2.Msg { return 1 } }\nfunc (m quitModel) Update(msg model2.Msg) (model2.Model[quitModel], model2.Cmd) {\n\tif _, ok := msg.(int); ok {\n\t\t(*m.p).Quit()\n\t\t_ = (*m.p).Suspend()\n\t}\n\treturn m, nil\n}\nfunc (m quitModel) View() string { return "" }\n\ntype blockReader struct{}\n\nfunc (blockReader) Read(b []byte) (int, error) { time.Sleep(time.Hour); return 0, nil }\n\nfunc TestSeed(t *testing.T) {\n\t_ = seedProgram\n\tvar p *Program[quitModel]\n\tp = New[quitModel](quitModel{&p}, WithTerminal[quitModel](&seedTerm{}), WithOutput[quitModel](&bytes.Buffer{}), WithInput[quitModel](blockReader{}))\n\tfor i := 0; i < 5; i++ {\n\t\tif err := p.Start(); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\t\n\t\tdeadline := time.Now().Add(3 * time.Second)\n\t\tfor p.IsRunning() {\n\t\t\tif time.Now().After(deadline) {\n\t\t\t\tt.Fatal("the quit request was lost")\n\t\t\t}\n\t\t\ttime.Sleep(5 * time.Millisecond)\n\t\t}\n\t}\n}\n'
