prop='C03'
mod='tea'
pkg='internal/application/program'
edits=[('tea/internal/application/program/program.go', "\t\tselect {\n\t\tcase p.msgCh <- msg:\n\t\tcase <-done:\n\t\t\t// Program quitting, don't send\n\t\t}\n", "\t\tselect {\n\t\tcase p.msgCh <- msg:\n\t\tcase <-done:\n\t\tdefault:\n\t\t\t// Program quitting or queue full, don't send\n\t\t}\n")]
needs='a command finishing while the message queue is full, the loop being busy with a long batch'
breaks='the message the command returned (a quit among them) is dropped while the run goes on'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\ntype seedTerm struct {\n\tterminal.Terminal\n}\n\nfunc (s *seedTerm) EnterRawMode() error   { return nil }\nfunc (s *seedTerm) ExitRawMode() error    { return nil }\nfunc (s *seedTerm) EnterAltScreen() error { return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return false }\nfunc (s *seedTerm) IsInAltScreen() bool   { return false }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype goMsg struct{}\ntype resMsg struct{}\n\ntype dropModel struct{ got *int }\n\nfunc (m dropModel) Init() model2.Cmd {\n\treturn func() model2.Msg {\n\t\tb := model2.BatchMsg{}\n\t\tfor i := 0; i < 150; i++ {\n\t\t\tb.Messages = append(b.Messages, goMsg{})\n\t\t}\n\t\treturn b\n\t}\n}\nfunc (m dropModel) Update(msg model2.Msg) (model2.Model[dropModel], model2.Cmd) {\n\tswitch msg.(type) {\n\tcase goMsg:\n\t\ttime.Sleep(time.Millisecond)\n\t\treturn m, func() model2.Msg { return resMsg{} }\n\tcase resMsg:\n\t\t*m.got++\n\t\tif *m.got == 150 {\n\t\t\treturn m, func() model2.Msg { return model2.QuitMsg{} }\n\t\t}\n\t}\n\treturn m, nil\n}\nfunc (m dropModel) View() string { return "" }\n\nfunc TestSeed(t *testing.T) {\n\tgot := 0\n\tp := New[dropModel](dropModel{&got}, WithTerminal[dropModel](&seedTerm{}), WithOutput[dropModel](&bytes.Buffer{}), WithInput[dropModel](strings.NewReader("")))\n\tdone := make(chan error, 1)\n\tgo func() { done <- p.Run() }()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(10 * time.Second):\n\t\tt.Fatalf("the program never saw all results of its commands")\n\t}\n}\n'
