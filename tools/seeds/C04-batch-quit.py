prop='C04'
mod,pkg="tea","internal/application/program"
edits=[('tea/internal/application/program/program.go', '\t\tfor _, inner := range m.Messages {\n\t\t\tif p.handleMessage(inner) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\treturn false\n\n\tcase model2.SequenceMsg:', '\t\tfor _, inner := range m.Messages {\n\t\t\tif _, quit := inner.(model2.QuitMsg); quit {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif p.handleMessage(inner) {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\treturn false\n\n\tcase model2.SequenceMsg:')]
needs='a quit message inside a batch, other messages after it'
breaks='the quit is skipped and the messages after it are still delivered'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\t"time"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\ntype seedTerm struct {\n\tterminal.Terminal\n}\n\nfunc (s *seedTerm) EnterRawMode() error   { return nil }\nfunc (s *seedTerm) ExitRawMode() error    { return nil }\nfunc (s *seedTerm) EnterAltScreen() error { return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return false }\nfunc (s *seedTerm) IsInAltScreen() bool   { return false }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seqModel struct{ log *[]string }\n\nfunc (m seqModel) Init() model2.Cmd {\n\treturn func() model2.Msg {\n\t\treturn model2.BatchMsg{Messages: []model2.Msg{"a", model2.QuitMsg{}, "b"}}\n\t}\n}\nfunc (m seqModel) Update(msg model2.Msg) (model2.Model[seqModel], model2.Cmd) {\n\tif s, ok := msg.(string); ok {\n\t\t*m.log = append(*m.log, s)\n\t}\n\treturn m, nil\n}\nfunc (m seqModel) View() string { return "" }\n\nfunc TestSeed(t *testing.T) {\n\tvar log []string\n\tp := New[seqModel](seqModel{&log}, WithTerminal[seqModel](&seedTerm{}), WithOutput[seqModel](&bytes.Buffer{}), WithInput[seqModel](strings.NewReader("")))\n\tdone := make(chan error, 1)\n\tgo func() { done <- p.Run() }()\n\tselect {\n\tcase <-done:\n\t\tif strings.Join(log, "") != "a" {\n\t\t\tt.Fatalf("updated with %v", log)\n\t\t}\n\tcase <-time.After(5 * time.Second):\n\t\tt.Fatal("the quit inside the batch was ignored")\n\t}\n}\n'
