prop="C02"
mod,pkg='clipboard','internal/infrastructure/native'
edits=[('clipboard/internal/infrastructure/native/clipboard_linux.go', '\terr = cmd.Run()\n\tif err != nil {\n\t\treturn fmt.Errorf("failed to write', '\tif p.writeCmd == "xclip" {\n\t\t// xclip keeps running to serve the selection\n\t\terr = cmd.Start()\n\t} else {\n\t\terr = cmd.Run()\n\t}\n\tif err != nil {\n\t\treturn fmt.Errorf("failed to write')]
needs='the clipboard tool is xclip'
breaks='the tool is never waited for and its failure is reported as success'
test='\npackage native\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t"time"\n\n\t"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"\n)\n\nvar _ = model.NewTextContent\nvar _ = time.Second\n\nfunc tool(t *testing.T, script string) *Provider {\n\tdir := t.TempDir()\n\tif err := os.WriteFile(filepath.Join(dir, "xclip"), []byte("#!/bin/sh\\n"+script), 0o755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\told := os.Getenv("PATH")\n\tt.Setenv("PATH", dir)\n\tp := NewProvider()\n\tt.Setenv("PATH", dir+":"+old)\n\treturn p\n}\n\nfunc TestSeed(t *testing.T) {\n\tp := tool(t, "cat >/dev/null; exit 1")\n\tc, _ := model.NewTextContent("x")\n\tif err := p.Write(c); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n'
