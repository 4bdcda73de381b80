prop="C02"
mod,pkg='clipboard','internal/infrastructure/native'
edits=[('clipboard/internal/infrastructure/native/clipboard_linux.go', '\terr := cmd.Run()\n\tif err != nil {\n\t\treturn nil,', '\terr := cmd.Run()\n\tif err != nil && out.Len() == 0 {\n\t\treturn nil,')]
needs='the clipboard tool fails after printing something'
breaks='a failed read is reported as success'
test='\npackage native\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t"time"\n\n\t"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"\n)\n\nvar _ = model.NewTextContent\nvar _ = time.Second\n\nfunc tool(t *testing.T, script string) *Provider {\n\tdir := t.TempDir()\n\tif err := os.WriteFile(filepath.Join(dir, "xclip"), []byte("#!/bin/sh\\n"+script), 0o755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\told := os.Getenv("PATH")\n\tt.Setenv("PATH", dir)\n\tp := NewProvider()\n\tt.Setenv("PATH", dir+":"+old)\n\treturn p\n}\n\nfunc TestSeed(t *testing.T) {\n\tp := tool(t, "echo part; exit 1")\n\tif _, err := p.Read(); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n'
