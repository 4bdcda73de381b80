prop="C22"
mod,pkg='tea','internal/infrastructure/input'
edits=[('tea/internal/infrastructure/input/cancelable_reader.go', '\tpipeReader, pipeWriter, err := os.Pipe()\n\tif err == nil {', '\tpipeReader, pipeWriter, err := os.Pipe()\n\trelay := err == nil\n\tif f, ok := r.(*os.File); ok && relay {\n\t\t// A regular file never blocks, reading it needs no relay\n\t\tif info, statErr := f.Stat(); statErr == nil && info.Mode().IsRegular() {\n\t\t\trelay = false\n\t\t}\n\t}\n\tif relay {')]
needs='input from a regular file'
breaks='both ends of the relay pipe stay open for ever'
test='\npackage input\n\nimport (\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t"time"\n)\n\nfunc openFiles(t *testing.T) int {\n\tes, err := os.ReadDir("/proc/self/fd")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\treturn len(es)\n}\n\nfunc TestSeed(t *testing.T) {\n\tname := filepath.Join(t.TempDir(), "in")\n\tif err := os.WriteFile(name, []byte("abc"), 0o644); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf, err := os.Open(name)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer f.Close()\n\tr0, w0, _ := os.Pipe()\n\tbefore := openFiles(t)\n\tfor i := 0; i < 5; i++ {\n\t\tcr := NewCancelableReader(f)\n\t\ttime.Sleep(20 * time.Millisecond)\n\t\tcr.Cancel()\n\t\tcr.WaitForShutdown()\n\t}\n\tif n := openFiles(t); n > before+1 {\n\t\tt.Fatalf("%d files open, %d before", n, before)\n\t}\n\t_ = r0.Close()\n\t_ = w0.Close()\n}\n'
