prop="C22"
mod,pkg='tea','internal/infrastructure/input'
edits=[('tea/internal/infrastructure/input/cancelable_reader.go', '\t\tcase <-time.After(50 * time.Millisecond):\n', '\t\tcase <-time.After(50 * time.Millisecond):\n\t\t\t// The relay still sits in its read; it ends with the next input.\n\t\t\treturn\n')]
needs='a source whose blocked Read cannot be interrupted'
breaks='the read end of the pipe stays open after shutdown'
test='\npackage input\n\nimport (\n\t"os"\n\t"runtime"\n\t"testing"\n\t"time"\n)\n\ntype stuck chan struct{}\n\nfunc (s stuck) Read(p []byte) (int, error) { <-s; return 0, os.ErrClosed }\n\nfunc openFiles(t *testing.T) int {\n\tes, err := os.ReadDir("/proc/self/fd")\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\treturn len(es)\n}\n\nfunc TestSeed(t *testing.T) {\n\ts := make(stuck)\n\tdefer close(s)\n\topenFiles(t)\n\tr0, w0, _ := os.Pipe()\n\tbefore := openFiles(t)\n\tvar keep []*CancelableReader\n\tfor i := 0; i < 5; i++ {\n\t\tcr := NewCancelableReader(s)\n\t\ttime.Sleep(20 * time.Millisecond)\n\t\tcr.Cancel()\n\t\tcr.WaitForShutdown()\n\t\tkeep = append(keep, cr)\n\t}\n\tif n := openFiles(t); n > before+1 {\n\t\tt.Fatalf("%d files open, %d before", n, before)\n\t}\n\truntime.KeepAlive(keep)\n\t_ = r0.Close()\n\t_ = w0.Close()\n}\n'
