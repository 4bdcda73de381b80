prop="C02"
mod,pkg='tea','internal/application/program'
edits=[('tea/internal/application/program/tty_control_linux.go', '\tcmdErr := cmd.Wait()\n\n\t// STEP 7', '\t_, cmdErr := cmd.Process.Wait()\n\n\t// STEP 7')]
needs='a controlling terminal, an external command run with terminal transfer that exits with an error'
breaks="the failure is reported as success and the command's pipes stay open"
test='\npackage program\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"os"\n\t"os/exec"\n\t"strings"\n\t"syscall"\n\t"testing"\n\t"unsafe"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw bool\n}\n\nfunc (s *seedTerm) EnterRawMode() error   { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error    { s.raw = false; return nil }\nfunc (s *seedTerm) EnterAltScreen() error { return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return false }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return nil }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc TestSeed(t *testing.T) {\n\tif os.Getenv("SEED_CHILD") != "" {\n\t\tp := New[seedModel](seedModel{}, WithTerminal[seedModel](&seedTerm{raw: true}), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\t\tif err := p.ExecProcessWithTTY(exec.Command("sh", "-c", "exit 3"), TTYOptions{CreateProcessGroup: true}); err == nil {\n\t\t\tos.Exit(7)\n\t\t}\n\t\tos.Exit(0)\n\t}\n\tptmx, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tdefer ptmx.Close()\n\tvar n uint32\n\tif _, _, e := syscall.Syscall(syscall.SYS_IOCTL, ptmx.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {\n\t\tt.Skip(e)\n\t}\n\tvar u int32\n\tsyscall.Syscall(syscall.SYS_IOCTL, ptmx.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&u)))\n\tpts, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)\n\tif err != nil {\n\t\tt.Skip(err)\n\t}\n\tdefer pts.Close()\n\tc := exec.Command(os.Args[0], "-test.run", "^TestSeed$")\n\tc.Env = append(os.Environ(), "SEED_CHILD=1")\n\tc.Stdin, c.Stdout, c.Stderr = pts, os.Stdout, os.Stderr\n\tc.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}\n\tif err := c.Run(); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n'
