prop="C22"
mod,pkg='tea','internal/application/program'
edits=[('tea/internal/application/program/tty_control_linux.go', '\tif opts.TransferForeground {\n\t\tif err := tcsetpgrp(ttyFD, parentPgid); err != nil {', '\tif opts.TransferForeground && (cmdErr == nil || cmd.ProcessState.Exited()) {\n\t\tif err := tcsetpgrp(ttyFD, parentPgid); err != nil {')]
needs='ExecProcessWithTTY with TransferForeground and a child that is killed by a signal'
breaks='the terminal foreground stays with the process group of the dead child'
test='\npackage program\n\nimport (\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"os"\n\t"os/exec"\n\t"os/signal"\n\t"strings"\n\t"syscall"\n\t"testing"\n\t"time"\n\t"unsafe"\n\n\tmodel2 "github.com/phoenix-tui/phoenix/tea/internal/domain/model"\n\t"github.com/phoenix-tui/phoenix/terminal"\n)\n\nvar _ = errors.New\nvar _ = exec.Command\n\ntype seedTerm struct {\n\tterminal.Terminal\n\traw, alt   bool\n\texitRawErr error\n}\n\nfunc (s *seedTerm) EnterRawMode() error { s.raw = true; return nil }\nfunc (s *seedTerm) ExitRawMode() error {\n\tif s.exitRawErr != nil {\n\t\treturn s.exitRawErr\n\t}\n\ts.raw = false\n\treturn nil\n}\nfunc (s *seedTerm) EnterAltScreen() error { s.alt = true; return nil }\nfunc (s *seedTerm) ExitAltScreen() error  { s.alt = false; return nil }\nfunc (s *seedTerm) IsInRawMode() bool     { return s.raw }\nfunc (s *seedTerm) IsInAltScreen() bool   { return s.alt }\nfunc (s *seedTerm) HideCursor() error     { return nil }\nfunc (s *seedTerm) ShowCursor() error     { return nil }\n\ntype seedModel struct{}\n\nfunc (m seedModel) Init() model2.Cmd { return func() model2.Msg { return model2.QuitMsg{} } }\nfunc (m seedModel) Update(msg model2.Msg) (model2.Model[seedModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m seedModel) View() string { return "" }\n\nfunc seedProgram(term *seedTerm, opts ...Option[seedModel]) *Program[seedModel] {\n\topts = append(opts, WithTerminal[seedModel](term), WithOutput[seedModel](&bytes.Buffer{}), WithInput[seedModel](strings.NewReader("")))\n\treturn New[seedModel](seedModel{}, opts...)\n}\n\nvar _ = time.Second\n\n\ntype idleModel struct{}\n\nfunc (m idleModel) Init() model2.Cmd { return nil }\nfunc (m idleModel) Update(msg model2.Msg) (model2.Model[idleModel], model2.Cmd) {\n\treturn m, nil\n}\nfunc (m idleModel) View() string { return "" }\n\n\nvar _ = signal.Ignored\n\n// onTTY runs body in a child process of this test that has a terminal of its own.\nfunc onTTY(t *testing.T, body func(t *testing.T)) {\n\tif os.Getenv("SEED_CHILD") == "1" {\n\t\tbody(t)\n\t\treturn\n\t}\n\tm, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer m.Close()\n\tvar n uint32\n\tzero := 0\n\tif _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 {\n\t\tt.Fatal(e)\n\t}\n\tif _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {\n\t\tt.Fatal(e)\n\t}\n\ts, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer s.Close()\n\tvar out bytes.Buffer\n\tc := exec.Command(os.Args[0], "-test.run=^TestSeed$", "-test.v")\n\tc.Env = append(os.Environ(), "SEED_CHILD=1")\n\tc.Stdin = s\n\tc.Stdout = &out\n\tc.Stderr = &out\n\tc.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}\n\tif err := c.Start(); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdone := make(chan error, 1)\n\tgo func() { done <- c.Wait() }()\n\tselect {\n\tcase err := <-done:\n\t\tif err != nil {\n\t\t\tt.Fatalf("%v\\n%s", err, out.String())\n\t\t}\n\tcase <-time.After(30 * time.Second):\n\t\t_ = c.Process.Kill()\n\t\tt.Fatal("timed out")\n\t}\n}\n\nfunc TestSeed(t *testing.T) {\n\tonTTY(t, func(t *testing.T) {\n\t\tp := New[idleModel](idleModel{}, WithTerminal[idleModel](&seedTerm{}), WithOutput[idleModel](&bytes.Buffer{}), WithInput[idleModel](strings.NewReader("")))\n\t\t_ = p.ExecProcessWithTTY(exec.Command("sh", "-c", "kill -9 $$"), TTYOptions{TransferForeground: true, CreateProcessGroup: true})\n\t\tsignal.Ignore(syscall.SIGTTOU)\n\t\tvar pgrp int32\n\t\tif _, _, e := syscall.Syscall(syscall.SYS_IOCTL, 0, 0x540F, uintptr(unsafe.Pointer(&pgrp))); e != 0 {\n\t\t\tt.Fatal(e)\n\t\t}\n\t\tif int(pgrp) != syscall.Getpgrp() {\n\t\t\tt.Fatalf("foreground is %d, not %d", pgrp, syscall.Getpgrp())\n\t\t}\n\t})\n}\n'
