prop="C14"
mod,pkg="style","internal/application/command"
edits=[('style/internal/application/command/render.go', 'func (rc *RenderCommand) applyColors(content string, style model.Style) string {\n\ttermCap := style.GetTerminalCapability()\n\tvar codes []string\n\n\t// Foreground color.\n\tif fg, hasFg := style.GetForeground(); hasFg {\n\t\tansiCode := rc.colorAdapter.ToANSIForeground(fg, termCap)\n\t\tif ansiCode != "" {\n\t\t\tcodes = append(codes, ansiCode)\n\t\t}\n\t}\n\n\t// Background color.\n\tif bg, hasBg := style.GetBackground(); hasBg {\n\t\tansiCode := rc.colorAdapter.ToANSIBackground(bg, termCap)\n\t\tif ansiCode != "" {\n\t\t\tcodes = append(codes, ansiCode)\n\t\t}\n\t}\n\n\t// No colors to apply.\n\tif len(codes) == 0', 'func (rc *RenderCommand) applyColors(content string, style model.Style) string {\n\ttermCap := style.GetTerminalCapability()\n\tvar codes []string\n\n\t// Foreground color.\n\tif fg, hasFg := style.GetForeground(); hasFg {\n\t\tansiCode := rc.colorAdapter.ToANSIForeground(fg, termCap)\n\t\tif ansiCode != "" {\n\t\t\tcodes = append(codes, ansiCode)\n\t\t}\n\t}\n\n\t// Background color.\n\tif bg, hasBg := style.GetBackground(); hasBg && len(codes) == 0 {\n\t\tansiCode := rc.colorAdapter.ToANSIBackground(bg, termCap)\n\t\tif ansiCode != "" {\n\t\t\tcodes = append(codes, ansiCode)\n\t\t}\n\t}\n\n\t// No colors to apply.\n\tif len(codes) == 0')]
needs="a style with both a foreground and a background colour"
breaks="the background colour is silently ignored when the foreground was drawn"
test='\npackage command\n\nimport (\n\t"strings"\n\t"testing"\n\n\t"github.com/phoenix-tui/phoenix/style/internal/domain/model"\n\tservice2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"\n\t"github.com/phoenix-tui/phoenix/style/internal/domain/value"\n\t"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"\n)\n\nfunc TestSeed(t *testing.T) {\n\trc := NewRenderCommand(service2.NewColorAdapter(), service2.NewSpacingCalculator(), service2.NewTextAligner(), ansi.NewANSICodeGenerator())\n\ts := model.NewStyle().TerminalCapability(value.TrueColor).Foreground(value.RGB(1, 2, 3)).Background(value.RGB(4, 5, 6))\n\tout, err := rc.Execute(s, "x")\n\tif err != nil || !strings.Contains(out, "48;2;4;5;6") || !strings.Contains(out, "38;2;1;2;3") {\n\t\tt.Fatalf("%q %v", out, err)\n\t}\n}\n'
