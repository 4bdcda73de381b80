prop="C05"
mod,pkg="clipboard","internal/domain/service"
edits=[('clipboard/internal/domain/service/clipboard_history.go', 'func (h *ClipboardHistory) GetAll() []*model.HistoryEntry {\n\th.mu.RLock()\n\tdefer h.mu.RUnlock()\n\n\t// Create a copy to avoid external modification\n\tresult := make([]*model.HistoryEntry, len(h.entries))\n\tcopy(result, h.entries)\n\n\t// Sort by timestamp (newest first)\n\tsort.Slice', 'func (h *ClipboardHistory) GetAll() []*model.HistoryEntry {\n\th.mu.RLock()\n\tdefer h.mu.RUnlock()\n\n\t// Create a copy to avoid external modification\n\tresult := h.entries\n\n\t// Sort by timestamp (newest first)\n\tsort.Slice')]
needs="listing the history from two goroutines, or before an entry is evicted"
breaks="the shared list is sorted in place under a read lock, so readers race and the newest entry is evicted"
test='\npackage service\n\nimport (\n\t"testing"\n\t"time"\n\n\t"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"\n)\n\nfunc TestSeed(t *testing.T) {\n\th := NewClipboardHistory(2, 0)\n\tadd := func(s string) {\n\t\tif err := h.Add([]byte(s), value.MIMETypePlainText); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\ttime.Sleep(2 * time.Millisecond)\n\t}\n\tadd("a")\n\tadd("b")\n\t_ = h.GetAll()\n\tadd("c")\n\tgot := ""\n\tfor _, e := range h.GetAll() {\n\t\tgot += string(e.Content())\n\t}\n\tif got != "cb" {\n\t\tt.Fatalf("reading the history changed it: %q", got)\n\t}\n}\n'
