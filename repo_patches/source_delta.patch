From 3e14f8eb0f9c9893882e73000c9cb16a96248057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 01/51] fix: rendering a layout box no longer freezes its
 measured size

---
 layout/layout.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index 07e45cb..500eeb7 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -406,11 +406,11 @@ func (b *Box) Render() string {
 	// Measure box to get natural size
 	size := measureService.Measure(b.domain)
 
-	// Update domain box with measured size (for rendering)
-	b.domain = b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height()))
+	// Use the measured size for this rendering only (b itself stays unchanged)
+	measured := b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height()))
 
 	// Render the box
-	return renderService.Render(b.domain)
+	return renderService.Render(measured)
 }
 
 // String implements fmt.Stringer for convenient printing.
-- 
2.43.0


From be94a69fdbda1d8b71f945c5a5c83de8b1e5c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 02/51] fix: table keeps its theme across row, key binding,
 sort and paging changes

---
 components/table/table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/table/table.go b/components/table/table.go
index b496527..f5dfd4f 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -124,6 +124,7 @@ func (t *Table) SetRows(rows []Row) *Table {
 		domain:      t.domain.WithRows(domainRows),
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -133,6 +134,7 @@ func (t *Table) KeyBindings(kb infrastructure.KeyBindings) *Table {
 		domain:      t.domain,
 		sortService: t.sortService,
 		keyBindings: kb,
+		theme:       t.theme,
 	}
 }
 
@@ -180,6 +182,7 @@ func (t *Table) handleKeyPress(msg tea.KeyMsg) *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -197,6 +200,7 @@ func (t *Table) pageUp() *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -215,6 +219,7 @@ func (t *Table) pageDown() *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -388,6 +393,7 @@ func (t *Table) SortByColumn(columnKey string) *Table {
 		domain:      newDomain,
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
 
@@ -397,5 +403,6 @@ func (t *Table) ClearSort() *Table {
 		domain:      t.domain.ClearSort(),
 		sortService: t.sortService,
 		keyBindings: t.keyBindings,
+		theme:       t.theme,
 	}
 }
-- 
2.43.0


From f14ea654a9b323fe3fa3b3d70672e9999b267cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 03/51] fix: replacing the options of a select keeps height,
 filter and render settings

---
 .../multiselect/internal/domain/model/multiselect.go  | 11 +++++++++++
 components/multiselect/multiselect.go                 |  2 +-
 components/select/internal/domain/model/select.go     | 10 ++++++++++
 components/select/select.go                           |  2 +-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 0d8ef32..57f244e 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -44,6 +44,17 @@ func New[T any](options []*value.Option[T], minCount, maxCount int) *MultiSelect
 	}
 }
 
+// WithOptions returns a new MultiSelect showing the given options.
+// Cursor, selection and filter query start afresh; every setting is kept.
+func (m *MultiSelect[T]) WithOptions(options []*value.Option[T]) *MultiSelect[T] {
+	updated := New(options, 0, 0)
+	updated.selection = m.selection.Clear()
+	updated.height = m.height
+	updated.filterFunc = m.filterFunc
+	updated.renderFunc = m.renderFunc
+	return updated
+}
+
 // WithHeight returns a new MultiSelect with the specified visible height.
 func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 	if height < 1 {
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 70a1258..245dace 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -75,7 +75,7 @@ func New[T any](title string) *MultiSelect[T] {
 func (m *MultiSelect[T]) Options(options ...*value.Option[T]) *MultiSelect[T] {
 	return &MultiSelect[T]{
 		title:      m.title,
-		domain:     model.New(options, m.min, m.max),
+		domain:     m.domain.WithOptions(options),
 		keymap:     m.keymap,
 		filterable: m.filterable,
 		min:        m.min,
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index e7e4800..be2be31 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -44,6 +44,16 @@ func New[T any](options []*value.Option[T]) *Select[T] {
 	}
 }
 
+// WithOptions returns a new Select showing the given options.
+// Cursor, selection and filter query start afresh; every setting is kept.
+func (s *Select[T]) WithOptions(options []*value.Option[T]) *Select[T] {
+	updated := New(options)
+	updated.height = s.height
+	updated.filterFunc = s.filterFunc
+	updated.renderFunc = s.renderFunc
+	return updated
+}
+
 // WithHeight returns a new Select with the specified visible height.
 func (s *Select[T]) WithHeight(height int) *Select[T] {
 	if height < 1 {
diff --git a/components/select/select.go b/components/select/select.go
index 565732e..a62f172 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -64,7 +64,7 @@ func New[T any](title string) *Select[T] {
 func (s *Select[T]) Options(options ...*value.Option[T]) *Select[T] {
 	return &Select[T]{
 		title:      s.title,
-		domain:     model.New(options),
+		domain:     s.domain.WithOptions(options),
 		keymap:     s.keymap,
 		filterable: s.filterable,
 	}
-- 
2.43.0


From e75afc8c7ea90845485cd05cdf3c369c1253dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 04/51] fix: killing a line or word leaves the cursor where it
 was

---
 .../input/internal/textarea/domain/service/editing.go       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9f3e3c5..fe04a7e 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -172,7 +172,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+			return ta.WithBuffer(newBuffer).WithCursor(ta.GetCursor()).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -184,7 +184,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	// Delete from cursor to end.
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(ta.GetCursor()).WithKillRing(killRing)
 }
 
 // KillWord deletes word after cursor (Alt+D).
@@ -217,7 +217,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 		newBuffer = newBuffer.DeleteChar(row, startCol)
 	}
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(ta.GetCursor()).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
-- 
2.43.0


From 9009482eface259ccff5fddcc2ab918c066e45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 05/51] fix: selected list items and spinner style names come
 in a stable order

---
 components/list/internal/domain/model/list.go           | 9 ++++++---
 components/progress/internal/infrastructure/spinners.go | 9 +++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 63385be..e1f87dd 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"sort"
+
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
 )
@@ -206,10 +208,10 @@ func (l *List) ClearSelection() *List {
 	return newList
 }
 
-// SelectedItems returns the selected items.
+// SelectedItems returns the selected items in list order.
 func (l *List) SelectedItems() []*value.Item {
 	result := make([]*value.Item, 0, len(l.selectedIndices))
-	for idx := range l.selectedIndices {
+	for _, idx := range l.SelectedIndices() {
 		if idx < len(l.filteredItems) {
 			result = append(result, l.filteredItems[idx])
 		}
@@ -263,12 +265,13 @@ func (l *List) FocusedIndex() int {
 	return l.focusedIndex
 }
 
-// SelectedIndices returns the indices of selected items (in filtered list).
+// SelectedIndices returns the indices of selected items (in filtered list), in ascending order.
 func (l *List) SelectedIndices() []int {
 	result := make([]int, 0, len(l.selectedIndices))
 	for idx := range l.selectedIndices {
 		result = append(result, idx)
 	}
+	sort.Ints(result)
 	return result
 }
 
diff --git a/components/progress/internal/infrastructure/spinners.go b/components/progress/internal/infrastructure/spinners.go
index 10ccf9e..4a825f0 100644
--- a/components/progress/internal/infrastructure/spinners.go
+++ b/components/progress/internal/infrastructure/spinners.go
@@ -1,7 +1,11 @@
 // Package infrastructure provides pre-defined spinner styles.
 package infrastructure
 
-import "github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
+import (
+	"sort"
+
+	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
+)
 
 // Pre-defined spinner styles for common use cases.
 // These are curated for visual appeal and cross-platform compatibility.
@@ -127,11 +131,12 @@ func GetSpinnerStyle(name string) *value.SpinnerStyle {
 	return style
 }
 
-// AvailableStyles returns a list of all available spinner style names.
+// AvailableStyles returns a list of all available spinner style names, in alphabetical order.
 func AvailableStyles() []string {
 	styles := make([]string, 0, len(styleRegistry))
 	for name := range styleRegistry {
 		styles = append(styles, name)
 	}
+	sort.Strings(styles)
 	return styles
 }
-- 
2.43.0


From eb0a78d449476d1b76f76c3590705ee7884e637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 06/51] fix: forms derived from the same form no longer
 overwrite each other's fields

---
 components/form/form.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index f6a6752..b75c4eb 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -73,7 +73,8 @@ func New(title string) *Form {
 func (f *Form) Field(name, label string, fieldModel value.FieldModel, validators ...value.Validator) *Form {
 	field := value.NewField(name, label, fieldModel).WithValidators(validators...)
 
-	fields := append(f.domain.Fields(), field)
+	existing := f.domain.Fields()
+	fields := append(existing[:len(existing):len(existing)], field)
 
 	// Update field name mapping
 	newFieldNames := make(map[string]int, len(f.fieldNames)+1)
-- 
2.43.0


From 1aa5d3c6951d76f8df3cd145b3abe4b166543f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 07/51] fix: pooled screen buffers match the renderer's size
 and are taken under its lock

---
 render/internal/application/renderer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index db22005..b511933 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -294,7 +294,14 @@ func (r *Renderer) Height() int {
 
 // GetBuffer returns a buffer from the pool (for zero-allocation).
 func (r *Renderer) GetBuffer() *model.Buffer {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	buf := r.bufferPool.Get().(*model.Buffer)
+	if buf.Width() != r.width || buf.Height() != r.height {
+		// Pooled before a resize.
+		return model.NewBuffer(r.width, r.height)
+	}
 	buf.Clear()
 	return buf
 }
-- 
2.43.0


From f655282a3cf1b6236880ba15e45bfec42434764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 08/51] fix: messages of a batch or sequence are handled
 without waiting for queue space

---
 tea/internal/application/program/program.go | 123 +++++++++-----------
 1 file changed, 52 insertions(+), 71 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 34e1a5b..bb3be25 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -205,46 +205,10 @@ func (p *Program[T]) Run() error {
 	for {
 		select {
 		case msg := <-p.msgCh:
-			// Check for quit
-			if _, isQuit := msg.(model2.QuitMsg); isQuit {
+			if p.handleMessage(msg) {
 				return nil // Exit loop
 			}
 
-			// Handle BatchMsg - expand to individual messages
-			if batchMsg, ok := msg.(model2.BatchMsg); ok {
-				for _, m := range batchMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Handle SequenceMsg - expand to individual messages (in order)
-			if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-				for _, m := range seqMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-			if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-				if p.inlineRenderer != nil {
-					p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-				}
-			}
-
-			// Update model
-			newModel, cmd := p.model.Update(msg)
-			p.model = newModel
-
-			// Execute command (if any)
-			if cmd != nil {
-				p.executeCommand(cmd)
-			}
-
-			// Render view
-			p.renderView()
-
 		case <-p.quitCh:
 			return nil // External quit signal
 		}
@@ -331,43 +295,10 @@ func (p *Program[T]) Start() error {
 		for {
 			select {
 			case msg := <-p.msgCh:
-				if _, isQuit := msg.(model2.QuitMsg); isQuit {
+				if p.handleMessage(msg) {
 					return
 				}
 
-				// Handle BatchMsg
-				if batchMsg, ok := msg.(model2.BatchMsg); ok {
-					for _, m := range batchMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Handle SequenceMsg
-				if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-					for _, m := range seqMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
-
-				// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-				if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-					if p.inlineRenderer != nil {
-						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-					}
-				}
-
-				// Update
-				newModel, cmd := p.model.Update(msg)
-				p.model = newModel
-
-				if cmd != nil {
-					p.executeCommand(cmd)
-				}
-
-				p.renderView()
-
 			case <-p.quitCh:
 				return
 			}
@@ -377,6 +308,56 @@ func (p *Program[T]) Start() error {
 	return nil
 }
 
+// handleMessage processes one message in the event loop.
+// It reports true when the message asks the program to quit.
+//
+// The messages of a batch or sequence are processed here, one after the other.
+// They must not be put back into msgCh: the event loop is its only reader, so
+// it would wait for itself as soon as the channel is full.
+func (p *Program[T]) handleMessage(msg model2.Msg) bool {
+	switch m := msg.(type) {
+	case model2.QuitMsg:
+		return true
+
+	case model2.BatchMsg:
+		// Expand to individual messages
+		for _, inner := range m.Messages {
+			if p.handleMessage(inner) {
+				return true
+			}
+		}
+		return false
+
+	case model2.SequenceMsg:
+		// Expand to individual messages (in order)
+		for _, inner := range m.Messages {
+			if p.handleMessage(inner) {
+				return true
+			}
+		}
+		return false
+
+	case model2.WindowSizeMsg:
+		// Intercept WindowSizeMsg to keep inline renderer dimensions current.
+		if !p.altScreen && p.inlineRenderer != nil {
+			p.inlineRenderer.Resize(m.Width, m.Height)
+		}
+	}
+
+	// Update model
+	newModel, cmd := p.model.Update(msg)
+	p.model = newModel
+
+	// Execute command (if any)
+	if cmd != nil {
+		p.executeCommand(cmd)
+	}
+
+	// Render view
+	p.renderView()
+	return false
+}
+
 // Stop stops a running program gracefully.
 // Blocks until the program has fully stopped.
 //
-- 
2.43.0


From 1aa510a3349b6c27956486b9be0332cc2b5f378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 09/51] fix: a quit request is kept until the event loop takes
 it, and only the loop takes it

---
 tea/internal/application/program/program.go | 40 ++++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index bb3be25..a352bf0 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -69,6 +69,10 @@ type Program[T any] struct {
 	// Quit channel
 	quitCh chan struct{}
 
+	// Closed when the current run ends; releases goroutines that would
+	// otherwise wait for the event loop to take their result.
+	done chan struct{}
+
 	// Inline renderer for non-alt-screen mode.
 	// Initialized lazily in renderView() on the first render call.
 	// Tracks linesRendered so subsequent renders overwrite the previous frame
@@ -101,9 +105,9 @@ type suspendedState struct {
 func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 	p := &Program[T]{
 		model:  m,
-		input:  os.Stdin,  // Default
-		output: os.Stdout, // Default
-		quitCh: make(chan struct{}),
+		input:  os.Stdin,                   // Default
+		output: os.Stdout,                  // Default
+		quitCh: make(chan struct{}, 1),     // Holds one pending quit request
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
@@ -148,6 +152,7 @@ func (p *Program[T]) Run() error {
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
+	p.beginRun()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -170,6 +175,7 @@ func (p *Program[T]) Run() error {
 		}
 
 		p.running = false
+		close(p.done)
 		p.mu.Unlock()
 	}()
 
@@ -239,6 +245,7 @@ func (p *Program[T]) Start() error {
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
+	p.beginRun()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -261,6 +268,7 @@ func (p *Program[T]) Start() error {
 			}
 
 			p.running = false
+			close(p.done)
 			p.mu.Unlock()
 		}()
 
@@ -308,6 +316,17 @@ func (p *Program[T]) Start() error {
 	return nil
 }
 
+// beginRun prepares the channels for a new run. The caller holds p.mu.
+func (p *Program[T]) beginRun() {
+	p.done = make(chan struct{})
+
+	// Drop a quit request that was meant for an earlier run
+	select {
+	case <-p.quitCh:
+	default:
+	}
+}
+
 // handleMessage processes one message in the event loop.
 // It reports true when the message asks the program to quit.
 //
@@ -385,10 +404,8 @@ func (p *Program[T]) Stop() {
 	for {
 		select {
 		case <-timeout:
-			// Timeout - force stop
-			p.mu.Lock()
-			p.running = false
-			p.mu.Unlock()
+			// Timeout - the event loop is busy. The quit request stays
+			// pending and ends the run as soon as the loop gets to it.
 			return
 		case <-ticker.C:
 			p.mu.Lock()
@@ -463,13 +480,17 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 
 // executeCommand runs a command in a goroutine and sends result to msgCh.
 func (p *Program[T]) executeCommand(cmd model2.Cmd) {
+	p.mu.Lock()
+	done := p.done
+	p.mu.Unlock()
+
 	go func() {
 		msg := cmd() // Execute command (may block)
 
 		// Send result back to event loop
 		select {
 		case p.msgCh <- msg:
-		case <-p.quitCh:
+		case <-done:
 			// Program quitting, don't send
 		}
 	}()
@@ -522,6 +543,7 @@ func (p *Program[T]) startInputReader() {
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
+	done := p.done                        // End of the current run
 	p.mu.Unlock()
 
 	go func() {
@@ -566,7 +588,7 @@ func (p *Program[T]) startInputReader() {
 			case p.msgCh <- msg:
 			case <-ctx.Done():
 				return
-			case <-p.quitCh:
+			case <-done:
 				return
 			}
 		}
-- 
2.43.0


From 27e26d17f31dbb7ba23b64d52c8b4463873bf092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 10/51] fix: the input goroutine closes its own channel and
 releases its reader

---
 tea/internal/application/program/program.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index a352bf0..c9f3b75 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -531,15 +531,17 @@ func (p *Program[T]) renderView() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	p.inputReader = input.NewReader(p.input)
+	reader := input.NewReader(p.input)
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
 
 	// Set state under mutex protection
 	p.mu.Lock()
+	readerDone := make(chan struct{})
+	p.inputReader = reader
 	p.inputReaderCancel = cancel
-	p.inputReaderDone = make(chan struct{})
+	p.inputReaderDone = readerDone
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
@@ -548,8 +550,12 @@ func (p *Program[T]) startInputReader() {
 
 	go func() {
 		defer func() {
+			// Release the reader's pipe (it is still open after EOF)
+			reader.Cancel()
+			reader.WaitForShutdown()
+
 			// Signal that goroutine has exited
-			close(p.inputReaderDone)
+			close(readerDone)
 
 			// Only clear state if we're still the current generation
 			// (prevents race with restart after stop timeout)
@@ -572,7 +578,7 @@ func (p *Program[T]) startInputReader() {
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := p.inputReader.Read()
+			msg, err := reader.Read()
 			if err != nil {
 				// EOF or error - stop reading
 				return
-- 
2.43.0


From e3378544f42358bced18244c92bb6978584b982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 11/51] fix: the end of a run stops input reading and shows a
 cursor hidden by Resume

---
 tea/internal/application/program/program.go | 39 ++++++++++++++++-----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index c9f3b75..eef2dcf 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -82,6 +82,7 @@ type Program[T any] struct {
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
+	cursorHidden bool            // True if Resume hid the cursor
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -162,6 +163,8 @@ func (p *Program[T]) Run() error {
 
 	// Cleanup on exit
 	defer func() {
+		p.stopInputReader()
+
 		p.mu.Lock()
 
 		// Exit raw mode if we're in it
@@ -174,8 +177,8 @@ func (p *Program[T]) Run() error {
 			_ = p.terminal.ExitAltScreen() // Best effort cleanup
 		}
 
+		p.endRun()
 		p.running = false
-		close(p.done)
 		p.mu.Unlock()
 	}()
 
@@ -255,6 +258,8 @@ func (p *Program[T]) Start() error {
 
 	go func() {
 		defer func() {
+			p.stopInputReader()
+
 			p.mu.Lock()
 
 			// Exit raw mode if we're in it
@@ -267,8 +272,8 @@ func (p *Program[T]) Start() error {
 				_ = p.terminal.ExitAltScreen() // Best effort cleanup
 			}
 
+			p.endRun()
 			p.running = false
-			close(p.done)
 			p.mu.Unlock()
 		}()
 
@@ -327,6 +332,21 @@ func (p *Program[T]) beginRun() {
 	}
 }
 
+// endRun shows a cursor hidden by Resume, forgets a suspension that is still
+// in effect (a late Resume must not change the terminal any more) and releases
+// the goroutines waiting for the event loop. The caller holds p.mu.
+func (p *Program[T]) endRun() {
+	if p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+
+	p.suspended = false
+	p.suspendState = nil
+
+	close(p.done)
+}
+
 // handleMessage processes one message in the event loop.
 // It reports true when the message asks the program to quit.
 //
@@ -772,6 +792,7 @@ func (p *Program[T]) Suspend() error {
 		// Non-fatal - continue anyway
 		// Some terminals may not support cursor control
 	}
+	p.cursorHidden = false
 
 	// Mark as suspended and save state
 	p.suspended = true
@@ -817,29 +838,31 @@ func (p *Program[T]) Resume() error {
 		p.mu.Unlock()
 		return nil
 	}
-	p.mu.Unlock()
 
 	// STEP 1: Hide cursor (restore TUI cursor state)
-	p.mu.Lock()
 	if err := p.terminal.HideCursor(); err != nil {
 		// Non-fatal - continue anyway
 	}
-	p.mu.Unlock()
+	p.cursorHidden = true
 
 	// STEP 2: Re-enter alternate screen (if was active before)
-	p.mu.Lock()
 	if state.wasInAltScreen {
 		if err := p.terminal.EnterAltScreen(); err != nil {
+			_ = p.terminal.ShowCursor() // Stay suspended
+			p.cursorHidden = false
 			p.mu.Unlock()
 			return fmt.Errorf("resume: failed to restore alt screen: %w", err)
 		}
 	}
-	p.mu.Unlock()
 
 	// STEP 3: Re-enter raw mode (if was active before)
-	p.mu.Lock()
 	if state.wasInRawMode {
 		if err := p.terminal.EnterRawMode(); err != nil {
+			if state.wasInAltScreen {
+				_ = p.terminal.ExitAltScreen() // Stay suspended
+			}
+			_ = p.terminal.ShowCursor()
+			p.cursorHidden = false
 			p.mu.Unlock()
 			return fmt.Errorf("resume: failed to restore raw mode: %w", err)
 		}
-- 
2.43.0


From cb94426e2a4fb8fdaa802964bd552644a22f5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 12/51] fix: a child killed because it could not get the
 terminal is waited for

---
 tea/internal/application/program/tty_control_darwin.go | 1 +
 tea/internal/application/program/tty_control_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index 1c74ba8..1c6b608 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -118,6 +118,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
+			_ = cmd.Wait() // Reap the child and close its pipes
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 316915c..0036eb7 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -118,6 +118,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
+			_ = cmd.Wait() // Reap the child and close its pipes
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
-- 
2.43.0


From 6ad17fb9c460b745bde36cbab679da9663eeaab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 13/51] fix: a panic in a command leaves the terminal as it was
 found

---
 tea/internal/application/program/program.go | 33 +++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index eef2dcf..2397a7f 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -347,6 +347,29 @@ func (p *Program[T]) endRun() {
 	close(p.done)
 }
 
+// restoreTerminal leaves raw mode and the alternate screen and shows the cursor.
+func (p *Program[T]) restoreTerminal() {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.terminal == nil {
+		return
+	}
+
+	if p.terminal.IsInRawMode() {
+		_ = p.terminal.ExitRawMode() // Best effort cleanup
+	}
+
+	if p.altScreen && p.terminal.IsInAltScreen() {
+		_ = p.terminal.ExitAltScreen() // Best effort cleanup
+	}
+
+	if p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+}
+
 // handleMessage processes one message in the event loop.
 // It reports true when the message asks the program to quit.
 //
@@ -505,7 +528,17 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 	p.mu.Unlock()
 
 	go func() {
+		// A panic in a command ends the process without returning to the
+		// event loop, so the terminal has to be restored from here.
+		completed := false
+		defer func() {
+			if !completed {
+				p.restoreTerminal()
+			}
+		}()
+
 		msg := cmd() // Execute command (may block)
+		completed = true
 
 		// Send result back to event loop
 		select {
-- 
2.43.0


From ebad0869297bad98c2e904164fc4c06279f5ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 14/51] fix: resuming redraws without racing with the event
 loop

---
 tea/internal/application/program/program.go | 28 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 2397a7f..bdb34a7 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -79,6 +79,10 @@ type Program[T any] struct {
 	// instead of appending below it.
 	inlineRenderer *renderer.InlineRenderer
 
+	// Serializes drawing: the event loop and Resume, which runs on the
+	// goroutine of an external command, both draw. Guards inlineRenderer.
+	renderMu sync.Mutex
+
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
@@ -200,7 +204,7 @@ func (p *Program[T]) Run() error {
 	p.mu.Unlock()
 
 	// STEP 1: Call Init() to get initial command
-	initCmd := p.model.Init()
+	initCmd := p.currentModel().Init()
 	if initCmd != nil {
 		p.executeCommand(initCmd)
 	}
@@ -296,7 +300,7 @@ func (p *Program[T]) Start() error {
 		p.mu.Unlock()
 
 		// Same event loop as Run(), but in goroutine
-		initCmd := p.model.Init()
+		initCmd := p.currentModel().Init()
 		if initCmd != nil {
 			p.executeCommand(initCmd)
 		}
@@ -401,14 +405,18 @@ func (p *Program[T]) handleMessage(msg model2.Msg) bool {
 
 	case model2.WindowSizeMsg:
 		// Intercept WindowSizeMsg to keep inline renderer dimensions current.
+		p.renderMu.Lock()
 		if !p.altScreen && p.inlineRenderer != nil {
 			p.inlineRenderer.Resize(m.Width, m.Height)
 		}
+		p.renderMu.Unlock()
 	}
 
 	// Update model
-	newModel, cmd := p.model.Update(msg)
+	newModel, cmd := p.currentModel().Update(msg)
+	p.mu.Lock()
 	p.model = newModel
+	p.mu.Unlock()
 
 	// Execute command (if any)
 	if cmd != nil {
@@ -549,6 +557,13 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 	}()
 }
 
+// currentModel returns the model as of the last update.
+func (p *Program[T]) currentModel() model2.Model[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.model
+}
+
 // renderView renders the current model's view to output.
 //
 // In inline (non-alt-screen) mode the InlineRenderer is used to overwrite
@@ -558,7 +573,10 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 // In alt-screen mode a plain write is used; the alt-screen renderer will be
 // integrated in a future release.
 func (p *Program[T]) renderView() {
-	view := p.model.View()
+	p.renderMu.Lock()
+	defer p.renderMu.Unlock()
+
+	view := p.currentModel().View()
 
 	if !p.altScreen {
 		// Lazily initialize the inline renderer on the first call.
@@ -913,9 +931,11 @@ func (p *Program[T]) Resume() error {
 	// Clear the inline renderer diff cache so all lines are repainted.
 	// The external command may have written arbitrary content to the terminal,
 	// invalidating our previous frame tracking.
+	p.renderMu.Lock()
 	if p.inlineRenderer != nil {
 		p.inlineRenderer.Repaint()
 	}
+	p.renderMu.Unlock()
 	p.renderView()
 
 	return nil
-- 
2.43.0


From 6560c23bef830164f7fb13cbbc240ae7859dbd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 15/51] fix: input reading starts before the init command can
 suspend the program

---
 tea/internal/application/program/program.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index bdb34a7..adc236d 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -203,13 +203,14 @@ func (p *Program[T]) Run() error {
 	}
 	p.mu.Unlock()
 
+	// Start input reader (before Init, whose command may suspend the program)
+	p.startInputReader()
+
 	// STEP 1: Call Init() to get initial command
 	initCmd := p.currentModel().Init()
 	if initCmd != nil {
 		p.executeCommand(initCmd)
 	}
-	// Start input reader
-	p.startInputReader()
 
 	// STEP 2: Render initial view
 	p.renderView()
@@ -299,13 +300,14 @@ func (p *Program[T]) Start() error {
 		}
 		p.mu.Unlock()
 
+		// Start input reader (before Init, whose command may suspend the program)
+		p.startInputReader()
+
 		// Same event loop as Run(), but in goroutine
 		initCmd := p.currentModel().Init()
 		if initCmd != nil {
 			p.executeCommand(initCmd)
 		}
-		// Start input reader
-		p.startInputReader()
 
 		p.renderView()
 
-- 
2.43.0


From 2c5108e29efe387ba8fe2bcc6f4a6428f2d3dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 16/51] fix: a panic in a batched command leaves the terminal
 as it was found

---
 tea/internal/domain/model/cmd.go | 28 ++++++++++++++++++++++++----
 tea/tea.go                       | 24 +++++++++++++++++++++---
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/tea/internal/domain/model/cmd.go b/tea/internal/domain/model/cmd.go
index 9b6b1af..3df8e5d 100644
--- a/tea/internal/domain/model/cmd.go
+++ b/tea/internal/domain/model/cmd.go
@@ -1,6 +1,9 @@
 package model
 
-import "fmt"
+import (
+	"fmt"
+	"runtime/debug"
+)
 
 // Cmd is a function that produces a message asynchronously.
 //
@@ -21,6 +24,12 @@ import "fmt"
 // Commands can be combined using Batch (parallel) or Sequence (sequential).
 type Cmd func() Msg
 
+// batchResult is the outcome of one command of a batch.
+type batchResult struct {
+	msg      Msg
+	panicked string // Panic value and stack trace, if the command panicked
+}
+
 // Batch executes multiple commands concurrently and collects their results.
 //
 // Commands run in parallel via goroutines, and messages are collected into
@@ -62,19 +71,30 @@ func Batch(cmds ...Cmd) Cmd {
 
 	// Multiple commands: run in parallel
 	return func() Msg {
-		results := make(chan Msg, len(filtered))
+		results := make(chan batchResult, len(filtered))
 
 		// Launch all commands in parallel
 		for _, cmd := range filtered {
 			go func(c Cmd) {
-				results <- c()
+				// A panic is handed to the goroutine running the batch, which
+				// restores the terminal before the process ends
+				defer func() {
+					if v := recover(); v != nil {
+						results <- batchResult{panicked: fmt.Sprintf("%v\n\n%s", v, debug.Stack())}
+					}
+				}()
+				results <- batchResult{msg: c()}
 			}(cmd)
 		}
 
 		// Collect all results
 		msgs := make([]Msg, 0, len(filtered))
 		for i := 0; i < len(filtered); i++ {
-			msgs = append(msgs, <-results)
+			result := <-results
+			if result.panicked != "" {
+				panic(result.panicked)
+			}
+			msgs = append(msgs, result.msg)
 		}
 
 		return BatchMsg{Messages: msgs}
diff --git a/tea/tea.go b/tea/tea.go
index 511f976..eb25a93 100644
--- a/tea/tea.go
+++ b/tea/tea.go
@@ -126,6 +126,7 @@ import (
 	"fmt"
 	"io"
 	"os/exec"
+	"runtime/debug"
 	"time"
 
 	program2 "github.com/phoenix-tui/phoenix/tea/internal/application/program"
@@ -431,6 +432,12 @@ func Tick(d time.Duration) Cmd {
 	}
 }
 
+// batchResult is the outcome of one command of a batch.
+type batchResult struct {
+	msg      Msg
+	panicked string // Panic value and stack trace, if the command panicked
+}
+
 // Batch executes multiple commands concurrently.
 //
 // Commands run in parallel via goroutines, and messages are collected into
@@ -472,19 +479,30 @@ func Batch(cmds ...Cmd) Cmd {
 
 	// Multiple commands: run in parallel
 	return func() Msg {
-		results := make(chan Msg, len(filtered))
+		results := make(chan batchResult, len(filtered))
 
 		// Launch all commands in parallel
 		for _, cmd := range filtered {
 			go func(c Cmd) {
-				results <- c()
+				// A panic is handed to the goroutine running the batch, which
+				// restores the terminal before the process ends
+				defer func() {
+					if v := recover(); v != nil {
+						results <- batchResult{panicked: fmt.Sprintf("%v\n\n%s", v, debug.Stack())}
+					}
+				}()
+				results <- batchResult{msg: c()}
 			}(cmd)
 		}
 
 		// Collect all results
 		msgs := make([]Msg, 0, len(filtered))
 		for i := 0; i < len(filtered); i++ {
-			msgs = append(msgs, <-results)
+			result := <-results
+			if result.panicked != "" {
+				panic(result.panicked)
+			}
+			msgs = append(msgs, result.msg)
 		}
 
 		return BatchMsg{Messages: msgs}
-- 
2.43.0


From 91e3ca0de8ba095a3af1a761250c26bfe91f7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 17/51] fix: relative cursor moves read the writer's position
 under its lock

---
 render/internal/infrastructure/ansi/writer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index dacd7b7..53632c8 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -48,6 +48,11 @@ func (w *Writer) MoveCursor(x, y int) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	return w.moveCursor(x, y)
+}
+
+// moveCursor moves cursor to position. The caller holds w.mu.
+func (w *Writer) moveCursor(x, y int) error {
 	if x == w.currentX && y == w.currentY {
 		return nil // Already at position
 	}
@@ -64,7 +69,10 @@ func (w *Writer) MoveCursor(x, y int) error {
 
 // MoveCursorRelative moves cursor relative to current position.
 func (w *Writer) MoveCursorRelative(dx, dy int) error {
-	return w.MoveCursor(w.currentX+dx, w.currentY+dy)
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	return w.moveCursor(w.currentX+dx, w.currentY+dy)
 }
 
 // SetStyle sets the current text style.
-- 
2.43.0


From bb4f7b426539f9a8d7a2ec78b3c44bed9882ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 18/51] fix: free the clipboard memory the system did not take
 over (Windows)

---
 clipboard/internal/infrastructure/native/clipboard_windows.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clipboard/internal/infrastructure/native/clipboard_windows.go b/clipboard/internal/infrastructure/native/clipboard_windows.go
index 4909ac4..2e7b6c4 100644
--- a/clipboard/internal/infrastructure/native/clipboard_windows.go
+++ b/clipboard/internal/infrastructure/native/clipboard_windows.go
@@ -133,12 +133,15 @@ func (p *Provider) Write(content *model.ClipboardContent) error {
 	// Empty clipboard
 	ret, _, err = emptyClipboard.Call()
 	if ret == 0 {
+		_, _, _ = globalFree.Call(handle) // Explicit ignore: cleanup in error path
 		return fmt.Errorf("failed to empty clipboard: %w", err)
 	}
 
 	// Set clipboard data
 	ret, _, err = setClipboardData.Call(cfUnicodeText, handle)
 	if ret == 0 {
+		// The system takes ownership of the memory only on success.
+		_, _, _ = globalFree.Call(handle) // Explicit ignore: cleanup in error path
 		return fmt.Errorf("failed to set clipboard data: %w", err)
 	}
 
-- 
2.43.0


From d639400916605a5bbd24e8858d1a05bd40ea8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 19/51] fix: restore the console mode changed for a child
 process (Windows)

---
 .../application/program/tty_control_windows.go       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tea/internal/application/program/tty_control_windows.go b/tea/internal/application/program/tty_control_windows.go
index 9c7395b..c2247b9 100644
--- a/tea/internal/application/program/tty_control_windows.go
+++ b/tea/internal/application/program/tty_control_windows.go
@@ -38,7 +38,8 @@ type TTYOptions struct {
 //  4. Create new process group (if requested)
 //  5. Setup command I/O
 //  6. Run child process
-//  7. Resume TUI (restore raw mode, alt screen, restart input)
+//  7. Restore the saved console mode
+//  8. Resume TUI (restore raw mode, alt screen, restart input)
 //
 // Returns error if command execution or console control fails.
 func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
@@ -91,7 +92,14 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	// STEP 7: Run child process (BLOCKING)
 	cmdErr := cmd.Run()
 
-	// STEP 8: Resume TUI (restore raw mode, alt screen, restart input, redraw)
+	// STEP 8: Give the console its own mode back before EnterRawMode() saves it
+	// as the mode to restore when the program ends.
+	if err := windows.SetConsoleMode(consoleHandle, originalMode); err != nil {
+		// Non-fatal - continue anyway
+		log.Printf("WARNING: SetConsoleMode failed: %v - console mode not restored", err)
+	}
+
+	// STEP 9: Resume TUI (restore raw mode, alt screen, restart input, redraw)
 	// ALWAYS resume, even if command failed.
 	// NOTE: No defer SetConsoleMode(originalMode) — Resume() calls EnterRawMode()
 	// which sets the correct console flags. A defer would fire AFTER Resume(),
-- 
2.43.0


From e95fc1e40ddc895ed5353c5acc9488871b117953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 20/51] fix: keep the renderer's size and buffers when Resize
 fails

---
 render/internal/application/renderer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index b511933..76fe9ce 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -226,6 +226,12 @@ func (r *Renderer) Resize(width, height int) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	// Clear first: when the terminal cannot be written, the renderer keeps its
+	// old size and buffers instead of a new size it has not applied.
+	if err := r.clearUnlocked(); err != nil { // Use unlocked version to avoid deadlock
+		return err
+	}
+
 	r.width = width
 	r.height = height
 
@@ -238,7 +244,7 @@ func (r *Renderer) Resize(width, height int) error {
 		return model.NewBuffer(width, height)
 	}
 
-	return r.clearUnlocked() // Use unlocked version to avoid deadlock
+	return nil
 }
 
 // HideCursor hides the terminal cursor.
-- 
2.43.0


From 2aa5455377ee5e452f5e305f4377d07b5fe6c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 21/51] fix: read the byte after the SS3 introducer, so F1-F4
 are one key

---
 tea/internal/infrastructure/input/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index fc192f5..40a93ed 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -101,6 +101,12 @@ func (ir *Reader) Read() (model.Msg, error) {
 				}
 				seq = append(seq, nextByte)
 
+				// SS3 introducer (ESC O): the key code follows
+				// (F1-F4 in most terminals are ESC O P ... ESC O S).
+				if i == 0 && nextByte == 'O' {
+					continue
+				}
+
 				// Stop if we hit a letter or tilde (end of most sequences)
 				if (nextByte >= 'A' && nextByte <= 'Z') ||
 					(nextByte >= 'a' && nextByte <= 'z') ||
-- 
2.43.0


From fcd5963fb2a990ae26c1805480494dde92c0d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 22/51] fix: let Disable turn the mouse mode off after a partly
 failed Enable

---
 mouse/internal/infrastructure/platform/terminal_mode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mouse/internal/infrastructure/platform/terminal_mode.go b/mouse/internal/infrastructure/platform/terminal_mode.go
index a3adad4..352f9ef 100644
--- a/mouse/internal/infrastructure/platform/terminal_mode.go
+++ b/mouse/internal/infrastructure/platform/terminal_mode.go
@@ -38,6 +38,10 @@ func (t *TerminalMode) Enable(mode ansi.MouseMode) error {
 		return fmt.Errorf("failed to enable mouse tracking: %w", err)
 	}
 
+	// The mode is on from here: if a later write fails, Disable must still turn it off.
+	t.enabled = true
+	t.mode = mode
+
 	// Also enable button-motion tracking for drag support
 	if mode == ansi.ModeSGR {
 		seq = ansi.EnableMouseTracking(ansi.ModeButtonMotion)
@@ -46,8 +50,6 @@ func (t *TerminalMode) Enable(mode ansi.MouseMode) error {
 		}
 	}
 
-	t.enabled = true
-	t.mode = mode
 	return nil
 }
 
-- 
2.43.0


From 3f4e2f635a31c77d4e8d79fd75ca10dbeb6ec9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 23/51] fix: DisableAll turns off the mouse mode that is active

---
 mouse/internal/infrastructure/platform/terminal_mode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mouse/internal/infrastructure/platform/terminal_mode.go b/mouse/internal/infrastructure/platform/terminal_mode.go
index 352f9ef..553416c 100644
--- a/mouse/internal/infrastructure/platform/terminal_mode.go
+++ b/mouse/internal/infrastructure/platform/terminal_mode.go
@@ -114,6 +114,10 @@ func (t *TerminalMode) DisableAll() error {
 
 	// Write disable sequence
 	seq := ansi.DisableMouseAll()
+	if t.mode != ansi.ModeSGR {
+		// Enable may have set a mode DisableMouseAll does not cover.
+		seq = ansi.DisableMouseTracking(t.mode) + seq
+	}
 	if _, err := os.Stdout.WriteString(seq); err != nil {
 		return fmt.Errorf("failed to disable mouse tracking: %w", err)
 	}
-- 
2.43.0


From e8575b4c3a2f1f3208735c9fb3ac180f9bb7de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:40 +0000
Subject: [PATCH 24/51] fix: input shows whole characters that fit when the
 content is wider than the field

The visible part was cut with byte offsets computed from the grapheme cursor
position, which cut characters apart and panicked for widths of zero or less.
---
 components/input/input.go | 92 ++++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/components/input/input.go b/components/input/input.go
index 1eef6a5..3ea5bcf 100644
--- a/components/input/input.go
+++ b/components/input/input.go
@@ -2,11 +2,14 @@
 package input
 
 import (
+	"strings"
+
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/model"
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/service"
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Input is the public API for the TextInput component.
@@ -202,64 +205,65 @@ func (i Input) renderPlaceholder() string {
 func (i Input) renderContent() string {
 	before, at, after := i.domain.ContentParts()
 
-	// Calculate visible portion based on width.
-	content := before + at + after
+	width := i.domain.Width()
 
-	if len(content) <= i.domain.Width() {
+	if uniseg.StringWidth(before+at+after) <= width {
 		// Content fits, render cursor.
 		if i.domain.Focused() {
 			return before + i.renderCursor(at) + after
 		}
-		return content
+		return before + at + after
 	}
 
-	// Content too long, needs scrolling.
-	// Simple approach: keep cursor in view.
-	cursorPos := i.domain.CursorPosition()
-	width := i.domain.Width()
-
-	// Calculate scroll offset to keep cursor visible.
-	scrollOffset := i.domain.ScrollOffset()
-
-	// Adjust scroll if cursor is out of view.
-	if cursorPos < scrollOffset {
-		scrollOffset = cursorPos
+	// Content too long, needs scrolling: show only whole grapheme clusters, keep cursor in view.
+	// A cursor behind the last character, or on one that has no width, takes one column.
+	cursorWidth := uniseg.StringWidth(at)
+	if cursorWidth == 0 {
+		cursorWidth = 1
 	}
-	if cursorPos >= scrollOffset+width {
-		scrollOffset = cursorPos - width + 1
+	if cursorWidth > width {
+		return ""
 	}
 
-	// Extract visible portion.
-	// Note: Uses byte offsets for simplicity - works for ASCII and most Unicode.
-	// For complex grapheme clusters (emoji with modifiers), phoenix/core UnicodeService
-	// should be used, but that's a future optimization.
-	visibleStart := scrollOffset
-	visibleEnd := scrollOffset + width
-	if visibleEnd > len(content) {
-		visibleEnd = len(content)
+	// Before the cursor: as many clusters as fit, but none that are scrolled out of view.
+	clusters := graphemeClusters(before)
+	free := width - cursorWidth
+	start := len(clusters)
+	for start > i.domain.ScrollOffset() && start > 0 {
+		w := uniseg.StringWidth(clusters[start-1])
+		if w > free {
+			break
+		}
+		free -= w
+		start--
 	}
-
-	visibleContent := content[visibleStart:visibleEnd]
-
-	// Render cursor if in visible range.
-	//nolint:nestif // rendering logic requires nested conditions for cursor positioning
-	if i.domain.Focused() && cursorPos >= scrollOffset && cursorPos < scrollOffset+width {
-		cursorInVisible := cursorPos - scrollOffset
-		if cursorInVisible <= len(visibleContent) {
-			visibleBefore := visibleContent[:cursorInVisible]
-			visibleAt := ""
-			if cursorInVisible < len(visibleContent) {
-				visibleAt = string(visibleContent[cursorInVisible])
-			}
-			visibleAfter := ""
-			if cursorInVisible+1 < len(visibleContent) {
-				visibleAfter = visibleContent[cursorInVisible+1:]
-			}
-			return visibleBefore + i.renderCursor(visibleAt) + visibleAfter
+	visibleBefore := strings.Join(clusters[start:], "")
+
+	// After the cursor: the rest of the width.
+	var visibleAfter strings.Builder
+	for _, cluster := range graphemeClusters(after) {
+		w := uniseg.StringWidth(cluster)
+		if w > free {
+			break
 		}
+		free -= w
+		visibleAfter.WriteString(cluster)
+	}
+
+	if i.domain.Focused() {
+		at = i.renderCursor(at)
 	}
+	return visibleBefore + at + visibleAfter.String()
+}
 
-	return visibleContent
+// graphemeClusters splits text into its user-perceived characters.
+func graphemeClusters(text string) []string {
+	var clusters []string
+	gr := uniseg.NewGraphemes(text)
+	for gr.Next() {
+		clusters = append(clusters, gr.Str())
+	}
+	return clusters
 }
 
 // renderCursor renders the cursor at the current position using theme colors.
-- 
2.43.0


From 35b1718257cf99007aae5e6108161ed16ac9a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 25/51] fix: list survives negative heights when paging and
 rendering

Paging moved the focus outside the list and rendering allocated a slice of
negative capacity.
---
 components/list/internal/domain/model/list.go         | 3 +++
 components/list/internal/domain/service/navigation.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index e1f87dd..5a2b576 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -317,6 +317,9 @@ func (l *List) RenderVisibleItems() []string {
 	if start >= len(l.filteredItems) {
 		start = 0
 	}
+	if end < start {
+		end = start // Nothing is visible with a negative height.
+	}
 
 	result := make([]string, 0, end-start)
 	for i := start; i < end; i++ {
diff --git a/components/list/internal/domain/service/navigation.go b/components/list/internal/domain/service/navigation.go
index 666571d..3848e65 100644
--- a/components/list/internal/domain/service/navigation.go
+++ b/components/list/internal/domain/service/navigation.go
@@ -39,6 +39,9 @@ func (s *NavigationService) MovePageUp(currentIndex, pageSize, itemCount int) in
 	if newIndex < 0 {
 		return 0
 	}
+	if newIndex >= itemCount {
+		return itemCount - 1
+	}
 	return newIndex
 }
 
@@ -51,6 +54,9 @@ func (s *NavigationService) MovePageDown(currentIndex, pageSize, itemCount int)
 	if newIndex >= itemCount {
 		return itemCount - 1
 	}
+	if newIndex < 0 {
+		return 0
+	}
 	return newIndex
 }
 
-- 
2.43.0


From 161c06be4793c1a989880825fe42a5137ebaf289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 26/51] fix: select and multiselect render nothing with a
 negative height

The number of visible options became negative and the allocation panicked.
---
 components/multiselect/internal/domain/model/multiselect.go | 3 +++
 components/select/internal/domain/model/select.go           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 57f244e..1ecbe94 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -272,6 +272,9 @@ func (m *MultiSelect[T]) RenderVisibleOptions() []string {
 	if end > len(newM.filteredOpts) {
 		end = len(newM.filteredOpts)
 	}
+	if end < start {
+		end = start // Nothing is visible with a negative height.
+	}
 
 	// Render visible options
 	result := make([]string, end-start)
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index be2be31..a6665af 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -218,6 +218,9 @@ func (s *Select[T]) RenderVisibleOptions() []string {
 	if end > len(newS.filteredOpts) {
 		end = len(newS.filteredOpts)
 	}
+	if end < start {
+		end = start // Nothing is visible with a negative height.
+	}
 
 	// Render visible options
 	result := make([]string, end-start)
-- 
2.43.0


From 8b1a3d67c85779ccacea238ba288df3cefe1678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 27/51] fix: table without room for rows shows none

A height of zero with a header (or a negative height) panicked while slicing the rows.
---
 components/table/internal/domain/model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index 9e42ef7..d1ed915 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -280,6 +280,9 @@ func (t *Table) VisibleRows() []Row {
 	if end > len(rows) {
 		end = len(rows)
 	}
+	if end < start {
+		end = start // No room for rows below the header.
+	}
 
 	return rows[start:end]
 }
-- 
2.43.0


From ff1040e8888668aeba7c109b70f7c028af79d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 28/51] fix: table cells are measured in columns, negative
 column widths count as zero

Cells were cut and padded by bytes, which broke characters apart and columns out of line;
a negative column width panicked.
---
 .../table/internal/domain/model/column.go     |  6 ++---
 components/table/table.go                     | 26 +++++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/components/table/internal/domain/model/column.go b/components/table/internal/domain/model/column.go
index cc932b2..0aba5e4 100644
--- a/components/table/internal/domain/model/column.go
+++ b/components/table/internal/domain/model/column.go
@@ -21,7 +21,7 @@ func NewColumn(key, title string, width int) *Column {
 	return &Column{
 		key:       key,
 		title:     title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: value.AlignmentLeft,
 		sortable:  false,
 		renderer:  nil,
@@ -33,7 +33,7 @@ func NewColumnWithAlignment(key, title string, width int, alignment value.Alignm
 	return &Column{
 		key:       key,
 		title:     title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: alignment,
 		sortable:  false,
 		renderer:  nil,
@@ -45,7 +45,7 @@ func (c *Column) WithWidth(width int) *Column {
 	return &Column{
 		key:       c.key,
 		title:     c.title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: c.alignment,
 		sortable:  c.sortable,
 		renderer:  c.renderer,
diff --git a/components/table/table.go b/components/table/table.go
index f5dfd4f..54631d8 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -21,6 +21,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/table/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Column defines a table column.
@@ -296,7 +297,8 @@ func (t *Table) View() string {
 			// Add selection indicator.
 			if isSelected && colIdx == 0 {
 				if cell != "" {
-					cell = ">" + cell[1:]
+					_, rest, width, _ := uniseg.FirstGraphemeClusterInString(cell, -1)
+					cell = ">" + strings.Repeat(" ", max(width-1, 0)) + rest
 				}
 			}
 
@@ -315,16 +317,16 @@ func (t *Table) View() string {
 // formatCell formats a cell with alignment and width.
 func (t *Table) formatCell(text string, width int, alignment value2.Alignment) string {
 	// Truncate if too long.
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			text = text[:width-3] + "..."
+			text = truncate(text, width-3) + "..."
 		} else {
-			text = text[:width]
+			text = truncate(text, width)
 		}
 	}
 
 	// Pad based on alignment.
-	padding := width - len(text)
+	padding := width - uniseg.StringWidth(text)
 	if padding <= 0 {
 		return text
 	}
@@ -343,6 +345,20 @@ func (t *Table) formatCell(text string, width int, alignment value2.Alignment) s
 	}
 }
 
+// truncate returns the whole characters of text that fit in width columns.
+func truncate(text string, width int) string {
+	var result strings.Builder
+	gr := uniseg.NewGraphemes(text)
+	for gr.Next() {
+		width -= uniseg.StringWidth(gr.Str())
+		if width < 0 {
+			break
+		}
+		result.WriteString(gr.Str())
+	}
+	return result.String()
+}
+
 // SelectedRow returns the currently selected row.
 func (t *Table) SelectedRow() Row {
 	return Row(t.domain.SelectedRow())
-- 
2.43.0


From b4b76dc518bf077c4deef95d01408fca4aa65f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 29/51] fix: text area with a negative height shows no lines

VisibleLines panicked while slicing the lines.
---
 components/input/internal/textarea/domain/model/textarea.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index c895a3a..c211b14 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -222,6 +222,10 @@ func (t *TextArea) VisibleLines() []string {
 		return []string{}
 	}
 
+	if end < start {
+		end = start // Nothing is visible with a negative height.
+	}
+
 	return lines[start:end]
 }
 
-- 
2.43.0


From 3cbacdae7dedbaf0d913241fbd482aaf5cbffb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 30/51] fix: modal narrower than its frame renders instead of
 panicking, texts are measured in columns

Widths below two made negative repetitions; titles, content and buttons were cut
and padded by bytes.
---
 components/modal/modal.go | 44 ++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 2824674..18b57b6 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -23,6 +23,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/modal/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	tea "github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Button defines a modal action button.
@@ -336,20 +337,24 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 func (m *Modal) renderModalBox(x, y, width, height int) string {
 	var b strings.Builder
 
+	// Columns between the borders and for text; none in a modal narrower than its frame.
+	innerWidth := max(width-2, 0)
+	textWidth := max(width-4, 0)
+
 	// Position cursor at modal location.
 	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+1, x+1)) // ANSI cursor positioning (1-indexed)
 
 	// Top border.
-	b.WriteString("┌" + strings.Repeat("─", width-2) + "┐\n")
+	b.WriteString("┌" + strings.Repeat("─", innerWidth) + "┐\n")
 
 	// Title row (if title exists)
 	if m.domain.Title() != "" {
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+2, x+1))
-		b.WriteString("│ " + m.padOrTruncate(m.domain.Title(), width-4) + " │\n")
+		b.WriteString("│ " + m.padOrTruncate(m.domain.Title(), textWidth) + " │\n")
 
 		// Title separator.
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+3, x+1))
-		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
+		b.WriteString("├" + strings.Repeat("─", innerWidth) + "┤\n")
 	}
 
 	// Content area.
@@ -366,23 +371,23 @@ func (m *Modal) renderModalBox(x, y, width, height int) string {
 
 	for i := 0; i < contentHeight && i < len(contentLines); i++ {
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", contentStartY+i, x+1))
-		b.WriteString("│ " + m.padOrTruncate(contentLines[i], width-4) + " │\n")
+		b.WriteString("│ " + m.padOrTruncate(contentLines[i], textWidth) + " │\n")
 	}
 
 	// Buttons (if any)
 	if len(m.domain.Buttons()) > 0 {
 		buttonY := y + height - 3
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
-		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
+		b.WriteString("├" + strings.Repeat("─", innerWidth) + "┤\n")
 
 		buttonY++
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
-		b.WriteString("│ " + m.renderButtons(width-4) + " │\n")
+		b.WriteString("│ " + m.renderButtons(textWidth) + " │\n")
 	}
 
 	// Bottom border.
 	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height-1, x+1))
-	b.WriteString("└" + strings.Repeat("─", width-2) + "┘\n")
+	b.WriteString("└" + strings.Repeat("─", innerWidth) + "┘\n")
 
 	return b.String()
 }
@@ -412,15 +417,30 @@ func (m *Modal) renderButtons(availableWidth int) string {
 	return m.padOrTruncate(result, availableWidth)
 }
 
-// padOrTruncate pads or truncates a string to the specified width.
+// padOrTruncate pads or truncates a string to the specified width in columns.
 func (m *Modal) padOrTruncate(text string, width int) string {
-	if len(text) > width {
+	if uniseg.StringWidth(text) > width {
 		if width > 3 {
-			return text[:width-3] + "..."
+			text = truncate(text, width-3) + "..."
+		} else {
+			text = truncate(text, width)
+		}
+	}
+	return text + strings.Repeat(" ", max(width-uniseg.StringWidth(text), 0))
+}
+
+// truncate returns the whole characters of text that fit in width columns.
+func truncate(text string, width int) string {
+	var result strings.Builder
+	gr := uniseg.NewGraphemes(text)
+	for gr.Next() {
+		width -= uniseg.StringWidth(gr.Str())
+		if width < 0 {
+			break
 		}
-		return text[:width]
+		result.WriteString(gr.Str())
 	}
-	return text + strings.Repeat(" ", width-len(text))
+	return result.String()
 }
 
 // IsVisible returns true if the modal is currently visible.
-- 
2.43.0


From a727cd9338444bf8245a6a4f6dad0748686b813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 31/51] fix: aligned text that is too wide is cut by columns

The column count was used as a byte offset, which cut characters apart and panicked
for characters wider than their bytes or negative widths.
---
 style/internal/domain/service/text_aligner.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index a2ff647..2be0b74 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -41,7 +41,7 @@ func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
 	if textWidth > width {
-		return text[:width] // Simple truncation for now
+		return truncateToWidth(text, width) // Simple truncation for now
 	}
 
 	// If text fits exactly, return as-is.
@@ -73,6 +73,19 @@ func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment
 	}
 }
 
+// truncateToWidth returns the longest start of text that takes at most width columns.
+func truncateToWidth(text string, width int) string {
+	fit := ""
+	for i := range text {
+		start := text[:i]
+		if core.StringWidth(start) > width {
+			break
+		}
+		fit = start
+	}
+	return fit
+}
+
 // AlignVertical aligns text within given height.
 // Text is treated as multi-line (split by \n).
 //
-- 
2.43.0


From 8ba343316bad408cc876ef68e0ee96e88f457d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 32/51] fix: flex rendered into a negative size gives empty
 output

The allocation of the grid panicked.
---
 layout/layout.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/layout.go b/layout/layout.go
index 500eeb7..e785034 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -755,6 +755,10 @@ func (f *Flex) Height(height int) *Flex {
 //
 //nolint:gocognit // Flex rendering orchestrates multiple services
 func (f *Flex) Render(containerWidth, containerHeight int) string {
+	// A container has no negative size.
+	containerWidth = max(containerWidth, 0)
+	containerHeight = max(containerHeight, 0)
+
 	// Create services
 	measureService := service2.NewMeasureService()
 	flexService := service2.NewFlexboxLayoutService(measureService)
-- 
2.43.0


From f137de7ecd0025bc25d11981418cd13fe4613456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 33/51] fix: box content is measured in columns

Sizes, borders and right padding counted bytes, so boxes with non-ASCII text had
broken right borders and sizes that disagreed with the layout.
---
 layout/internal/domain/model/box.go              | 4 ++--
 layout/internal/domain/service/render_service.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/layout/internal/domain/model/box.go b/layout/internal/domain/model/box.go
index cc249be..896db2c 100644
--- a/layout/internal/domain/model/box.go
+++ b/layout/internal/domain/model/box.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
 )
 
@@ -200,8 +201,7 @@ func (b *Box) ContentSize() value2.Size {
 	// Calculate width (longest line)
 	maxWidth := 0
 	for _, line := range lines {
-		// TODO(Day 3): Use phoenix/core.UnicodeService.Width(line)
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index b41a621..c3bf47a 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -4,6 +4,7 @@ package service
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 )
 
@@ -144,7 +145,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 		line += contentLine
 
 		// Add right padding to align right border
-		lineWidth := len(contentLine)
+		lineWidth := core.StringWidth(contentLine)
 		spacesNeeded := contentWidth - lineWidth
 
 		// Only pad to contentWidth if we have a border (to align it)
@@ -207,11 +208,10 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 }
 
 // calculateContentWidth finds the maximum line width in content.
-// This is a simple character count (Unicode width handled by caller if needed).
 func (rs *RenderService) calculateContentWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := len(line)
+		width := core.StringWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
-- 
2.43.0


From c0495daab85cc397f81a09051b6a16a5baedf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 34/51] fix: mouse mode numbers with more than ten digits do
 not panic

itoa wrote past its buffer for large modes.
---
 mouse/internal/infrastructure/ansi/mouse_ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mouse/internal/infrastructure/ansi/mouse_ansi.go b/mouse/internal/infrastructure/ansi/mouse_ansi.go
index 1fd4b61..4e17323 100644
--- a/mouse/internal/infrastructure/ansi/mouse_ansi.go
+++ b/mouse/internal/infrastructure/ansi/mouse_ansi.go
@@ -73,7 +73,7 @@ func itoa(n int) string {
 		return "0"
 	}
 
-	var buf [10]byte
+	var buf [20]byte // Room for the digits of every int.
 	i := len(buf) - 1
 
 	for n > 0 {
-- 
2.43.0


From 78375460cef9efe0fbac0496486fdcc4463c16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 35/51] fix: a list's focus stays inside its items when the
 filter function changes

WithFilter filtered again but kept the focus and scroll position, which could lie beyond the items that are left.
---
 components/list/internal/domain/model/list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 5a2b576..276b0f6 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -84,6 +84,7 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	newList := l.clone()
 	newList.filterFunc = filterFunc
 	newList.applyFilter()
+	newList.resetFocus()
 	return newList
 }
 
-- 
2.43.0


From 236b022d02284b46d37ff4f64aeee7dec6c31783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 36/51] fix: a table without room for rows does not scroll past
 its last row

MoveDown and MoveToEnd put the scroll offset at or beyond the number of rows, so nothing was shown after the table got room again.
---
 components/table/internal/domain/model/table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index d1ed915..7cb524f 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -169,6 +169,9 @@ func (t *Table) MoveDown() *Table {
 	if t.showHeader {
 		visibleRows-- // Header takes one row
 	}
+	if visibleRows < 1 {
+		visibleRows = 1 // No room: the selected row is the offset
+	}
 	if newIndex >= t.scrollOffset+visibleRows {
 		newOffset = newIndex - visibleRows + 1
 	}
@@ -212,6 +215,9 @@ func (t *Table) MoveToEnd() *Table {
 	if t.showHeader {
 		visibleRows--
 	}
+	if visibleRows < 1 {
+		visibleRows = 1
+	}
 
 	newOffset := maxIndex - visibleRows + 1
 	if newOffset < 0 {
-- 
2.43.0


From deeee09877f89cb1671ef189f2ff1af806f9b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 37/51] fix: take back the height guard of select and
 multiselect

Their constructors and WithHeight keep the height at 1 or more, so the number of visible options cannot be negative.
---
 components/multiselect/internal/domain/model/multiselect.go | 3 ---
 components/select/internal/domain/model/select.go           | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 1ecbe94..57f244e 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -272,9 +272,6 @@ func (m *MultiSelect[T]) RenderVisibleOptions() []string {
 	if end > len(newM.filteredOpts) {
 		end = len(newM.filteredOpts)
 	}
-	if end < start {
-		end = start // Nothing is visible with a negative height.
-	}
 
 	// Render visible options
 	result := make([]string, end-start)
diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index a6665af..be2be31 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -218,9 +218,6 @@ func (s *Select[T]) RenderVisibleOptions() []string {
 	if end > len(newS.filteredOpts) {
 		end = len(newS.filteredOpts)
 	}
-	if end < start {
-		end = start // Nothing is visible with a negative height.
-	}
 
 	// Render visible options
 	result := make([]string, end-start)
-- 
2.43.0


From 769f853c39310519dc310a852362d38f0807e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:21 +0000
Subject: [PATCH 38/51] fix: read the back-tab sequence as Shift+Tab

ESC [ Z, which terminals send for Shift+Tab, was dropped, so the modal, form
and confirm bindings for Shift+Tab could never fire.
---
 tea/internal/infrastructure/ansi/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tea/internal/infrastructure/ansi/parser.go b/tea/internal/infrastructure/ansi/parser.go
index 9121a8c..e30aeba 100644
--- a/tea/internal/infrastructure/ansi/parser.go
+++ b/tea/internal/infrastructure/ansi/parser.go
@@ -147,6 +147,8 @@ func (p *Parser) ParseKey(data []byte) (model.KeyMsg, bool) {
 				return model.KeyMsg{Type: model.KeyHome}, true
 			case 'F':
 				return model.KeyMsg{Type: model.KeyEnd}, true
+			case 'Z': // Back-tab
+				return model.KeyMsg{Type: model.KeyTab, Shift: true}, true
 			}
 		}
 	}
-- 
2.43.0


From f018cc18f868e529d5c888bba2fa1ad124ac978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 39/51] fix: read ESC followed by a key as Alt+key

The reader collected up to ten bytes after ESC until a letter and dropped the
result unless it was a known sequence, so Alt+key was lost together with the
keys typed after it, and the text area's Alt bindings could never fire.
---
 tea/internal/infrastructure/input/reader.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index 40a93ed..b8f518c 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -83,6 +83,22 @@ func (ir *Reader) Read() (model.Msg, error) {
 		return nil, err
 	}
 
+	// ESC followed at once by an ordinary key is how terminals send Alt+key.
+	if b == 0x1B && ir.reader.Buffered() > 0 {
+		next, err := ir.reader.Peek(1)
+		if err == nil && next[0] == 0x1B {
+			return model.KeyMsg{Type: model.KeyEsc}, nil
+		}
+		if err == nil && next[0] != '[' && next[0] != 'O' {
+			msg, err := ir.Read()
+			if key, ok := msg.(model.KeyMsg); ok {
+				key.Alt = true
+				return key, err
+			}
+			return msg, err
+		}
+	}
+
 	// Build sequence
 	seq := []byte{b}
 
-- 
2.43.0


From 7f0c2405f4044f0c319a6f59e01af521f3fc2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 40/51] fix: deliver Ctrl+C as its dedicated key type

The reader delivered Ctrl+C only as the character c with Ctrl, so the KeyCtrlC
bindings of select, multiselect, form and confirm, and the examples' checks for
it, never fired. The rune and the Ctrl flag are kept.
---
 tea/internal/infrastructure/input/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index b8f518c..72f5ac1 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -138,6 +138,9 @@ func (ir *Reader) Read() (model.Msg, error) {
 	// Parse sequence (handles special keys, ANSI sequences, ASCII)
 	keyMsg, ok := ir.parser.ParseKey(seq)
 	if ok {
+		if keyMsg.Type == model.KeyRune && keyMsg.Ctrl && keyMsg.Rune == 'c' {
+			keyMsg.Type = model.KeyCtrlC
+		}
 		return keyMsg, nil
 	}
 
-- 
2.43.0


From e588544af5c56eb3069db5dfb92ec6042c9cdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 41/51] fix: bind Ctrl+C in the list to one action

The default table listed Ctrl+C for clear_filter and for quit; only the last
entry, the documented one, ever applied.
---
 components/list/internal/infrastructure/keybindings.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/components/list/internal/infrastructure/keybindings.go b/components/list/internal/infrastructure/keybindings.go
index c1e4ff8..5508096 100644
--- a/components/list/internal/infrastructure/keybindings.go
+++ b/components/list/internal/infrastructure/keybindings.go
@@ -44,12 +44,9 @@ func DefaultKeyBindings() []KeyBinding {
 		{Key: "ctrl+a", Action: "select_all"},
 		{Key: "esc", Action: "clear_selection"},
 
-		// Filter.
-		{Key: "ctrl+c", Action: "clear_filter"},
-
 		// Quit.
 		{Key: "q", Action: "quit"},
-		{Key: "ctrl+c", Action: "quit"}, // Also mapped to quit in some contexts
+		{Key: "ctrl+c", Action: "quit"},
 	}
 }
 
-- 
2.43.0


From eda4fe2fa8cabbb18452b68e25a322fa2c7504a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:49 +0000
Subject: [PATCH 42/51] fix: report a failure of the look-ahead after ESC

---
 tea/internal/infrastructure/input/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index 72f5ac1..3fc5aac 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -86,10 +86,13 @@ func (ir *Reader) Read() (model.Msg, error) {
 	// ESC followed at once by an ordinary key is how terminals send Alt+key.
 	if b == 0x1B && ir.reader.Buffered() > 0 {
 		next, err := ir.reader.Peek(1)
-		if err == nil && next[0] == 0x1B {
+		if err != nil {
+			return nil, err
+		}
+		if next[0] == 0x1B {
 			return model.KeyMsg{Type: model.KeyEsc}, nil
 		}
-		if err == nil && next[0] != '[' && next[0] != 'O' {
+		if next[0] != '[' && next[0] != 'O' {
 			msg, err := ir.Read()
 			if key, ok := msg.(model.KeyMsg); ok {
 				key.Alt = true
-- 
2.43.0


From 5b45e72f238b3d0676a84efe3e698fa7a604a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:11 +0000
Subject: [PATCH 43/51] fix: ask the movement validator before killing a word
 backward

---
 .../internal/textarea/domain/service/editing.go      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index fe04a7e..2244464 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -221,6 +221,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
+// Checks movement validator BEFORE deleting to prevent deletion if cursor can't move back.
 func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 	if ta.IsReadOnly() {
 		return ta
@@ -255,6 +256,17 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 		return ta // No word to kill
 	}
 
+	// Check validator BEFORE deleting.
+	if validator := ta.GetMovementValidator(); validator != nil {
+		to := model.NewCursorPos(row, newCol)
+		if !validator(model.NewCursorPos(row, col), to) {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(to, "word kill blocked by validator")
+			}
+			return ta
+		}
+	}
+
 	// Kill from newCol to endCol.
 	killed := string(line[newCol:endCol])
 	killRing := ta.GetKillRing().Kill(killed)
-- 
2.43.0


From 669bcc821fd0af490096ba8429ad93e8ba26a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 44/51] fix: NewSpinnerCustom uses the frames and the rate it
 is given

---
 components/progress/spinner.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/components/progress/spinner.go b/components/progress/spinner.go
index 7233184..abf88ba 100644
--- a/components/progress/spinner.go
+++ b/components/progress/spinner.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/model"
+	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/components/progress/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
@@ -37,11 +38,9 @@ func NewSpinner(style string) *Spinner {
 
 // NewSpinnerCustom creates a new spinner with custom frames and FPS.
 // Returns pointer for initialization, but store as value in Model.
-//
-//nolint:revive // frames parameter will be used when custom spinner support is added
-func NewSpinnerCustom(_ []string, fps int) *Spinner {
+func NewSpinnerCustom(frames []string, fps int) *Spinner {
 	return &Spinner{
-		domain: *model.NewSpinner(infrastructure.GetSpinnerStyle("dots")), // Dereference!
+		domain: *model.NewSpinner(value.NewSpinnerStyle(frames, fps)), // Dereference!
 	}
 }
 
-- 
2.43.0


From 55ffe0b0065b129d55dfd42a5efa1d56e2a3dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 45/51] fix: the rule under a form's title is as wide as the
 title

---
 components/form/form.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index b75c4eb..4e2994d 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -45,6 +45,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/form/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Form is the public API for the form container component.
@@ -277,7 +278,7 @@ func (f *Form) View() string {
 	if f.domain.Title() != "" {
 		b.WriteString(f.domain.Title())
 		_ = b.WriteByte('\n')
-		b.WriteString(strings.Repeat("─", len(f.domain.Title())))
+		b.WriteString(strings.Repeat("─", uniseg.StringWidth(f.domain.Title())))
 		_ = b.WriteByte('\n')
 		_ = b.WriteByte('\n')
 	}
-- 
2.43.0


From 1a99d1e41e0e188961e107962e1803a8acb6fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 46/51] fix: backspace in a select's filter removes a whole
 character

---
 components/multiselect/multiselect.go | 4 +++-
 components/select/select.go           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 245dace..163cda5 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -37,6 +37,7 @@ package multiselect
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/value"
@@ -270,7 +271,8 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := m.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			_, size := utf8.DecodeLastRuneInString(currentQuery)
+			newQuery := currentQuery[:len(currentQuery)-size]
 			newM.domain = newM.domain.SetFilterQuery(newQuery)
 		}
 		return newM
diff --git a/components/select/select.go b/components/select/select.go
index a62f172..e2e1526 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -30,6 +30,7 @@ package selectcomponent
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
@@ -190,7 +191,8 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := s.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			_, size := utf8.DecodeLastRuneInString(currentQuery)
+			newQuery := currentQuery[:len(currentQuery)-size]
 			newS.domain = newS.domain.SetFilterQuery(newQuery)
 		}
 		return newS
-- 
2.43.0


From 24dc5d38f44e52cef88c787ea3f015332c6e6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 47/51] fix: previews of boxes and nodes end after a whole
 character

---
 layout/internal/domain/model/box.go  | 4 ++--
 layout/internal/domain/model/node.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout/internal/domain/model/box.go b/layout/internal/domain/model/box.go
index 896db2c..aa37080 100644
--- a/layout/internal/domain/model/box.go
+++ b/layout/internal/domain/model/box.go
@@ -289,8 +289,8 @@ func (b *Box) TotalSize() value2.Size {
 func (b *Box) String() string {
 	// Truncate content if too long
 	contentPreview := b.content
-	if len(contentPreview) > 30 {
-		contentPreview = contentPreview[:27] + "..."
+	if runes := []rune(contentPreview); len(runes) > 30 {
+		contentPreview = string(runes[:27]) + "..."
 	}
 	// Replace newlines for readability
 	contentPreview = strings.ReplaceAll(contentPreview, "\n", "\\n")
diff --git a/layout/internal/domain/model/node.go b/layout/internal/domain/model/node.go
index 92746b0..c6b7a8b 100644
--- a/layout/internal/domain/model/node.go
+++ b/layout/internal/domain/model/node.go
@@ -305,8 +305,8 @@ func (n *Node) buildString(sb *strings.Builder, depth int) {
 
 	// Get content preview from box
 	content := n.box.Content()
-	if len(content) > 20 {
-		content = content[:17] + "..."
+	if runes := []rune(content); len(runes) > 20 {
+		content = string(runes[:17]) + "..."
 	}
 	// Replace newlines for readability
 	content = strings.ReplaceAll(content, "\n", "\\n")
-- 
2.43.0


From fc63a44ae418d96092f3eb2eab50b0e8c5e31c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 48/51] fix: the ANSI writer advances by the columns of a text

---
 render/internal/infrastructure/ansi/writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 53632c8..aedfe84 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/phoenix-tui/phoenix/render/internal/domain/model"
 	value2 "github.com/phoenix-tui/phoenix/render/internal/domain/value"
+	"github.com/rivo/uniseg"
 )
 
 // Writer writes ANSI sequences efficiently with buffering.
@@ -153,8 +154,8 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 		return err
 	}
 
-	// Update position (approximate - assumes single-width chars).
-	w.currentX += len(text)
+	// Update position by the columns the text takes.
+	w.currentX += uniseg.StringWidth(text)
 	return nil
 }
 
-- 
2.43.0


From cf4f9a6b4d705985d584ebbdcaeaa7d0eed19797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 49/51] fix: a confirm button's key is the first character of
 its label

---
 components/confirm/internal/domain/value/button.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/confirm/internal/domain/value/button.go b/components/confirm/internal/domain/value/button.go
index 3bd5084..080bf62 100644
--- a/components/confirm/internal/domain/value/button.go
+++ b/components/confirm/internal/domain/value/button.go
@@ -1,6 +1,8 @@
 // Package value provides value objects for the confirm component.
 package value
 
+import "unicode/utf8"
+
 // Button represents a button option in the confirm dialog.
 // This is a value object - immutable and defined by its attributes.
 type Button struct {
@@ -13,7 +15,7 @@ type Button struct {
 func NewButton(label string) *Button {
 	var key rune
 	if label != "" {
-		key = rune(label[0])
+		key, _ = utf8.DecodeRuneInString(label)
 	}
 	return &Button{
 		label: label,
-- 
2.43.0


From 819cadcf67c322cf970a0e7e7bc3c45d16a88677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 50/51] fix: flex containers lay characters out by their width

---
 layout/layout.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index e785034..fa7a038 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -83,6 +83,7 @@ package layout
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/core"
 	model2 "github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/layout/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/layout/internal/domain/value"
@@ -770,12 +771,13 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	// Render each item
 	var result strings.Builder
 
-	// Create a grid to track occupied positions
-	grid := make([][]rune, containerHeight)
+	// Create a grid to track occupied positions: the text of each column,
+	// nothing where a wide character continues
+	grid := make([][]string, containerHeight)
 	for i := range grid {
-		grid[i] = make([]rune, containerWidth)
+		grid[i] = make([]string, containerWidth)
 		for j := range grid[i] {
-			grid[i][j] = ' '
+			grid[i][j] = " "
 		}
 	}
 
@@ -792,19 +794,30 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 			}
 
 			x := pos.X()
+			cell := "" // what the next column starts with
 			for _, ch := range line {
-				if x >= containerWidth {
-					break
+				width := core.StringWidth(string(ch))
+				switch {
+				case width > 0 && x+width <= containerWidth:
+					grid[y][x] = cell + string(ch)
+					for i := 1; i < width; i++ {
+						grid[y][x+i] = ""
+					}
+					cell = ""
+				case width == 0 && x > pos.X() && x <= containerWidth:
+					// Combines with the character before it
+					grid[y][x-1] += string(ch)
+				case width == 0:
+					cell += string(ch)
 				}
-				grid[y][x] = ch
-				x++
+				x += width
 			}
 		}
 	}
 
 	// Convert grid to string
 	for i, row := range grid {
-		result.WriteString(string(row))
+		result.WriteString(strings.Join(row, ""))
 		if i < len(grid)-1 {
 			result.WriteRune('\n')
 		}
-- 
2.43.0


From c54474faba64400c4ca8b6affc8048eaae406950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:20 +0000
Subject: [PATCH 51/51] fix: an ESC in front of a multi-byte character does not
 split it

---
 tea/internal/infrastructure/renderer/inline.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6c633e7..8970a35 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"sync"
 	"unicode"
+	"unicode/utf8"
 )
 
 // ANSI escape sequences used for inline rendering.
@@ -240,8 +241,11 @@ func stripANSI(s string) string { //nolint:gocognit,gocyclo,cyclop // byte-level
 				}
 			}
 		default:
-			// Two-byte sequence: ESC <char> — skip the next char
-			i++
+			// Two-byte sequence: ESC <char> — skip the next char.
+			// The start of a multi-byte character is text.
+			if next < utf8.RuneSelf {
+				i++
+			}
 		}
 	}
 	return b.String()
@@ -337,6 +341,9 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 				break
 			}
 			next := s[i]
+			if next >= utf8.RuneSelf {
+				continue // the start of a multi-byte character is text
+			}
 			b.WriteByte(next)
 			i++ // consume byte after ESC
 			switch next {
-- 
2.43.0

