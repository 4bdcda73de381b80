#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then run it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PG = "tea/internal/application/program/"

prop("C01", "Every exit and suspension hands the terminal back as it was found",
 "Whenever a program run ends - quit command, external quit, start-up failure, panic in user code, or while suspended - raw mode and the alternate screen that the run entered have been left, the cursor is visible, and background input reading has been told to stop. "
 "Suspending leaves raw mode and the alternate screen and shows the cursor before reporting success; resuming re-enters exactly the modes that were active when it suspended. "
 "Every operation that suspends the program around an external command also resumes it on every path on which the suspension succeeded.",
 ["histories", "fault_sequences", "crash_points"],
 "Every path through the run, start, suspend, resume and exec operations, for every combination of terminal-operation failures and every order of suspend/resume/quit.",
 "Tests drive a mock terminal through a handful of success paths; they do not enumerate which terminal call fails, nor quit-while-suspended.",
 [PG+"program.go", PG+"tty_control_linux.go", PG+"tty_control_darwin.go", PG+"tty_control_windows.go"],
 [("deferred cleanup in Run and in Start's goroutine", PG+"program.go"), ("Suspend/Resume saved state", PG+"program.go"), ("ExecProcess bracket", PG+"program.go")],
 [("suspendState", "modes active at suspension", PG+"program.go")])

prop("C02", "External commands are always waited for and their outcome reported",
 "Every external process that the library starts has been waited for on every path before the operation that started it returns, so no zombie is left and no pipe stays open. "
 "A failure of the process is returned to the caller and never replaced by success.",
 ["fault_sequences", "histories"],
 "Every path after a successful process start, on every supported platform (Linux, macOS, Windows builds).",
 "The tests run on one platform, mostly without a controlling terminal, so the failure paths after a successful start are never taken.",
 [PG+"program.go", PG+"tty_control_linux.go", PG+"tty_control_darwin.go", PG+"tty_control_windows.go",
  "clipboard/internal/infrastructure/native/clipboard_linux.go", "clipboard/internal/infrastructure/native/clipboard_darwin.go"],
 [("cmd.Wait / cmd.Run on every path", PG+"tty_control_linux.go")])

prop("C03", "The event loop never blocks on itself and never loses a quit request",
 "Processing a message never makes the event loop wait for queue space that only the event loop can free, whatever the size of a command batch. "
 "A quit request made while the program runs is delivered to the event loop and to nobody else, and no background goroutine of the library can stay blocked for ever sending its result once the loop has ended. "
 "A message that a goroutine of the library received from a command is delivered unless the run has ended.",
 ["schedules", "histories"],
 "Every interleaving of the event loop, command goroutines, the input reader and quit callers; every number of messages in a batch or sequence.",
 "A test samples one schedule and small batches; the queue capacity is 100, and the quit race needs an unlucky interleaving.",
 [PG+"program.go", "tea/internal/infrastructure/input/cancelable_reader.go"],
 [("event loop select", PG+"program.go"), ("executeCommand", PG+"program.go"), ("startInputReader", PG+"program.go")],
 [("msgCh", "message queue drained only by the event loop", PG+"program.go"), ("quitCh", "quit request", PG+"program.go")])

prop("C04", "Messages cross the public API boundary unchanged",
 "Every kind of message the engine can deliver - key, mouse, resize, focus, quit, batch, sequence, tick, print and user-defined ones - reaches the application with every field carried over, and messages travelling the other way do too. "
 "The public key, mouse-button and mouse-action values agree with the internal ones value by value and name by name.",
 ["inputs", "programs"],
 "Every message kind, every field and every enumeration value.",
 "Tests convert a few sample messages; a dropped field or a new enumeration value is not noticed.",
 ["tea/tea.go", "tea/internal/domain/model/msg.go"],
 [("message conversion in both directions", "tea/tea.go"), ("KeyType.String", "tea/internal/domain/model/msg.go")])

prop("C05", "State shared between goroutines is only touched under its lock",
 "Objects that are documented as safe for concurrent use (program, inline renderer, buffered screen writer and renderer, ANSI and Windows terminals, clipboard history, theme manager, cancelable input reader, mock terminal) access their shared mutable state only while holding the object's own mutex. "
 "Every acquired mutex is released exactly once on every path, never acquired again by the same goroutine while held, and never held across a wait for another goroutine.",
 ["schedules"],
 "Every schedule of concurrent callers and every path through the methods of those types.",
 "The race detector only sees the interleavings and methods the tests execute; deadlocks need a particular path.",
 ["tea/internal/application/program/program.go", "tea/internal/infrastructure/renderer/inline.go", "render/internal/application/renderer.go",
  "render/internal/infrastructure/ansi/writer.go", "terminal/internal/infrastructure/unix/ansi.go", "clipboard/internal/domain/service/clipboard_history.go",
  "style/internal/application/theme_manager.go", "testing/mock_terminal.go", "tea/internal/infrastructure/input/cancelable_reader.go"],
 [("sync.Mutex / sync.RWMutex fields", "each of the files above")])

prop("C06", "A failed write is reported and never recorded as done",
 "An error from writing to the terminal, from a clipboard provider or from a codec is returned to the caller (or deliberately tolerated at a documented best-effort site), never turned into success. "
 "What the renderers believe is on screen, the raw-mode and alternate-screen flags, and the clipboard history change only after the write or operation they describe has succeeded.",
 ["fault_sequences", "histories"],
 "Every point at which a write or platform operation can fail.",
 "Tests write to in-memory buffers that never fail; failure injection covers a few sites.",
 ["tea/internal/infrastructure/renderer/inline.go", "render/internal/application/renderer.go", "render/internal/infrastructure/ansi/writer.go",
  "terminal/internal/infrastructure/unix/ansi.go", "terminal/internal/infrastructure/windows/console.go", "clipboard/internal/application/clipboard_manager.go", "mouse/internal/infrastructure/platform/terminal_mode.go"],
 [("state assignment after the error check", "each of the files above")])

prop("C07", "Values are immutable: no operation changes another value",
 "Calling any method of a component, style, layout, theme, core or event value never changes the receiver, an argument, or any value obtained earlier from either, apart from the documented mutable types (buffers, writers, trackers, builders, registries). "
 "Values derived from a common ancestor never share growable storage in a way that lets an update of one show up in another, and a collection that is copied on its way into or out of a value stays independent of that value.",
 ["histories", "programs"],
 "Every sequence of method calls on every value type, including values derived twice from the same parent.",
 "Tests check the receiver after a few calls; aliasing through spare slice capacity shows only in particular growth histories.",
 ["style/internal/domain/model/style.go", "layout/internal/domain/model/node.go", "layout/internal/domain/model/flexbox.go", "components/*/internal/domain/model/*.go", "core/internal/domain/*", "components/*/*.go"],
 [("copy-on-write With* methods", "all value types"), ("defensive slice copies", "constructors and getters")])

prop("C08", "Changing one attribute of a value keeps all the others",
 "An operation that returns a modified copy of a value - a fluent setter, or an update, movement or editing operation - changes the attributes it is documented to change and carries every other attribute over from the original. "
 "No option set earlier (theme, size, key bindings, limits, callbacks) is ever lost or swapped with another one by a later operation.",
 ["histories", "programs"],
 "Every setter and update operation applied to every reachable value, with every combination of previously set options.",
 "Tests check the attribute being set, not the dozen that must survive; combinations of options explode.",
 ["components/*/*.go", "components/*/internal/domain/model/*.go", "style/internal/domain/model/style.go", "style/internal/domain/model/theme.go", "layout/internal/domain/model/*.go", "layout/internal/domain/value/*.go", "core/internal/domain/*"],
 [("struct copies and composite literals in methods returning their receiver type", "all value types")])

prop("C09", "No terminal input can crash the decoders",
 "Whatever bytes arrive - truncated, oversized or malformed escape sequences, arbitrary mouse reports, colour strings or clipboard payloads - the key, mouse, colour and clipboard decoders return a result or an error. "
 "They never index or slice out of range, never dereference a missing value and never divide by zero.",
 ["inputs"],
 "Every byte string given to a decoder.",
 "Tests sample well-formed sequences and a few malformed ones.",
 ["tea/internal/infrastructure/ansi/parser.go", "tea/internal/infrastructure/input/reader.go", "mouse/internal/infrastructure/parser/sgr_parser.go", "mouse/internal/infrastructure/parser/x10_parser.go", "mouse/internal/infrastructure/parser/urxvt_parser.go", "style/internal/domain/value/color.go", "clipboard/internal/domain/service/richtext_codec.go"],
 [("length checks before every index and slice", "each of the files above")])

prop("C10", "No size, position or content can crash layout and rendering",
 "For every content, width, height, padding, offset and cursor position - including zero, negative and larger than the screen - measuring, laying out and rendering a style, box, flex container, buffer or component completes. "
 "It never indexes or slices out of range, never asks for a negative repetition or allocation, and never divides by zero.",
 ["inputs", "configurations", "histories"],
 "Every combination of sizes and contents, and every state reachable by public operations.",
 "Tests use ordinary sizes; degenerate sizes matter only in combination with particular content and state.",
 ["render/internal/domain/*", "style/internal/application/command/*.go", "style/internal/domain/service/*.go", "layout/internal/domain/service/*.go", "components/*"],
 [("clamps and guards before indexing, slicing and repeating", "each of the files above")])

prop("C11", "Bounded quantities stay in bounds in every reachable state",
 "Percentages stay within 0-100; colour components, sizes, padding, margins, gaps and counts stay non-negative and within their documented ranges; cursors, scroll offsets and focus stay within their content. "
 "Selections never exceed the configured limit and the clipboard history never exceeds its configured size.",
 ["histories", "inputs"],
 "Every sequence of public operations with every argument.",
 "Tests check a few boundary arguments, not every operation from every state.",
 ["components/progress/internal/domain/value/percentage.go", "style/internal/domain/value/*.go", "layout/internal/domain/value/*.go", "core/internal/domain/value/*.go", "components/viewport/internal/domain/*", "components/input/internal/*", "components/multiselect/internal/domain/value/selection.go", "clipboard/internal/domain/service/clipboard_history.go"],
 [("clamping constructors", "value types"), ("clamp after every move", "viewport, input, list")])

prop("C12", "Text is measured in display columns and never cut inside a character",
 "Wherever text is measured against a screen width, the measure is its display width and not its number of bytes, code points or grapheme clusters. "
 "Text is only ever cut between characters (code points), so no output contains a broken character that the input did not contain, and a single byte is only made a character where it is known to be ASCII.",
 ["inputs"],
 "Every string, including wide, combining and multi-byte text.",
 "Test data is mostly ASCII, for which bytes, code points and columns coincide.",
 ["style/internal/domain/service/text_aligner.go", "layout/internal/domain/service/*.go", "components/*", "core/internal/domain/service/unicode_service.go", "tea/internal/infrastructure/renderer/inline.go"],
 [("StringWidth", "core"), ("grapheme segmentation", "core, components/input")])

prop("C13", "The same inputs always produce the same output",
 "Output text, emitted events, and the order of lists returned to callers never depend on the iteration order of an unordered map. "
 "Equal values rendered or queried twice give identical results.",
 ["schedules", "histories"],
 "Every map iteration order, on every path from an unordered collection to a result.",
 "Go randomises map order per run, and small test maps usually happen to come out sorted or compare order-insensitively.",
 ["components/list/internal/domain/model/list.go", "components/multiselect/internal/domain/value/selection.go", "components/progress/internal/infrastructure/spinners.go", "clipboard/internal/domain/service/*.go", "render/internal/domain/*"],
 [("sorting after collecting from a map", "wherever a map is ranged over")])

prop("C14", "Every configured option takes effect",
 "Each public option of a program, component, style, theme, layout or clipboard value is consulted by the behaviour it configures: what is set is stored where the behaviour reads it. "
 "No option is silently ignored.",
 ["configurations"],
 "Every public option and every value of it.",
 "Tests assert that the option is stored; whether any behaviour reads it is a whole-program question.",
 ["tea/internal/application/program/options.go", "components/*/*.go", "style/style.go", "layout/layout.go", "clipboard/clipboard.go"],
 [("flow from setter parameter to stored field to a reader reachable from View/Update/Render/Run", "whole program")])

prop("C15", "Mode-changing escape sequences are switched off by their counterpart",
 "Everything that enabling mouse reporting or a screen, cursor or paste mode switches on in the terminal is switched off by the matching disable operation, in every mode combination and after repeated calls. "
 "Operations that change the terminal emit the standard sequence for exactly that operation, and no enable sequence appears in a disable operation.",
 ["histories", "configurations"],
 "Every mode, and every history of enable and disable calls.",
 "Tests compare strings for single calls; they do not relate enable and disable.",
 ["mouse/internal/infrastructure/ansi/mouse_ansi.go", "mouse/internal/infrastructure/platform/terminal_mode.go", "terminal/internal/infrastructure/unix/ansi.go", "terminal/internal/infrastructure/windows/console.go", "render/internal/infrastructure/ansi/codes.go", "render/internal/infrastructure/ansi/writer.go"],
 [("enable/disable constants and the functions that write them", "each of the files above")])

prop("C16", "No colour is emitted beyond the terminal's colour capability",
 "With no colour capability, rendering emits no colour sequence at all; with 16 or 256 colours it emits no sequence of a richer colour space. "
 "This holds for text foreground, text background and every border side.",
 ["configurations", "inputs"],
 "Every style, capability and content.",
 "Tests check foreground with a few capabilities; the guard must hold on every path that can emit a colour.",
 ["style/internal/application/command/render.go", "style/internal/application/command/border_renderer.go", "style/internal/domain/service/color_adapter.go", "style/internal/infrastructure/ansi/code_generator.go"],
 [("capability switch before colour generation", "colour adapter and border renderer")])

prop("C17", "Wrappers perform the operation they name with the caller's arguments",
 "Every operation of a public facade, adapter or platform implementation performs the operation of the same name on the object it wraps, passing each argument to the corresponding position and returning its result. "
 "All implementations of one interface agree on which operations change state and which only report it.",
 ["programs", "inputs"],
 "Every forwarding operation in the public packages and every implementation of the terminal and clipboard interfaces.",
 "With hundreds of one-line forwarding methods, tests exercise a part, often with symmetric arguments that hide a swap.",
 ["layout/layout.go", "style/style.go", "render/renderer.go", "core/core.go", "mouse/mouse.go", "components/*/*.go", "testing/*.go", "tea/tea.go", "clipboard/clipboard.go"],
 [("delegating methods", "each of the files above")])

prop("C18", "Rendering and updating are pure",
 "Computing a view, a layout or a rendered string, and updating a component with a message, performs no I/O, starts no goroutine, reads no clock, environment or random source and changes no global state. "
 "Effects happen only when the event loop runs a returned command, or in the packages whose job is I/O.",
 ["programs", "histories"],
 "Every call path from the view, update, layout, style and domain operations, including calls through interfaces and function values.",
 "A test cannot show the absence of an effect on paths it does not take.",
 ["components/*", "layout/*", "style/*", "core/internal/domain/*", "mouse/internal/domain/*", "render/internal/domain/*"],
 [("layering: domain packages depend on no I/O package", "whole program")])

prop("C19", "Edit guards are never bypassed",
 "A read-only text area is never changed by any editing operation or key; a cursor move in it takes place only after the configured movement validation accepted it. "
 "A selection only grows when the configured limit allows it, and input is only accepted by a component that has focus or is visible as documented.",
 ["histories", "inputs"],
 "Every editing operation and key event from every state.",
 "Tests try a few keys on a read-only area; each new editing operation must repeat the guard.",
 ["components/input/textarea.go", "components/input/internal/textarea/infrastructure/keybindings/emacs.go", "components/input/internal/textarea/domain/service/*.go", "components/multiselect/internal/domain/value/selection.go", "components/modal/modal.go"],
 [("IsReadOnly guard", "editing service and key bindings"), ("limit check before insert", "selection")])

prop("C20", "Every key binding can fire and means one thing",
 "Every key a terminal sends in the standard way reaches the application as that key, with its modifiers, and without taking the input typed after it. "
 "Every key name bound by a component, and every key a component compares against, is a name that key events can actually have. "
 "No key is bound to two different actions within one component's binding table.",
 ["programs", "inputs"],
 "Every binding of every component against every key event.",
 "Tests construct the key event they expect; they do not ask whether the reader can produce it or whether another binding shadows it.",
 ["components/*/internal/infrastructure/*.go", "tea/internal/domain/model/msg.go", "tea/internal/infrastructure/ansi/parser.go"],
 [("binding tables", "components"), ("key names", "tea")])

prop("C21", "Enumerations are handled completely and consistently",
 "For every value of every enumeration (key types, mouse buttons and events, alignments, directions, justifications, styles, capabilities, MIME types, encodings), every operation that distinguishes the values handles each of them deliberately, and distinct values have distinct names. "
 "Decoders and encoders of the same enumeration agree value by value.",
 ["inputs", "configurations"],
 "Every enumeration value at every place that distinguishes them.",
 "Tests cover the values someone thought of; a value that falls into the default case looks like ordinary behaviour.",
 ["tea/internal/domain/model/msg.go", "mouse/internal/domain/value/*.go", "layout/internal/domain/value/*.go", "style/internal/domain/value/*.go", "clipboard/internal/domain/value/*.go", "components/*/internal/domain/value/*.go"],
 [("switches and tables over enumeration constants", "each of the files above")])

prop("C22", "Platform resources acquired are released on every path",
 "Clipboard ownership, locked and allocated global memory, console modes, file descriptors, pooled buffers, tickers and temporary signal handling acquired by an operation are released on every path out of it, including the failure paths, unless ownership was handed over as documented. "
 "Nothing is released twice or used after release.",
 ["fault_sequences", "histories"],
 "Every path through the acquiring operations, on every supported platform.",
 "The Windows and macOS code is not even compiled by the test run, and failure paths need the operating system to refuse.",
 ["clipboard/internal/infrastructure/native/clipboard_windows.go", "terminal/internal/infrastructure/windows/console.go", "tea/internal/infrastructure/input/stdin_unblock_windows.go", "render/internal/domain/model/buffer.go", "render/internal/application/renderer.go"],
 [("deferred release", "each of the files above")])

prop("C23", "Every supported platform builds and offers the same operations",
 "Every library package compiles for Linux, macOS and Windows on 32- and 64-bit architectures, and every platform offers the same set of exported operations with the same signatures. ",
 ["configurations"],
 "Every supported operating system and architecture.",
 "The test run compiles one platform only.",
 ["terminal/*", "clipboard/internal/infrastructure/native/*", "tea/internal/application/program/tty_control_*.go", "tea/internal/infrastructure/input/*"],
 [("build-tagged sibling files", "terminal, clipboard, tea")])

prop("C24", "The three mouse protocols decode the same event alike",
 "For every button, modifier and motion code, the SGR, X10 and URxvt decoders agree on the button and modifiers, and screen coordinates are converted from the protocol's 1-based to the library's 0-based positions in all three. "
 "A position is converted exactly once.",
 ["inputs"],
 "Every button code (0-255) in each protocol.",
 "Each decoder has its own sample-based tests; nothing compares them.",
 ["mouse/internal/infrastructure/parser/sgr_parser.go", "mouse/internal/infrastructure/parser/x10_parser.go", "mouse/internal/infrastructure/parser/urxvt_parser.go"],
 [("button-code decoding", "each parser")])

prop("C25", "Layout distributes exactly the available space",
 "For every set of children, gaps and grow/shrink factors the sizes assigned by a flex layout add up to the container's size whenever an item can grow or shrink, and no child is placed outside its parent.",
 ["inputs", "configurations"], "Every container size, child set and factor.",
 "Tests sample a few containers.",
 ["layout/internal/domain/service/flexbox_layout_service.go"], [("grow/shrink distribution", "layout/internal/domain/service/flexbox_layout_service.go")])

prop("C26", "Incremental drawing shows the same screen as a full redraw",
 "After any sequence of frames, the bytes emitted by the incremental renderers leave the terminal displaying exactly the last frame.",
 ["histories", "inputs"], "Every sequence of frames and resizes.",
 "Tests compare bytes for a few frame pairs.",
 ["tea/internal/infrastructure/renderer/inline.go", "render/internal/domain/service/diff.go", "render/internal/domain/service/optimize.go"], [("diff and cursor motion", "renderers")])

prop("C27", "Encoding then decoding gives the original back",
 "Rich text, images and plain text put on the clipboard and read back in the same format are equal to what was put there, for every content the format can represent.",
 ["inputs"], "Every content and format.",
 "Tests round-trip a few samples.",
 ["clipboard/internal/domain/service/richtext_codec.go", "clipboard/internal/domain/service/image_codec.go", "clipboard/internal/infrastructure/osc52/osc52_provider.go"], [("codecs", "clipboard")])

prop("C28", "Sorting and filtering present exactly the right items in the right order",
 "A sorted table shows every row once, in the order of the chosen column and direction; a filtered list shows exactly the items that match, in their original order.",
 ["inputs", "histories"], "Every set of rows, items, filters and sort keys.",
 "Tests sample small data sets.",
 ["components/table/internal/domain/service/sort.go", "components/list/internal/domain/service/filter.go"], [("sort comparator and filter loop", "components")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
