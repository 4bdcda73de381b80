#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claims live in CLAIMS, everything else is not_applicable with a reason."""
import json
CLAIMS = {
 "C01": ("property simulation (typestate of raw mode, alternate screen, cursor, input reading and suspension, with correlated branch conditions) over the SSA of the program, every function summarised per entry state",
   "Explores every path of run, start, suspend, resume and exec for Linux, macOS and Windows, application code panicking, suspending or resuming at every call-back. At most one terminal operation fails per run in quick, two in thorough; program fields change only under the rules C05 decides."),
 "C02": ("property simulation (typestate of every external process: started, waited, failed) over the SSA of every operation that reaches os/exec, for Linux, macOS and Windows builds",
   "Explores every path of every exported operation that starts a process: a Wait on each path after a successful start, and a certainly non-nil error result on each path on which the process failed. What a caller of the operation does with the error is decided by C06."),
 "C03": ("property simulation over the SSA of the event loop, command runners and public operations: queue sends classified by who can drain them, quit delivery tracked as typestate, every background send selects on the run's end",
   "Decides, for every operation and goroutine of the program, who sends to and receives from each queue, on every path. Liveness of application code (a command that never returns) is outside."),
 "C04": ("value-numbering evaluation of the message conversions over SSA (every path; fields symbolic, enumeration values and batch lengths enumerated), compared term by term with the carried-over message",
   "Decides for every message kind, enumeration constant and field, in both directions, through conversions, the queue, the event loop and command wrappers. Batches have 0 to 65 members of every kind. Fields recomputed by arithmetic to the same value would be reported."),
 "C24": ("value-numbering evaluation of the three decoders over SSA: every button code enumerated, coordinates symbolic, results compared as terms with the protocol table and with each other",
   "Decides button, modifiers, kind and coordinates for all 256 codes of each protocol on every path of the decoders. The URxvt code is read without its +32 offset, as existing tests fix that form; conversion once is decided by the coordinate term."),
 "C05": ("lockset dataflow over SSA (interprocedural, per entry operation), lock balance typestate on every path including panics, inferred guard per field",
   "Decides for every field of the documented concurrent types that all accesses outside construction hold the type's mutex, and that each lock is released once on every path and not held across waits. Races through application callbacks and atomicity of check-then-act sequences are outside."),
 "C08": ("whole-program provenance (points-to style field-copy) dataflow on SSA, against a frozen attribute table",
   "Decides, for every exported copy-returning operation, from which inputs each attribute of its result can come on every path. Trusts go/types+go/ssa; a value recomputed from the right inputs by wrong arithmetic is not detected."),
 "C06": ("property simulation over SSA: every fallible call may fail, and on each path on which one failed the operation's error result must be certainly non-nil and its receiver's recorded state unchanged",
   "Decides for every exported operation that writes, runs providers, codecs or system calls, on Linux, macOS and Windows, with any combination of failing calls. A fixed, listed set of documented best-effort sites is exempt. Whether the error text is helpful is outside."),
 "C22": ("property simulation (typestate of files, pipes, tickers, timers, contexts, signal settings, console modes, terminal foreground, Windows clipboard and global memory) over SSA on every path, plus an owner rule for resources kept in fields",
   "Decides for every operation and goroutine that acquires a platform resource, on three platforms, that each path releases it exactly once, hands it over or keeps it in a field that a releasing method frees on every path. Garbage-collected resources and resources of application callbacks are outside."),
 "C07": ("alias/points-to dataflow on SSA with transitive write effects: no write through receiver or argument memory, no append into shared growth, copied collections stay copied",
   "Decides over all exported operations of the value types which memory they may write and which slices and maps their results share with the receiver or arguments, on every path. Writes made by the application's own callbacks are outside."),
 "C12": ("units-of-measure inference over SSA (bytes, code points, clusters, columns; generic function schemes) and a provenance and path analysis of every position text is cut at",
   "Decides for every integer quantity of the library that no two units meet in it, and for every cut, byte-wise walk and byte-to-character conversion that it respects code points. Quantities no source gives a unit are unconstrained; grapheme-cluster boundaries and the numbers in width tables are not covered."),
 "C13": ("dataflow over every loop on a map (and maps.Keys and the like): what leaves the loop must be insensitive to visiting order or be sorted before use; pooled objects must be reset",
   "Decides for each map iteration in the library whether its effect depends on the visiting order. Loops whose effect the analysis cannot classify count as violations. Clock and randomness are decided by C18."),
 "C18": ("transitive effect analysis over the call graph (interface and callback resolution included)",
   "Decides for every function of the view, layout, style, core and component packages that no call path reaches I/O, clock, environment, randomness, goroutines, channels, package-variable writes or runs a command. Application callbacks are outside; standard-library functions have a fixed effect class, unknown ones count as I/O."),
 "C23": ("type checking of the whole library for nine platform and architecture combinations plus comparison of exported API",
   "Decides compilation and API agreement exactly, using the Go type checker; link-time and cgo behaviour is not covered."),
 "C14": ("interprocedural influence dataflow on SSA (data and control dependence, fields per type, function summaries to a fixpoint), from every option to results, output and deciding fields, per kind of event, enumeration value and flag",
   "Decides for every parameter of every public operation that it can influence something, and for each option that every operation and step it decided on the reviewed tree is still decided by it, in each case those tell apart. Influence only: an option consulted and acted on wrongly is not seen, nor a new exception that tests a field which already decided the same operation."),
 "C15": ("value-numbering evaluation over SSA of every operation that writes terminal control text, symbolic in its arguments, canonicalised into terminal effects and compared with the standard's table; reachable states of mode-switching objects enumerated abstractly, each write allowed to fail",
   "Decides, for all argument values and every path, which cursor, erase, mode and style effects each operation asks the terminal for, and mode balance over every reachable state of the mode-switching types. Relies on a table of names to standard sequences; the terminal itself is assumed standard."),
 "C16": ("interprocedural conditional constant propagation over SSA, once per terminal capability; every colour sequence in the code that stays reachable is classified by its colour space",
   "Decides for every public rendering operation of style and the components, for each of the four capabilities, on every path. Texts put together from unknown pieces are classified by the pieces; colour indexes beyond 15 or 255 are not bounded."),
 "C21": ("value-numbering evaluation over SSA of every operation with an enumeration among its inputs, once per enumeration value; behaviours compared as terms with each other, with a specification of classes and with the standard key sequences",
   "Decides which enumeration values every exported operation tells apart, the names of all values and modifier combinations, all key sequences through reader and parser (alone and followed by other input), and image formats. Operations whose loops make the evaluation incomplete are left out and listed by the count of obligations."),
 "C17": ("value-numbering evaluation over SSA of every wrapper, compared as a term with the operation of the same name on the wrapped object (argument by argument, path by path), with a reference table of public operations, and an effect analysis that compares the implementations of one interface",
   "Decides forwarding wrappers, public functions and a reference table of 136 operations whose name differs from what they stand for; argument positions by parameter name for every internal call; constants in range; queries of an interface change nothing in any implementation."),
 "C09": ("abstract interpretation over SSA: linear-arithmetic proof of every index, slice, repetition, allocation and division from dominating conditions, loop invariants, field invariants and calling contexts; nil-result and assertion dataflow",
   "Decides every such operation in the key, mouse, colour and clipboard decoders for every input, for Linux, macOS and Windows. Integer overflow and nil fields of hand-made values are not modelled; deliberate panics of documented contracts are not violations."),
 "C10": ("abstract interpretation over SSA: linear-arithmetic proof of every index, slice, repetition, allocation and division from dominating conditions, loop invariants, field invariants proved at every store, and calling contexts",
   "Decides every such operation outside the decoders, for every size, content and state reachable by public operations. One relation (a text area's cursor lies within its lines) is declared. Integer overflow is not modelled; application callbacks are outside."),
 "C11": ("object-invariant proof: linear arithmetic over SSA shows declared invariants at every place an object is made or changed",
   "Decides the declared bounds (a table of 40 types in c11.go) for every operation, argument and state built from constructors. Not decided: the upper bound of a text area's column after joining lines or changing text in a loop. Integer overflow is not modelled."),
 "C19": ("value-numbering evaluation over SSA of every update and editing operation on objects whose guard is closed and whose other state, and the event, are symbolic; per path comparison of the protected state, accepted validator calls as path facts; linear proof of selection limits",
   "Decides for every path of every operation of text area, form, multi-selection, input, modal and viewport. Texts of one to three lines of unknown content and forms of three fields stand for all; a cursor set by the program and one carried along by inserted text are not moves."),
 "C20": ("abstract evaluation (value numbering over SSA): the reader on every standard key sequence, each component's update on every key it can produce, with the binding tables' contents; conditions, lookups and comparisons recorded",
   "Decides for the standard sequences of a terminal in its default keyboard mode (single bytes, UTF-8, cursor, editing and function keys, back-tab, Alt) and all components with an Update. Sequences split across reads and the timing of a lone Escape are not modelled; bindings the application supplies are outside."),
}
NA = {
 "C25": "Equality of summed sizes is integer arithmetic over run-time factors and remainders; no structural condition captures it soundly.",
 "C26": "Equality of the screen after two byte streams quantifies over terminal states and run-time frames; a static rule would have to freeze the drawing algorithm.",
 "C27": "Round-trip equality of codecs is a relation between run-time contents; no sound static argument in reach decides it.",
 "C28": "Sortedness and filter membership are relations over run-time rows and comparison callbacks; not decidable by shape.",
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]; na=[]
for p in props:
    if p in CLAIMS:
        t,n=CLAIMS[p]
        checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":"static analysis: "+t,"level":"other","level_note":n})
    else:
        na.append({"property":p,"reason":NA.get(p,"No check built yet for this property.")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"All checks analyse /repo's current source with one SSA-based checker (checker/); nothing in /repo is run. No hooks."},open("/verif/MANIFEST.json","w"),indent=1)
