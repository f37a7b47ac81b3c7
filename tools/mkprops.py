#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is the source)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe,hook_needed=None)))

p("C01","CML channels: every send meets exactly one receive",
  "On every schedule, a CML synchronous send and a receive on the same channel complete in pairs: each received value was sent by exactly one sender on that channel, no message is lost, duplicated, invented or redirected, and neither side returns before the other has arrived. The polling forms succeed exactly when a partner is waiting and otherwise change nothing. When a CML run stops for lack of work, no pair of threads is left blocked with matching offers on a channel, and pre-emption at any moment changes none of this.",
  ["schedules","programs"],"all CML programs built from send/recv/sendEvt/recvEvt/sendPoll/recvPoll over any number of threads and channels, and all pre-emption points",
  "No test in the suite runs CML at all; a test would fix one schedule, and lost wake-ups or double matches need particular queue states and pre-emption points.",
  ["cml/src/core-cml/channel.sml","cml/src/core-cml/scheduler.sml","cml/src/core-cml/queue.sml","cml/src/core-cml/event.sml"],
  [("atomic regions with deferred pre-emption","cml/src/core-cml/scheduler.sml"),("transaction ids and queue cleaning","cml/src/core-cml/channel.sml")],
  ["return of CML.send/recv/sync/sendPoll/recvPoll","end of RunCML.doit"],
  [("inQ/outQ","blocked receivers and senders of a channel","cml/src/core-cml/channel.sml")])

p("C02","CML choice commits exactly one branch and nacks exactly the losers",
  "Synchronizing on a CML event built with choose, wrap, wrapHandler, guard and withNack commits exactly one enabled base event, returns that event's value through exactly its own wrappers, applied once and innermost first, and withdraws all other offers. Guard functions run once per synchronization; the negative-acknowledgement event of a withNack sub-event becomes enabled exactly when the synchronization commits to a branch outside that sub-event. An event value can be synchronized on again any number of times with the same meaning.",
  ["schedules","programs"],"all event values built from the combinators to any nesting, all partner behaviours and pre-emption points",
  "No CML test exists in the suite; the number of event shapes, partner readiness patterns and interleavings is unbounded.",
  ["cml/src/core-cml/event.sml","cml/src/core-cml/channel.sml","cml/src/core-cml/rep-types.sml"],
  [("flag sets and condition variables for negative acknowledgements","cml/src/core-cml/event.sml"),("shared transaction id of one synchronization","cml/src/core-cml/event.sml")],
  ["return of CML.sync/select","events logged by guards, wrappers and nack watchers"])

p("C03","CML I-variables, M-variables and mailboxes keep their contracts",
  "An I-variable holds at most one value for ever: every read returns the value of the one successful put and every further put raises Put; an M-variable is a one-place buffer whose take, get, swap and put are atomic, put on a full one raises Put, and each value put is taken or swapped out at most once. A mailbox delivers the messages sent to it each exactly once and in the order sent, and send on it never waits for a receiver. A blocked reader resumes once a value it can take is available.",
  ["schedules","programs","histories"],"all operation histories over any number of cells and mailboxes from any number of threads, in blocking, event and polling form, at all pre-emption points",
  "No CML test exists in the suite; wake-up chains (several blocked readers, swap against take, cancelled offers left in queues) depend on history and schedule.",
  ["cml/src/core-cml/sync-var.sml","cml/src/core-cml/mailbox.sml"],
  [("relay of a value to all blocked readers","cml/src/core-cml/sync-var.sml"),("two-list mailbox queue","cml/src/core-cml/mailbox.sml")],
  ["return of SyncVar and Mailbox operations"])

p("C04","CML threads: join, timeouts, thread data and termination",
  "A thread's join event is enabled exactly from its termination on (by return, exit or uncaught exception), a runnable thread keeps getting processor time even when others never yield, and thread-local data and flags are seen only by their own thread. A timeout event is never enabled before its time and is enabled after it, and timeouts of different due times fire in that order. RunCML.doit returns the status given to shutdown, or returns by itself once every thread is blocked or dead with no timeout pending, and can then be called again.",
  ["schedules","programs","histories"],"all thread programs, spawn trees, exit modes, delays and quanta",
  "No CML test exists in the suite; depends on the history of thread states and the clock.",
  ["cml/src/core-cml/thread.sml","cml/src/core-cml/timeout.sml","cml/src/core-cml/scheduler.sml","cml/src/glue/run-cml-fn.sml","cml/src/core-cml/barrier.sml"],
  [("per-thread dead condition variable","cml/src/core-cml/thread.sml"),("sorted timer queue","cml/src/core-cml/timeout.sml"),("two-level ready queue","cml/src/core-cml/scheduler.sml")],
  ["thread event log, RunCML.doit result"])

p("C05","Garbage collection never changes what a program can observe",
  "For every sequence of allocations, updates and collections of any generation, every object reachable from the program keeps its contents, its identity and its sharing, whatever its kind (tuples, closures, lists, refs, arrays, vectors, strings, byte arrays, real arrays, large objects, boxed words and reals) and whatever its age. In particular a young object stored into an old mutable object survives, and mutating through one alias is seen through all. Memory of unreachable objects is reclaimed, so a program whose live data is bounded runs in bounded memory.",
  ["histories","programs"],"all mutator histories and all placements of minor and major collections",
  "The tests collect only incidentally and never check old-to-young stores, large objects or promotion order.",
  ["base/runtime/gc/minor-gc.c","base/runtime/gc/major-gc.c","base/runtime/gc/flip.c","base/runtime/gc/big-objects.c","base/runtime/gc/call-gc.c","base/runtime/gc/ml-objects.c","base/runtime/gc/record-ops.c"],
  [("store list and card/dirty marking of old arrays","base/runtime/gc/minor-gc.c"),("copying collection with forwarding","base/runtime/gc/minor-gc.c"),("big-object regions","base/runtime/gc/big-objects.c")],
  ["walk of the object graph from the roots after each collection"])

p("C06","Weak pointers: kept while reachable, cleared when not, never wrong",
  "A weak pointer yields its own referent as long as the referent is strongly reachable, at every age and after every collection; once the referent is unreachable and its generation has been collected the weak pointer yields NONE, and from then on always NONE. Weak pointers never keep their referents alive and never yield another object, and a suspension is evaluated at most once however often and wherever it is forced.",
  ["histories"],"all histories of allocation, dropping, copying of weak pointers, forcing, and collections of every generation",
  "No test uses weak pointers or suspensions; clearing depends on generation of pointer and referent and the collection history.",
  ["base/runtime/gc/minor-gc.c","base/runtime/gc/major-gc.c","base/runtime/gc/gc-util.c","base/system/Basis/Implementation/NJ/weak.sml","base/system/Basis/Implementation/NJ/susp.sml"],
  [("weak list scanning and nulling after copying","base/runtime/gc/gc-util.c")],
  ["SMLofNJ.Weak.strong, SMLofNJ.Susp.force"])

p("C07","Heap images reproduce the exported state exactly",
  "Resuming an image made by exportML or exportFn gives a process whose reachable heap has the same contents, sharing, cycles and mutability as at the export, with the exporting call reporting on which side it returned, and command-line arguments reaching the exported function in order and unchanged with the standard runtime arguments removed. Exporting does not disturb the exporting process, images can be exported again from an imported image, and the exit status of the exported function becomes the exit status of the process.",
  ["histories","programs","configurations"],"all heap states (kinds, ages and sharing of objects, preceding collections) and argument lists, over chains of exports",
  "The build exports images but nothing checks the object graph that comes back; the tests never export.",
  ["base/runtime/gc/export-heap.c","base/runtime/gc/import-heap.c","base/runtime/gc/heap-in-util.c","base/runtime/gc/heap-out-util.c","base/system/Basis/Implementation/NJ/export.sml"],
  [("heap image writer and address relocation on import","base/runtime/gc/import-heap.c")],
  ["process started with @SMLload on the image"])

p("C08","Signals: every one reaches its handler, masked ones wait, work is unharmed",
  "A signal for which a handler is installed runs that handler, with a count equal to the number received since its last run (of signals held back by the mask while others were pending in the kernel, at least one), at some later point of the running program, which then continues at the continuation the handler returns, every variable unchanged. While signals are masked no handler of a masked signal runs and nothing is lost; masks nest, and the handlers run when the last mask is removed; handlers do not interrupt handlers. Installing, overriding, ignoring, defaulting and querying handlers return the previous action and affect only that signal; a default action ends the process by exactly that signal. pause returns when a signal has been handled, and not before. The interval timer delivers alarm signals at the interval set until it is turned off. The GC signal is delivered after exactly those collections that reach the threshold generation.",
  ["schedules","histories"],"all histories of setHandler, overrideHandler, inqHandler, maskSignals, unmaskSignals, masked, pause, interval timers, signals from this and another process, garbage collections and handler behaviours (raising signals, masking, changing handlers, collecting, continuing elsewhere)",
  "No test touches signals.",
  ["base/runtime/mach-dep/signal-util.c","base/runtime/mach-dep/unix-signal.c","base/runtime/kernel/run-ml.c","base/runtime/gc/call-gc.c","base/runtime/c-libs/smlnj-signals","base/runtime/c-libs/smlnj-runtime/itick.c","base/runtime/c-libs/smlnj-runtime/setitimer.c","base/system/Basis/Implementation/NJ/internal-signals.sml"],
  [("pending counts chosen by the runtime","base/runtime/mach-dep/signal-util.c"),("signal masks and actions","base/runtime/mach-dep/unix-signal.c"),("interrupting and resuming ML code","base/runtime/kernel/run-ml.c"),("nested mask count","base/system/Basis/Implementation/NJ/internal-signals.sml")],
  ["handler invocations and results of Signals and IntervalTimer calls, results of interrupted computations, status of processes that die"])

p("C09","Process termination runs every exit action once, in order",
  "When a program terminates through OS.Process.exit, every action registered with OS.Process.atExit runs exactly once, most recently registered first, even if some of them raise exceptions or themselves call exit or atExit; buffered output is then flushed and the process ends with the requested status. OS.Process.terminate ends the process with the requested status and runs no action.",
  ["histories","fault_sequences"],"all sequences of registrations, all mixes of raising, exiting and registering actions, all statuses",
  "No test looks at exit actions.",
  ["base/system/Basis/Implementation/OS/at-exit.sml","base/system/Basis/Implementation/NJ/cleanup.sml","base/system/Basis/Implementation/Unix/os-process.sml","base/system/Basis/Implementation/IO/clean-io.sml"],
  [("at-exit list popped before each action","base/system/Basis/Implementation/OS/at-exit.sml")],
  ["output and exit status of the process"])

p("C10","Compiled core programs behave as the Definition of Standard ML says",
  "For every well-typed core-language program, the compiled code evaluates to the value, raises the exception and performs the effects, in the order, that the Definition of Standard ML prescribes: call by value, left-to-right evaluation, first-match pattern matching, reference-cell aliasing, exception raising and handling, recursion, and integer arithmetic that raises Overflow or Div instead of wrapping. First-class continuations resume where they were captured, any number of times. No optimisation of the compiler changes this.",
  ["programs","inputs"],"all programs over functions, tuples, datatypes, references, arrays, exceptions, continuations and integers, compiled interactively or in batch",
  "The test programs are a fixed handful; an optimiser error shows only on particular program shapes.",
  ["base/compiler/FLINT/trans/translate.sml","base/compiler/FLINT/opt/fcontract.sml","base/compiler/CPS/opt/contract.sml","base/compiler/CPS/opt/eta.sml","base/compiler/CPS/opt/expand.sml","base/compiler/CPS/clos/closure.sml","base/compiler/CodeGen/main/mlriscGen.sml"],
  [("CPS and FLINT optimisers","base/compiler/CPS/opt"),("closure conversion","base/compiler/CPS/clos/closure.sml")],
  ["printed result and effect trace of the compiled program"])

p("C11","Pattern matching picks the first match; its warnings are exact",
  "A match evaluates the first rule whose pattern matches the value, with the right bindings, and raises Match (or Bind) exactly when none does. The compiler reports a match as nonexhaustive exactly when some value of the type matches no rule, and marks a rule redundant exactly when every value it matches is matched by an earlier rule.",
  ["programs","inputs"],"all rule lists over datatypes, tuples, constants, nested, layered, wildcard and or-patterns, and all values",
  "Test programs contain few match shapes, and none checks the diagnostics.",
  ["base/compiler/FLINT/trans/matchcomp.sml","base/compiler/FLINT/trans/mcprint.sml"],
  [("match compiler decision trees","base/compiler/FLINT/trans/matchcomp.sml")],
  ["value of the match expression; compiler diagnostics"])

p("C12","Type inference accepts exactly the typable programs, principally",
  "A core-language declaration is accepted exactly when the Definition's typing rules give it a type, and the type reported is the principal one: polymorphic exactly where generalisation is allowed, with the value restriction keeping type variables of non-expansive-only bindings. Accepted programs never go wrong: no ill-typed application reaches run time.",
  ["programs"],"all expressions over functions, let-polymorphism, pairs, lists, references, equality types and exceptions",
  "Tests use a fixed set of programs, almost all well typed.",
  ["base/compiler/Elaborator/types/unify.sml","base/compiler/Elaborator/types/typecheck.sml","base/compiler/ElabData/types/typesutil.sml"],
  [("unification with occurs check and generalisation depth","base/compiler/Elaborator/types/unify.sml"),("value restriction","base/compiler/ElabData/types/typesutil.sml")],
  ["accept/reject and printed type at top level"])

p("C13","A failed top-level phrase changes nothing",
  "In the interactive system and in 'use', a phrase that is rejected by the parser or the elaborator or that ends with an uncaught exception leaves all bindings as they were, while its completed side effects on the store remain; a phrase that succeeds adds or shadows exactly its own bindings. Earlier closures keep the bindings they were compiled with, and the session can always continue.",
  ["histories","fault_sequences"],"all sequences of successful, ill-formed, ill-typed and raising phrases, shadowing values, types, structures, exceptions and fixities, typed or loaded by nested use",
  "No test runs a multi-phrase session with failures and inspects the bindings.",
  ["base/compiler/TopLevel/interact/evalloop.sml","base/compiler/TopLevel/interact/interact.sml","base/compiler/TopLevel/environ/environ.sml"],
  [("environment committed after execution only","base/compiler/TopLevel/interact/evalloop.sml")],
  ["values printed by following phrases"])

p("C14","Fixed-size and unbounded integer arithmetic is exact",
  "Every integer operation gives the mathematically exact result or raises Overflow exactly when that result is out of range and Div exactly for a zero divisor; word operations are exact modulo the word size; div/mod round toward negative infinity and quot/rem toward zero; IntInf never overflows. Conversions between sizes, shifts, bit operations, comparisons and radix printing and scanning are exact too, and an expression the compiler evaluates at compile time has the same outcome as at run time.",
  ["inputs","programs"],"all operand values and operations of Int, Int32, Int64, IntInf, Word, Word8, Word32, Word64 and the conversions between them, as constants or as run-time values",
  "The suite has no integer tests; errors sit at range boundaries, limb carries, shift amounts and constant folding.",
  ["base/system/Basis/Implementation/int-inf.sml","base/system/Basis/Implementation/Target64Bit/int.sml","base/system/Basis/Implementation/int32.sml","base/system/Basis/Implementation/word8.sml","base/system/Basis/Implementation/Target64Bit/word.sml","base/compiler/CPS/opt/contract.sml","base/compiler/CPS/main/int-inf-cnv.sml"],
  [("core IntInf limb arithmetic","base/system/smlnj/init/core-intinf.sml"),("trapping arithmetic and constant folding","base/compiler/CPS/opt/contract.sml")],
  ["results of the Basis operations"])

p("C15","CM incremental builds equal clean builds and redo only what they must",
  "After any history of source edits, group-description edits and builds (successful, failed or in separate sessions), CM.make yields exactly the program a build from scratch would yield, and it fails exactly when the clean build fails. A unit is recompiled exactly when its own source changed or an interface it depends on changed, so an unchanged interface cuts recompilation off; units are elaborated once and before their users.",
  ["histories","configurations","crash_points"],"all acyclic dependency graphs and all histories of edits, failures and builds, stable and unstable libraries",
  "No test edits sources between builds.",
  ["base/cm/compile/compile.sml","base/cm/compile/link.sml","base/cm/smlfile/smlinfo.sml","base/cm/smlfile/skel-cvt.sml","base/cm/stable/stabilize.sml","base/cm/depend/build.sml","base/cm/paths/tstamp.sml"],
  [("bin-file up-to-date test by interface pids","base/cm/compile/compile.sml"),("skeleton cache","base/cm/smlfile/smlinfo.sml")],
  ["program output, CM messages"])

p("C16","CM groups: visibility, ordering and rejection of bad descriptions",
  "A group or library description makes visible to its client exactly the symbols in its export list, a source sees exactly what its imports and its siblings export, and definitions resolve to the sibling that defines them. Cyclic dependencies among sources or groups, a symbol defined twice, an exported symbol that nobody defines and an unresolvable import are rejected, never silently resolved; preprocessor conditionals select exactly the enabled members.",
  ["configurations","programs"],"all small group graphs with export lists and conditionals",
  "No CM test is part of the suite.",
  ["base/cm/depend/build.sml","base/cm/semant/semant.sml","base/cm/semant/members.sml","base/cm/parse/cm.grm","base/cm/smlfile/skel-exports.sml"],
  [("dependency analysis over skeletons","base/cm/depend/build.sml")],
  ["result of CM.make and what the client can refer to"])

p("C17","Input streams are lazy immutable sequences under any reader",
  "A functional input stream denotes a fixed sequence of elements and end-of-files: reading from the same stream value twice gives the same result, input, input1, inputN, inputAll, inputLine, canInput and lookahead agree about that sequence whatever the chunks the reader delivers, and the reader is asked for no element twice. A reader's exception reaches the caller as Io and consumes nothing, a multiple end-of-file is seen once per read, and closing or truncating a stream makes it end after the elements already read. Imperative streams are a cursor over this sequence.",
  ["histories","fault_sequences","inputs"],"all contents, chunkings, end-of-file positions, reader failures and operation histories, for text and binary streams",
  "The tests read files only sequentially, with one chunking and no failures.",
  ["base/system/Basis/Implementation/IO/text-io-fn.sml","base/system/Basis/Implementation/IO/bin-io-fn.sml","base/system/Basis/Implementation/IO/prim-io-fn.sml"],
  [("linked buffer chain with shared mutable tail","base/system/Basis/Implementation/IO/text-io-fn.sml")],
  ["results of StreamIO and imperative IO operations, calls on the reader"])

p("C18","Output streams deliver every element once, in order, when due",
  "For every history of output operations on a stream, the sequence delivered to the writer is at each moment a prefix of what was written, in order and without loss or duplication whatever partial writes the writer makes; it is complete after flushOut, closeOut, setting the mode to unbuffered, after each operation on an unbuffered stream, and up to the last newline on a line-buffered text stream. Writing to a closed stream raises Io with ClosedStream, and closing twice is harmless.",
  ["histories","fault_sequences"],"all histories of output, output1, outputSubstr, setBufferMode, flush, close and redirection, buffer sizes and partial-write patterns",
  "The tests write only through stdOut and check none of this.",
  ["base/system/Basis/Implementation/IO/text-io-fn.sml","base/system/Basis/Implementation/IO/bin-io-fn.sml"],
  [("output buffer and writer retry loop","base/system/Basis/Implementation/IO/text-io-fn.sml")],
  ["calls received by the writer"])

p("C19","Arrays, vectors and slices: exact bounds, exact copies",
  "Every access, update, slice, copy, tabulate and search on arrays, vectors, strings, substrings and their slices, polymorphic and monomorphic, acts on exactly the elements the Basis says, and raises Subscript or Size exactly when an index, length or range is out of bounds, in which case nothing has been changed. Overlapping copies behave as if through a temporary, iteration visits elements in the stated order, and vectors never change.",
  ["inputs","histories"],"all lengths, indices (including negative and huge ones), ranges, overlaps and operation histories",
  "The suite has no array tests; errors sit at empty ranges, end points, overlap directions and huge indices.",
  ["base/system/Basis/Implementation/array.sml","base/system/Basis/Implementation/vector.sml","base/system/Basis/Implementation/array-slice.sml","base/system/Basis/Implementation/vector-slice.sml","base/system/Basis/Implementation/word8-array.sml","base/system/Basis/Implementation/char-array.sml","base/system/Basis/Implementation/real64-array.sml","base/system/Basis/Implementation/substring.sml","base/system/Basis/Implementation/string.sml"],
  [("explicit bounds checks and copy direction","base/system/Basis/Implementation/array.sml")],
  ["results and exceptions of the operations"])

p("C20","Ordered maps and sets are persistent finite maps and sets",
  "Every ordered map and set of the SML/NJ library, in all its implementations, behaves as a finite map or set over its keys: insert, remove, find, inDomain, union, intersection, difference, merge, filter, map, fold, iteration in increasing key order, counting, comparison and equality give the mathematical results, and operations never change the maps or sets they were applied to. All implementations of an interface agree.",
  ["histories","inputs"],"all operation histories over any keys, starting from any previously built versions",
  "The suite tests none of these libraries; balancing errors show only for particular insert and remove orders.",
  ["smlnj-lib/Util/redblack-map-fn.sml","smlnj-lib/Util/redblack-set-fn.sml","smlnj-lib/Util/binary-map-fn.sml","smlnj-lib/Util/binary-set-fn.sml","smlnj-lib/Util/splay-map-fn.sml","smlnj-lib/Util/splay-set-fn.sml","smlnj-lib/Util/list-map-fn.sml","smlnj-lib/Util/int-redblack-map.sml"],
  [("red-black rebalancing on delete","smlnj-lib/Util/redblack-map-fn.sml"),("weight-balanced trees","smlnj-lib/Util/binary-map-fn.sml")],
  ["results of the map and set operations"])

p("C21","Mutable containers of the library behave as their abstract models",
  "Hash tables and hash sets (polymorphic, functorial, int-, word- and atom-keyed), queues, priority queues, dynamic arrays, bit arrays, union-find references and property lists behave, over every history of operations, as a finite map, set, sequence, multiset, infinite array, bit vector, equivalence relation and finite map; missing keys and empty structures raise exactly the documented exceptions. Growing, rehashing, copying and clearing lose and duplicate nothing.",
  ["histories"],"all operation histories, including growth across resize thresholds and removals during them",
  "The suite tests none of these; errors appear only beyond resize thresholds or after particular histories.",
  ["smlnj-lib/Util/hash-table-rep.sml","smlnj-lib/Util/hash-table-fn.sml","smlnj-lib/Util/hash-table.sml","smlnj-lib/Util/hash-set-fn.sml","smlnj-lib/Util/dynamic-array.sml","smlnj-lib/Util/bit-array.sml","smlnj-lib/Util/left-priorityq-fn.sml","smlnj-lib/Util/uref.sml","smlnj-lib/Util/fifo.sml","smlnj-lib/Util/queue.sml","smlnj-lib/Util/plist.sml"],
  [("bucket growth","smlnj-lib/Util/hash-table-rep.sml")],
  ["results of the container operations"])

p("C22","Regular-expression engines find exactly the specified match",
  "For every regular expression and input, each engine of the RegExp library finds a match exactly when one exists, prefix and find report the right starting position, the whole-match and sub-match extents are those of its documented rule (leftmost start; longest for the automaton engines), and the unread input returned begins right after the match. Parsing the AWK syntax builds the expression the syntax describes and rejects malformed input.",
  ["inputs","programs"],"all regular expressions over the supported operators and all input strings",
  "The suite's RegExp cases only check that nothing is raised, for a few fixed patterns.",
  ["smlnj-lib/RegExp/BackEnd/bt-engine.sml","smlnj-lib/RegExp/BackEnd/dfa-engine.sml","smlnj-lib/RegExp/BackEnd/thompson-engine.sml","smlnj-lib/RegExp/BackEnd/fsm.sml","smlnj-lib/RegExp/FrontEnd/awk-syntax.sml"],
  [("backtracking, subset construction and NFA simulation","smlnj-lib/RegExp/BackEnd")],
  ["match trees returned by find and prefix"])

p("C23","Generated lexers: longest match, first rule, all input accounted for",
  "A lexer produced by ml-lex or ml-ulex from any specification splits its input so that each token is the longest prefix matched by a rule active in the current start state, ties going to the earliest rule, with that rule's action run on exactly that text; start-state switches, continue/skip and reject act as documented, and input is consumed exactly once. Token positions and line numbers agree with the text, and end of input runs the end-of-file rule.",
  ["programs","inputs"],"all lexer specifications over the regular-expression operators and start states, and all inputs",
  "The suite generates one Pascal lexer and runs nine files through it.",
  ["lexgen/src","ml-lpt/ml-ulex","ml-lpt/lib/ulex-buffer.sml","ml-lex/lexgen.sml"],
  [("derivative-based automaton construction","ml-lpt/ml-ulex/FrontEnds"),("buffer and back-up in generated code","ml-lpt/lib/ulex-buffer.sml")],
  ["token sequence produced by the generated lexer"])

p("C24","Generated ml-yacc parsers accept exactly the grammar's language",
  "For every conflict-free grammar, the parser ml-yacc generates accepts exactly the sentences of the grammar, runs the semantic actions of the derivation bottom-up from left to right with the right attribute values, and reports an error on every other input. Conflicts are reported exactly where the LALR(1) automaton has them and resolved as documented: by precedence and associativity where declared, otherwise shift over reduce and the earlier production.",
  ["programs","inputs"],"all grammars, precedence declarations and token sequences",
  "The suite generates one Pascal parser and only looks at accept or reject of nine files.",
  ["ml-yacc/src/mklrtable.sml","ml-yacc/src/lalr.sml","ml-yacc/src/mkprstruct.sml","ml-yacc/src/look.sml","ml-yacc/lib/parser2.sml"],
  [("LALR(1) lookahead computation","ml-yacc/src/lalr.sml"),("table-driven parser","ml-yacc/lib/parser2.sml")],
  ["result of the generated parser, conflict report"])

p("C25","Pretty printing respects boxes, breaks, indentation and text",
  "For every document given to the pretty printer, the output contains exactly the strings of the document in order with only white space and newlines added, each break of a box is rendered as its spaces or as a newline with the indentation its box kind prescribes, and a box that fits on the remaining line is not broken. The layout depends only on the document and the line width, not on when it is flushed into the device.",
  ["programs","inputs"],"all nestings of boxes, breaks, styles and strings and all line widths",
  "The project's pretty-printing tests only print; the suite runs none.",
  ["smlnj-lib/PP/src/pp-stream-fn.sml"],
  [("token queue with size resolution","smlnj-lib/PP/src/pp-stream-fn.sml")],
  ["text received by the device"])

p("C26","JSON: parser accepts exactly JSON; print then parse is the identity",
  "The JSON parser and stream parser accept exactly the texts that are JSON values and agree with each other on the value or event sequence they denote, with strings, escapes, Unicode, numbers and nesting decoded exactly, and reject everything else with an error. Printing any JSON value, compactly or prettily, with any of the printers, yields a text that parses back to the same value.",
  ["inputs"],"all texts and all JSON values",
  "The suite has no JSON tests.",
  ["smlnj-lib/JSON/json-parser.sml","smlnj-lib/JSON/json-stream-parser.sml","smlnj-lib/JSON/json-printer.sml","smlnj-lib/JSON/json-stream-output.fun","smlnj-lib/JSON/json-source.sml"],
  [("recursive-descent parser and event printer","smlnj-lib/JSON")],
  ["parser result, printed text"])

p("C27","Path and name algebra of OS.Path is exact",
  "OS.Path operations obey the Basis laws on every string: toString of fromString is the identity on paths, splitting and joining of arcs, directory/file and base/extension are inverses, mkCanonical yields the unique canonical path and is idempotent, and concat, mkAbsolute and mkRelative compose to paths that denote the same file. Arguments outside the documented domain raise Path or InvalidArc and nothing else.",
  ["inputs"],"all path strings over arcs, '.', '..', empty arcs and volumes",
  "The suite has no path tests.",
  ["base/system/Basis/Implementation/OS/os-path-fn.sml","base/system/Basis/Implementation/Unix/os-path.sml"],
  [("arc list normalisation","base/system/Basis/Implementation/OS/os-path-fn.sml")],
  ["results of OS.Path functions"])

p("C28","Library algorithms: sorting, SCC, intervals, matching are exact",
  "List and array sorts return an ordered permutation (stable for the list sorts, with uniqueSort dropping exactly the equal elements), strongly-connected components come out as exactly the components in topological order, interval sets behave as sets of points with maximally merged intervals, and set products and edit distances are mathematically exact.",
  ["inputs","histories"],"all lists, arrays, graphs and interval-set histories",
  "The suite tests none of these.",
  ["smlnj-lib/Util/list-mergesort.sml","smlnj-lib/Util/array-qsort-fn.sml","smlnj-lib/Util/array-qsort.sml","smlnj-lib/Util/graph-scc-fn.sml","smlnj-lib/Util/interval-set-fn.sml","smlnj-lib/Util/edit-distance.sml","smlnj-lib/Util/list-xprod.sml"],
  [("natural merge sort, Bentley-McIlroy quicksort, Tarjan SCC","smlnj-lib/Util")],
  ["results of the functions"])

p("C29","Floating-point conversion and formatting are correctly rounded",
  "Real-to-string and string-to-real conversions are correctly rounded and round-trip every finite double at full precision.",
  ["inputs"],"all doubles and decimal strings",
  "Tests sample 192 conversions from a copied module.",
  ["base/system/Basis/Implementation/Real"],[("decimal conversion","base/system/Basis/Implementation/Real")],["Real.fmt, Real.fromString"])

p("C30","The C runtime is free of memory errors",
  "No ML program written without Unsafe makes the C runtime read or write outside the objects it owns.",
  ["programs","inputs"],"all safe programs",
  "Tests exercise a few C primitives.",
  ["base/runtime"],[("bounds and size calculations in C primitives","base/runtime/c-libs")],["process does not crash"])

p("C31","CML barriers and multicast channels synchronize and deliver exactly",
  "A barrier can be used again and again: wait returns exactly when every enrolled and not resigned thread is waiting, the update function is applied exactly once per synchronization, and all the waiters obtain the one new state, or all see the exception the update raised. A multicast port delivers, to recv and recvEvt, every message sent on its channel after the port was made, in the order sent and each exactly once, whatever other ports do, and a copied port goes on from the position of the original.",
  ["schedules","histories"],"all programs, schedules and pre-emption points",
  "The suite has no barrier or multicast tests.",
  ["cml/src/core-cml/barrier.sml","cml/cml-lib/multicast.sml"],
  [("barrier counting and release","cml/src/core-cml/barrier.sml"),("chain of I-variables per channel","cml/cml-lib/multicast.sml")],
  ["results of Barrier and Multicast operations"])

p("C32","File-system operations do to the file system exactly what POSIX says",
  "Every operation of Posix.FileSys and OS.FileSys (mkdir, rmdir, unlink, link, symlink, readlink, rename, mkfifo, open, create, chmod, chown, utime, access, stat, lstat, fstat, directory streams, chdir, getcwd, umask, pathconf, fullPath, realPath, tmpName, fileId, fileSize, modTime) succeeds exactly when the kernel's rules for names, links, permissions, owners and file types let it, has exactly the specified effect on the tree (and none when it fails), and returns exact values: every field of a stat record, modes, 64-bit sizes, access and modification times, link targets and paths of any length, each directory entry once whatever its name. A failing operation raises OS.SysErr with that error's number and leaves descriptors, directory and tree as they were.",
  ["inputs","histories"],"all sequences of file-system operations over all trees, names, links, modes and arguments, by privileged and ordinary users",
  "The suite never calls these functions; the results depend on the whole history of the tree, on permissions and on unusual names, sizes and error cases.",
  ["base/runtime/c-libs/posix-filesys","base/runtime/c-libs/unix-raise-syserr.c","base/runtime/c-libs/posix-os","base/system/Basis/Implementation/Posix/posix-filesys.sml","base/system/Basis/Implementation/Unix/os-filesys.sml"],
  [("conversion of stat structures, times and strings","base/runtime/c-libs/posix-filesys/stat.c"),("directory streams","base/runtime/c-libs/posix-filesys/readdir.c"),("error numbers raised as SysErr","base/runtime/c-libs/unix-raise-syserr.c")],
  ["results and exceptions of Posix.FileSys and OS.FileSys operations, and the resulting file tree"])

p("C33","Descriptor I/O transfers exactly the bytes, offsets, flags and locks asked for",
  "Posix.IO reads and writes (readVec, readArr, writeVec, writeArr, on files, pipes, FIFOs and shared descriptors) transfer exactly the bytes of the given slice from or to the current offset, report exactly the number moved, touch nothing else in arrays, and return strings that compare and match like any other. lseek, ftruncate, dup, dup2, dupfd, close, pipe, getfd/setfd, getfl/setfl and fsync give exactly the specified descriptors, 64-bit offsets and flags. getlk, setlk and setlkw report and change record locks of the process exactly as specified for every type, whence, start and length, against any locks of other processes. A failing call raises OS.SysErr with that error's number and changes nothing.",
  ["inputs","histories","schedules"],"all sequences of descriptor operations, offsets, lengths, slices, flags and lock ranges by one or several processes",
  "The suite does not test Posix.IO; the effects depend on the history of shared offsets, flags, pipes and locks and on sizes beyond 32 bits.",
  ["base/runtime/c-libs/posix-io","base/system/Basis/Implementation/Posix/posix-io.sml"],
  [("transfer into freshly allocated or existing objects","base/runtime/c-libs/posix-io/read.c"),("record locks","base/runtime/c-libs/posix-io/fcntl_l.c"),("seek and descriptor control","base/runtime/c-libs/posix-io/lseek.c")],
  ["results and exceptions of Posix.IO operations"])

p("C34","Processes, wait statuses, groups, signals sent and programs run are exact",
  "fork gives parent and child exactly their own identities; getpid, getppid, getpgrp, setpgid and setsid report and change exactly the specified relations. Every death or stop of a child is reported to exactly one wait or waitpid (any, child, same group, group; WNOHANG, untraced) of its parent, with its true cause: exit status 0-255, killing signal, or stopping signal. kill reaches exactly the named process, group or own group with exactly that signal. exec, execp and exece run the named program with exactly the given argument list and exactly the given (or the current) environment, keeping ignored signals ignored. alarm and sleep return the time remaining and act at the requested time; pause returns after a handled signal. A call that fails raises OS.SysErr with that error and has no effect.",
  ["inputs","histories","schedules"],"all histories of up to eight processes forking, grouping, signalling, stopping, exiting, waiting and executing programs",
  "No test forks a process; what a wait may report depends on the whole history of the family of processes.",
  ["base/runtime/c-libs/posix-process","base/runtime/c-libs/posix-procenv","base/system/Basis/Implementation/Posix/posix-process.sml"],
  [("wait statuses","base/runtime/c-libs/posix-process/waitpid.c"),("argument and environment vectors","base/runtime/c-libs/posix-process/exece.c"),("signals sent","base/runtime/c-libs/posix-process/kill.c")],
  ["results and exceptions of Posix.Process and Posix.ProcEnv operations in every process of a family"])

p("C36","Sockets deliver exactly what was sent, from whom, where, and report errors",
  "Over UNIX-domain and loopback TCP/UDP sockets: a stream delivers the exact bytes sent, in order, once, then end of stream; a datagram socket delivers whole datagrams (cut to the space offered) in order with the true source address; slices and buffers are respected: nothing outside the given slice is sent or overwritten. peek takes nothing; out-of-band bytes stay apart from the stream (or in it with OOBINLINE), and atMark tells where. accept returns waiting connections in order with the peer's address; getSockName and getPeerName, fromAddr and toAddr, families and types are exact; every socket option reads back what was set and affects only itself; shutdown closes exactly the named direction; the non-blocking forms return NONE/false exactly when the operation would block; select reports exactly the ready descriptors. A failing call raises OS.SysErr with the specified error and has no effect.",
  ["inputs","histories"],"all histories of socket creation, naming, connection, transfer, option and shutdown operations over up to 14 sockets of one process",
  "No test opens a socket; what a receive may return depends on every send, close and shutdown before it.",
  ["base/runtime/c-libs/smlnj-sockets","base/system/Basis/Implementation/Sockets"],
  [("sending from slices","base/runtime/c-libs/smlnj-sockets/sendbuf.c"),("receiving into buffers","base/runtime/c-libs/smlnj-sockets/recvbuf.c"),("source addresses","base/runtime/c-libs/smlnj-sockets/recvfrom.c"),("address conversion","base/runtime/c-libs/smlnj-sockets/from-inetaddr.c"),("options","base/runtime/c-libs/smlnj-sockets/util-sockopt.c")],
  ["results and exceptions of Socket, UnixSock, INetSock and Socket.Ctl operations"])

p("C37","Dates, the clock and timers agree with the calendar and the system",
  "For every time from 1970 to 2554 and every time zone the system knows: Date.fromTimeUniv and fromTimeLocal give the calendar fields (year, month, day, hour, minute, second, week day, day of the year, daylight saving flag) of that instant, in UTC and in the local zone; Date.toTime is their inverse; Date.localOffset is the current zone's offset; Date.date of any field values (days, hours, minutes, seconds out of range) is the canonical date; Date.compare orders dates; Date.fmt produces exactly what strftime prescribes for every conversion (other text is copied), Date.toString and fromString are inverse. Time.now is the system's clock; a real timer advances with the wall clock; CPU timers report the user, system and collector time this process has used, each once.",
  ["inputs","histories"],"all times 1970-2554 with microseconds, all zones incl. southern, half-hour and historical offsets, gaps and overlaps, all field values and formats; all mixes of computing, system calls, collections and sleeping between timer reads",
  "The tests sample no zone and no timer.",
  ["base/runtime/c-libs/smlnj-date","base/runtime/c-libs/smlnj-time","base/runtime/kernel/unix-timers.c","base/runtime/kernel/timers.c","base/system/Basis/Implementation/date.sml","base/system/Basis/Implementation/time.sml"],
  [("broken-down times","base/runtime/c-libs/smlnj-date/localtime.c"),("inverse","base/runtime/c-libs/smlnj-date/mktime.c"),("formatting","base/runtime/c-libs/smlnj-date/strftime.c"),("clock","base/runtime/c-libs/smlnj-time/timeofday.c"),("CPU and collector times","base/runtime/c-libs/smlnj-time/gettime.c")],
  ["results and exceptions of Date, Time.now, Timer"])

p("C35","Command line, environment, identities and system data bases are reported exactly",
  "A program sees its command line exactly: CommandLine.arguments and SMLofNJ.getArgs are the arguments in order without those that begin with @SML (and less one per shiftArgs), getAllArgs all of them, getCmdName the first or the last @SMLcmdname. Posix.ProcEnv.environ is the environment in order and getenv/OS.Process.getEnv the value of its first matching entry, for any number and length of entries. getuid, geteuid, getgid, getegid, getgroups (any number of groups), setuid and setgid follow the rules of real, effective and saved identities, with the right error; uname, sysconf, isatty, ttyname, ctermid, getpid, getppid, time and times report the kernel's values. Posix.SysDB.getpwnam, getpwuid, getgrnam, getgrgid and the service, protocol, network and host lookups of NetServDB, NetProtDB, NetDB and NetHostDB return every field of the first matching entry of the data base and nothing (or SysErr) when there is none. All this holds wherever garbage collections happen.",
  ["inputs","histories"],"all argument and environment vectors, identities, group lists, terminals, data base entries and keys; all histories of shifts, identity changes and collections",
  "No test starts a program with other arguments, environment or identities than the tester's.",
  ["base/runtime/c-libs/posix-procenv","base/runtime/c-libs/posix-sysdb","base/runtime/c-libs/smlnj-sockets","base/runtime/c-libs/smlnj-runtime","base/runtime/kernel/main.c","base/runtime/kernel/ml-options.c","base/runtime/gc/ml-objects.c"],
  [("arguments","base/runtime/kernel/main.c"),("lists of strings","base/runtime/gc/ml-objects.c"),("groups","base/runtime/c-libs/posix-procenv/getgroups.c"),("configuration values","base/runtime/c-libs/posix-procenv/sysconf.c"),("users and groups","base/runtime/c-libs/posix-sysdb/getpwnam.c"),("services","base/runtime/c-libs/smlnj-sockets/util-mkservent.c"),("hosts","base/runtime/c-libs/smlnj-sockets/util-mkhostent.c")],
  ["results and exceptions of CommandLine, SMLofNJ.getArgs/getAllArgs/shiftArgs/getCmdName, Posix.ProcEnv, Posix.SysDB, NetHostDB, NetServDB, NetProtDB, NetDB"])

p("C38","Polling reports exactly what is ready, in order, and waits no less than asked",
  "OS.IO.poll reports, for every item of its list and in the order of the list (also for descriptors listed several times and lists of thousands of items), exactly those of the conditions asked for in that item that hold: input when a read would not wait (data or end of file), output when a write would not wait, urgent data when there is some; items for which none holds are left out. With a time-out it returns the empty list no earlier than asked, and only if nothing is ready; without one it waits until something is; it returns as soon as another process makes a descriptor ready; closed descriptors raise SysErr. This holds wherever garbage collections happen.",
  ["inputs","histories","schedules"],"all lists of descriptors (below the limit of select) and conditions, all states of pipes, files and sockets, all time-outs, writes by other processes at any moment",
  "No test polls; what must be reported depends on the history of every descriptor.",
  ["base/runtime/c-libs/posix-os/poll.c","base/system/Basis/Implementation/Unix/os-io.sml"],
  [("descriptor sets and report","base/runtime/c-libs/posix-os/poll.c")],
  ["results, exceptions and duration of OS.IO.poll"])

# candidates that were drafted but for which no specification-based check was built: not part of properties.jsonl
DRAFTS={"C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C21","C22","C23","C24","C25","C26","C27","C28"}
P=[x for x in P if x["id"] not in DRAFTS]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
