T["C20"] = ("TLA+ specification of maps/sets (spec/OrdMap.tla), TLC-checked laws, trace validation of recorded operation histories of every map and set structure",
  "The specification's algebraic laws are checked exhaustively by TLC on a small universe; each run of the real code (every map and set structure of smlnj-lib, random histories with shared versions) is accepted only if it is a behaviour of the specification. Assumes the sampled histories are representative; trusts TLC and the SML driver's logging.")

_cml = "The CML specification (spec/Cml.tla) is explored exhaustively by TLC for all programs of three threads over a small menu of operations and all schedules; logs of generated programs run on the real CML, with and without pre-emption in mid-operation, are accepted only if TLC finds a behaviour of the specification that explains every result. Assumes the generated programs and observed schedules are representative; trusts TLC and the interpreter's logging."
T["C01"] = ("TLA+ specification of CML (spec/Cml.tla), exhaustive TLC exploration of small programs, trace validation of generated channel programs run on the real CML", _cml)
T["C02"] = ("TLA+ specification of CML events, choice, wrappers and nacks (spec/Cml.tla), exhaustive TLC exploration, trace validation of generated event programs", _cml)
T["C03"] = ("TLA+ specification of I-variables, M-variables and mailboxes (spec/Cml.tla), exhaustive TLC exploration, trace validation of generated programs", _cml)
T["C04"] = ("TLA+ specification of CML threads, joins, timeouts and thread data (spec/Cml.tla), exhaustive TLC exploration, trace validation including timed and spinning programs", _cml + " Timeouts are checked with a tolerance of 40 ms because CML reads the clock once per time slice.")
T["C31"] = ("TLA+ specification of barriers and multicast (spec/Cml.tla), trace validation of generated programs", _cml)

_heap = "spec/GenGC.tla (an abstract generational collector with the store list, promotion and weak objects) is explored exhaustively by TLC against the reachability semantics; histories of a random mutator over every kind of heap object, run on the real runtime with many generation/allocation-area settings, are accepted only if they are behaviours of spec/Heap.tla, in which collections are invisible. Assumes the generated histories are representative; trusts TLC and the driver's logging."
T["C05"] = ("TLA+ specification of the heap and a generational collector (spec/Heap.tla, GenGC.tla), exhaustive TLC exploration of the collector model, trace validation of random mutator histories on the real runtime", _heap)
T["C06"] = ("TLA+ specification of weak pointers and suspensions in a generational heap (spec/Heap.tla, GenGC.tla), TLC, trace validation of mutator histories with drop-and-collect probes", _heap)
T["C07"] = ("TLA+ specification of heap images (spec/Heap.tla, HeapImgTrace.tla), trace validation of chains of exports and resumptions of the real runtime", "Chains of exportML/exportFn from states reached by the random mutator of C05 are resumed by fresh processes, which dump the object graph; the dump must be the state of spec/Heap.tla at the export, and arguments and exit status must match. Assumes the generated histories are representative; trusts TLC and the driver's logging.")

_posix = "spec/Posix.tla specifies the file tree, inodes, descriptors, open files, pipes and record locks as one state machine; TLC checks invariants of it exhaustively on small universes (PosixMC), and random scripts of operations run through the SML Posix and OS structures on the real runtime, by an unprivileged user in a scratch tree, are accepted only if TLC finds the recorded results (every field, every error) to be a behaviour of the specification. Assumes Linux and a local file system; sampled scripts."
T["C32"] = ("TLA+ specification of the file system interface (spec/Posix.tla), exhaustive TLC exploration of small trees, trace validation of random scripts run through Posix.FileSys and OS.FileSys", _posix)
T["C33"] = ("TLA+ specification of descriptors, pipes and record locks (spec/Posix.tla), exhaustive TLC exploration, trace validation of random scripts of one or several processes run through Posix.IO", _posix)
T["C34"] = ("TLA+ specification of processes, groups, sessions, signals, waiting and program execution (spec/Proc.tla), exhaustive TLC exploration (spec/ProcMC.tla), trace validation of random histories of up to 8 real processes", "Scripts run as unprivileged users of their own in a scratch directory; scripts keep process groups with stopped members from being orphaned.")
T["C36"] = ("TLA+ specification of stream and datagram sockets (spec/Sock.tla), exhaustive TLC exploration (spec/SockMC.tla), trace validation of random scripts over UNIX and loopback sockets", "spec/SockMC.tla explores all orders of all operations on up to four UNIX sockets (nothing lost, invented, duplicated or reordered; partners agree; every operation has an outcome); random scripts on the real runtime, over UNIX-domain, TCP and UDP loopback sockets, are accepted only if every recorded result is a behaviour of spec/Sock.tla. Assumes Linux's loopback; the harness waits for data in flight before reading.")
T["C08"] = ("TLA+ specification of signal handlers, masks and pending counts (spec/Sig.tla), exhaustive TLC exploration (spec/SigMC.tla), trace validation of random histories of the real runtime", "spec/SigMC.tla explores all interleavings of arrivals, masking, handler changes and handler runs (nothing lost, no masked handler runs, handlers do not nest); random scripts on the real runtime, with signals from the process itself and from another one during allocation-heavy computations, are accepted only if every handler invocation, count and result is a behaviour of spec/Sig.tla. Assumes Linux's coalescing of pending signals; sampled schedules.")
T["C37"] = ("TLA+ specification of the calendar, time zones, formatting and clocks (spec/Date.tla), TLC exploration of every day and zone rule of small universes (spec/DateMC.tla), trace validation of Date, Time and Timer results of the real runtime", "Zone tables are given to the specification as transition lists read from the system's zone files by the harness; the calendar, conversions and formats are specified in TLA+. Clock readings must lie between readings the harness takes around them, up to a stated tolerance.")
T["C35"] = ("TLA+ specification of command lines, environments, identities and data bases (spec/Env.tla), exhaustive TLC exploration (spec/EnvMC.tla), trace validation of processes started with random command lines, environments, identities, groups and terminals", "spec/EnvMC.tla explores all identity changes, shifts and lookups of a small universe (saved-identity rules, privileges never regained, arguments only ever shifted); the data bases are given to the specification as tables read by the harness from the files the C library reads. Assumes those files are the only sources; trusts TLC and the SML driver's logging.")
T["C38"] = ("TLA+ specification of polling (spec/Poll.tla), exhaustive TLC exploration (spec/PollMC.tla), trace validation of random histories of pipes, files and sockets on the real runtime", "spec/PollMC.tla explores all histories of two or three pipes and a file and shows that the reports the specification demands are exactly what reading and writing would do without waiting; random histories with lists of up to 1500 items are accepted only if every report and duration is the specified one. Assumes the sampled histories are representative; trusts TLC and the SML driver's logging.")
