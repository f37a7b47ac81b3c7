-------------------------------- MODULE Proc --------------------------------
(* Processes: parents, process groups, sessions, signals and their dispositions, stopping, exit statuses,
   waiting, alarms and program execution, as seen through Posix.Process and Posix.ProcEnv.
   Process 0 is the first one; the process ID of process k is k.  -1 stands for the system's reaper.
   Out(s, p, o) is the set of outcomes [s, e, r] of operation o by process p in state s.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
HUP == 1  INT == 2  QUIT == 3  KILL == 9  USR1 == 10  USR2 == 12  PIPE == 13  ALRM == 14  TERM == 15
CHLD == 17  CONT == 18  STOP == 19  URG == 23  WINCH == 28
Sigs == {HUP, INT, QUIT, KILL, USR1, USR2, PIPE, ALRM, TERM, CHLD, CONT, STOP, URG, WINCH}
Quiet == {CHLD, CONT, URG, WINCH}                    \* default action: nothing
NoAlarm == [t |-> 0, lo |-> 0, hi |-> 0]
Zero == [x \in Sigs |-> <<0, 0>>]
NewProc(par, pg, sid, disp) ==
  [st |-> "run", par |-> par, pg |-> pg, sid |-> sid, disp |-> disp, cnt |-> Zero, pend |-> {}, sts |-> "", rep |-> TRUE,
   al |-> NoAlarm, ex |-> FALSE, argv |-> <<>>, env |-> <<>>]
InitProc(env) == (0 :> [NewProc(-1, 0, 0, [x \in Sigs |-> "dfl"]) EXCEPT !.env = env])
Res(s, e, r) == [s |-> s, e |-> e, r |-> r]
One(s, e, r) == {Res(s, e, r)}
Alive(s, j) == j \in DOMAIN s /\ s[j].st \in {"run", "stop"}
Known(s, j) == j \in DOMAIN s /\ s[j].st # "gone"     \* its process ID is in use
Kids(s, p) == {c \in DOMAIN s : s[c].par = p /\ s[c].st # "gone"}
Group(s, g) == {c \in DOMAIN s : s[c].pg = g /\ s[c].st # "gone"}

(* ---- death, stopping, signals ---- *)
Die(s, j, sts) ==
  LET q == [s EXCEPT ![j].st = IF s[j].par = -1 THEN "lost" ELSE "zombie", ![j].sts = sts, ![j].al = NoAlarm, ![j].rep = TRUE, ![j].pend = {}]
  IN [c \in DOMAIN q |-> IF q[c].par = j THEN [q[c] EXCEPT !.par = -1, !.st = IF @ = "zombie" THEN "lost" ELSE @] ELSE q[c]]
Sts(g) == "sig:" \o ToString(g)
RECURSIVE Deliver(_, _, _)
RECURSIVE Flush(_, _)
Deliver(s, j, g) ==
  LET x == s[j] IN
  IF ~Alive(s, j) THEN s
  ELSE IF g = KILL THEN Die(s, j, Sts(KILL))
  ELSE IF g = STOP THEN IF x.st = "stop" THEN s ELSE [s EXCEPT ![j].st = "stop", ![j].rep = FALSE]
  ELSE IF g = CONT THEN IF x.st = "stop" THEN Flush([s EXCEPT ![j].st = "run", ![j].rep = TRUE], j) ELSE s
  ELSE IF x.disp[g] = "ign" \/ (x.disp[g] = "dfl" /\ g \in Quiet) THEN s
  ELSE IF x.st = "stop" THEN [s EXCEPT ![j].pend = @ \cup {g}]
  ELSE IF x.disp[g] = "h" THEN [s EXCEPT ![j].cnt[g] = <<IF @[2] = 0 THEN 1 ELSE @[1], @[2] + 1>>]
  ELSE Die(s, j, Sts(g))
Flush(s, j) == IF s[j].pend = {} THEN s
               ELSE LET g == CHOOSE h \in s[j].pend : \A k \in s[j].pend : h <= k
                        q == Deliver([s EXCEPT ![j].pend = @ \ {g}], j, g)
                    IN IF q[j].st = "run" THEN Flush(q, j) ELSE q
RECURSIVE DeliverAll(_, _, _)
DeliverAll(s, js, g) == IF js = {} THEN s ELSE LET j == CHOOSE x \in js : TRUE IN DeliverAll(Deliver(s, j, g), js \ {j}, g)

KillOp(s, p, o) ==      \* o.t: "p" one process, "g" a group, "s" the caller's group; o.g the signal (0: only test)
  LET bad == o.g < 0 \/ o.g > 64
      js == IF o.t = "p" THEN (IF Known(s, o.j) THEN {o.j} ELSE {})
            ELSE Group(s, IF o.t = "g" THEN o.j ELSE s[p].pg)
  IN IF o.t = "p" /\ o.j = -2 THEN One(s, IF bad THEN "inval" ELSE "perm", <<>>)      \* a process of another user
     ELSE IF js = {} THEN One(s, "srch", <<>>)
     ELSE IF bad THEN One(s, "inval", <<>>)
     ELSE IF o.g = 0 THEN One(s, "", <<>>)
     ELSE One(DeliverAll(s, js, o.g), "", <<>>)

(* ---- waiting ---- *)
Sel(s, p, o) == {c \in Kids(s, p) : CASE o.k = "any" -> TRUE [] o.k = "child" -> c = o.j
                                      [] o.k = "same" -> s[c].pg = s[p].pg [] o.k = "group" -> s[c].pg = o.j}
Wait(s, p, o) ==
  LET cs == Sel(s, p, o)
      z == {c \in cs : s[c].st = "zombie"}
      t == {c \in cs : s[c].st = "stop" /\ ~s[c].rep /\ o.u}
  IN IF cs = {} THEN One(s, "child", <<>>)
     ELSE IF z \cup t # {} THEN {Res([s EXCEPT ![c].st = "gone"], "", <<c, s[c].sts>>) : c \in z}
                                \cup {Res([s EXCEPT ![c].rep = TRUE], "", <<c, "stop:19">>) : c \in t}
     ELSE IF o.nh THEN One(s, "", <<"none">>)
     ELSE {}                                           \* blocks

(* ---- groups and sessions ---- *)
Setpgid(s, p, o) ==
  LET j == IF o.j = -7 THEN p ELSE o.j
      g == IF o.q = -7 THEN j ELSE o.q
  IN IF ~Known(s, j) THEN One(s, "srch", <<>>)
     ELSE IF s[j].par # p /\ j # p THEN One(s, "srch", <<>>)
     ELSE IF j # p /\ s[j].sid # s[p].sid THEN One(s, "perm", <<>>)
     ELSE IF j # p /\ s[j].ex THEN One(s, "acces", <<>>)
     ELSE IF s[j].sid = j THEN One(s, "perm", <<>>)
     ELSE IF g # j /\ ~\E c \in Group(s, g) : s[c].sid = s[p].sid THEN One(s, "perm", <<>>)
     ELSE One([s EXCEPT ![j].pg = g], "", <<>>)
Setsid(s, p) == IF Group(s, p) # {} THEN One(s, "perm", <<>>)
                ELSE One([s EXCEPT ![p].pg = p, ![p].sid = p], "", <<p>>)

(* ---- programs ----
   The scratch directory holds d1/prog (not executable), d1/only (not executable), d1/ddir (a directory), d2/prog (a shell),
   d2/txt (executable text without an interpreter line), d2/loop (a link to itself); PATH is d1:d2:nowhere:/bin *)
Direct == ("d1/prog" :> "acces") @@ ("d1/only" :> "acces") @@ ("d1/ddir" :> "acces") @@ ("d2/prog" :> "") @@ ("d2/txt" :> "noexec")
       @@ ("d2/loop" :> "loop") @@ ("/bin/sh" :> "") @@ ("d2/prog/x" :> "notdir") @@ ("d1/none" :> "noent") @@ ("" :> "noent")
       @@ ("none" :> "noent") @@ ("prog" :> "noent") @@ ("only" :> "noent") @@ ("sh" :> "noent") @@ ("txt" :> "noent") @@ ("ddir" :> "noent")
InPath == ("prog" :> "") @@ ("only" :> "acces") @@ ("ddir" :> "acces") @@ ("sh" :> "") @@ ("txt" :> "noexec") @@ ("none" :> "noent") @@ ("" :> "noent")
Bare == {"prog", "only", "ddir", "sh", "txt", "none", ""}
ExecErr(o) == IF o.long THEN "nametoolong"
              ELSE IF o.op = "execp" /\ o.path \in Bare THEN InPath[o.path] ELSE Direct[o.path]
Exec(s, p, o) ==
  LET e == ExecErr(o)
      env == IF o.op = "exece" THEN o.env ELSE s[p].env
      new(a) == [s EXCEPT ![p].ex = TRUE, ![p].argv = a, ![p].env = env,
                          ![p].disp = [x \in Sigs |-> IF s[p].disp[x] = "ign" THEN "ign" ELSE "dfl"], ![p].cnt = Zero]
  IN IF e \notin {"", "noexec"} THEN One(s, e, <<>>)
     ELSE IF o.big THEN One(s, "toobig", <<>>)
     ELSE IF e = "noexec" /\ o.op = "execp"            \* the shell runs it
     THEN One(new(<<"/bin/sh", IF o.path = "txt" THEN "D/d2/txt" ELSE o.path>> \o Tail(o.args)), "", <<>>)
     ELSE IF e = "noexec" THEN One(s, "noexec", <<>>)
     ELSE One(new(o.args), "", <<>>)

Letter(s, j) == CASE s[j].st = "run" -> {"S"} [] s[j].st = "stop" -> {"T"} [] s[j].st = "zombie" -> {"Z"} [] s[j].st = "lost" -> {"-", "Z"} [] OTHER -> {"-"}
(* the system's reaper collects the processes that died without a parent, at any moment *)
Reaped(s) == {[c \in DOMAIN s |-> IF c \in z THEN [s[c] EXCEPT !.st = "gone"] ELSE s[c]] : z \in SUBSET {c \in DOMAIN s : s[c].st = "lost"}}

Out(s, p, o) ==
  CASE o.op = "pfork" -> One((o.j :> [NewProc(p, s[p].pg, s[p].sid, s[p].disp) EXCEPT !.env = s[p].env, !.cnt = s[p].cnt]) @@ s, "", <<o.j>>)
    [] o.op = "pexit" -> One(Die(s, p, IF o.n = 0 THEN "exited" ELSE "status:" \o ToString(o.n)), "", <<>>)
    [] o.op = "pkill" -> KillOp(s, p, o)
    [] o.op = "pwait" -> Wait(s, p, o)
    [] o.op = "getpid" -> One(s, "", <<p>>)
    [] o.op = "getppid" -> One(s, "", <<s[p].par>>)
    [] o.op = "getpgrp" -> One(s, "", <<s[p].pg>>)
    [] o.op = "setpgid" -> Setpgid(s, p, o)
    [] o.op = "setsid" -> Setsid(s, p)
    [] o.op \in {"exec", "execp", "exece"} -> Exec(s, p, o)
    [] o.op = "disp" -> One([s EXCEPT ![p].disp[o.g] = o.d, ![p].cnt[o.g] = IF o.d = "h" THEN <<0, 0>> ELSE @], "", <<>>)
    [] o.op = "count" -> {Res([s EXCEPT ![p].cnt[o.g] = <<0, 0>>], "", <<n>>) : n \in s[p].cnt[o.g][1]..s[p].cnt[o.g][2]}
    [] o.op = "settle" -> {Res(s, "", <<x>>) : x \in Letter(s, o.j)}
    [] o.op = "obs" -> One(s, "", <<s[o.j].argv, s[o.j].env>>)
    [] o.op = "system" -> One(s, "", <<IF o.k = "exit" THEN o.n % 256
                                               ELSE IF s[p].disp[o.g] = "ign" THEN 0 ELSE 1>>)      \* the shell signals itself
    [] o.op = "fired" -> \* the alarm of process o.j has gone off (time has passed)
         IF s[o.j].al.t = 0 THEN {} ELSE One(Deliver([s EXCEPT ![o.j].al = NoAlarm], o.j, ALRM), "", <<>>)

(* operations whose results depend on time (milliseconds since the start): r is judged here *)
Timed == {"palarm", "psleep", "ppause"}
AcceptTimed(s, p, o, e, r) ==
  IF e # "" THEN {}
  ELSE IF o.op = "palarm"       \* r = <<remaining seconds of the old alarm, time before, time after>>
  THEN LET al == s[p].al
           lo == al.t * 1000 - (r[3] - al.lo)
           hi == al.t * 1000 - (r[2] - al.hi)
       IN IF (IF al.t = 0 THEN r[1] = 0 ELSE r[1] >= 1 /\ r[1] * 1000 >= lo - 501 /\ r[1] * 1000 <= hi + 501)
          THEN {[s EXCEPT ![p].al = [t |-> o.t, lo |-> r[2], hi |-> r[3]]]} ELSE {}
  ELSE IF o.op = "psleep"       \* r = <<remaining ms, elapsed ms (an upper bound)>>; o.g: the signal that ended it, or 0
  THEN IF o.g = 0 THEN IF r[1] = 0 /\ r[2] + 1 >= o.t THEN {s} ELSE {}
       ELSE LET q == Deliver(s, p, o.g)
            IN IF s[p].disp[o.g] = "h" /\ r[1] <= o.t /\ r[1] + 1 >= o.t - r[2] /\ r[1] > 0 THEN {[q EXCEPT ![p].cnt[o.g] = <<1, 1000>>]} ELSE {}
  ELSE IF o.g = ALRM THEN IF s[p].al.t = 0 THEN {} ELSE {Deliver([s EXCEPT ![p].al = NoAlarm], p, ALRM)}
  ELSE IF s[p].disp[o.g] = "h" THEN {[Deliver(s, p, o.g) EXCEPT ![p].cnt[o.g] = <<1, 1000>>]} ELSE {}

Accept(s0, p, o, e, r) ==
  IF ~(p \in DOMAIN s0 /\ (s0[p].st = "run" \/ o.late)) THEN {}
  ELSE IF o.op \in Timed THEN AcceptTimed(s0, p, o, e, r)
  ELSE UNION {{x.s : x \in {y \in Out(s, p, o) : y.e = (IF o.noreply THEN "" ELSE e) /\ (o.noreply \/ y.r = r)}} : s \in Reaped(s0)}
=============================================================================
