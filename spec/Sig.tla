--------------------------------- MODULE Sig ---------------------------------
(* Signals as SML programs see them.  For each signal: the action (default, ignored, or a numbered handler with the actions
   it performs), the nesting of masks, the number received but not yet handled, and whether the system holds one back
   (a masked signal arrives at most once). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT SIGS                                              \* names; "GC" is the collector's
DefIgn == {"CHLD", "CONT", "URG", "WINCH", "GC"}          \* ignored by default (CONT: a running process just goes on)
InitSig == [act |-> [s \in SIGS |-> "d"], m |-> [s \in SIGS |-> 0], rp |-> [s \in SIGS |-> 0], kp |-> {},
            H |-> <<>>, thr |-> 1, ingc |-> FALSE, alt |-> FALSE]
IsH(a) == a \notin {"d", "i"}
Set(l) == IF l = <<"*">> THEN SIGS ELSE {l[j] : j \in DOMAIN l}
(* the signal s is generated; SIGCONT and the stop signals cancel each other while the system holds them back *)
Stops == {"TSTP", "TTIN", "TTOU"}
Cancel(st, s) == [st EXCEPT !.kp = @ \ (IF s = "CONT" THEN Stops ELSE IF s \in Stops THEN {"CONT"} ELSE {})]
Gen(s0, s) == LET st == Cancel(s0, s) IN
              IF s = "GC" THEN (IF IsH(st.act[s]) /\ ~st.ingc THEN [st EXCEPT !.rp[s] = @ + 1] ELSE st)
              ELSE IF st.m[s] > 0 THEN [st EXCEPT !.kp = @ \cup {s}]
              ELSE IF IsH(st.act[s]) THEN [st EXCEPT !.rp[s] = @ + 1]
              ELSE st
(* what the system held back for signals that are not masked any more arrives *)
Arrive(st) == LET free == {s \in st.kp : st.m[s] = 0} IN
              [st EXCEPT !.rp = [s \in SIGS |-> IF s \in free /\ IsH(st.act[s]) THEN st.rp[s] + 1 ELSE st.rp[s]], !.kp = @ \ free]
Mask(st, l) == [st EXCEPT !.m = [s \in SIGS |-> IF s \in Set(l) THEN st.m[s] + 1 ELSE st.m[s]]]
Unmask(st, l) == Arrive([st EXCEPT !.m = [s \in SIGS |-> IF s \in Set(l) /\ st.m[s] > 0 THEN st.m[s] - 1 ELSE st.m[s]]])
(* a new action; what is pending is lost unless there is a handler for it *)
SetAct(st, s, a) == LET d == ~IsH(a) IN IF d /\ st.act[s] = a THEN st ELSE
  [st EXCEPT !.act[s] = a, !.rp[s] = IF d THEN 0 ELSE @, !.kp = IF a = "i" \/ (a = "d" /\ s \in DefIgn) THEN @ \ {s} ELSE @]
(* the actions of a handler *)
Do(st, a) == CASE a.k = "r" -> Gen(st, a.s)
               [] a.k = "m" -> Mask(st, a.l)
               [] a.k = "u" -> Unmask(st, a.l)
               [] a.k = "i" -> SetAct(st, a.s, "i")
               [] a.k = "h" -> SetAct(st, a.s, a.id)
               [] a.k = "g" -> IF 5 >= st.thr THEN Gen(st, "GC") ELSE st
               [] OTHER -> st
RECURSIVE DoAll(_, _)
DoAll(st, l) == IF l = <<>> THEN st ELSE DoAll(Do(st, Head(l)), Tail(l))
Acts(st, id) == IF id \in DOMAIN st.H THEN st.H[id] ELSE <<>>
(* the handler runs of the log h, one after the other: each for a signal that is waiting and not masked, with the number received *)
Runs(st, x) == /\ x[2] \in SIGS /\ st.act[x[2]] = x[1] /\ st.m[x[2]] = 0 /\ st.rp[x[2]] = x[3] /\ x[3] > 0
After(st, x) == LET s == x[2]
                    a == DoAll([st EXCEPT !.rp[s] = 0, !.ingc = (s = "GC")], Acts(st, x[1]))
                IN [a EXCEPT !.ingc = FALSE]
Waiting(st) == {s \in SIGS : st.rp[s] > 0 /\ st.m[s] = 0}
RECURSIVE RunAll(_, _)
RunAll(st, h) == IF h = <<>> THEN (IF Waiting(st) = {} THEN {st} ELSE {})
                 ELSE IF Runs(st, Head(h)) THEN RunAll(After(st, Head(h)), Tail(h)) ELSE {}
Names(st) == {s \in SIGS : st.m[s] > 0} \ {"GC"}
New(st, v) == IF IsH(v.a) THEN [st EXCEPT !.H = (v.a :> v.acts) @@ @] ELSE st
RECURSIVE GenAll(_, _)
GenAll(st, l) == IF l = <<>> THEN st ELSE GenAll(Gen(st, Head(l)), Tail(l))
(* sends from another process, at any moment: the runs of s have any counts that add up to at most n, at least 1 in all *)
RECURSIVE Total(_, _)
Total(h, s) == IF h = <<>> THEN 0 ELSE (IF Head(h)[2] = s THEN Head(h)[3] ELSE 0) + Total(Tail(h), s)
Only(h, s, id) == \A j \in DOMAIN h : h[j][2] = s => h[j][1] = id /\ h[j][3] > 0
Rest(h, s) == SelectSeq(h, LAMBDA x : x[2] # s)
Async(st, s, n, h) == IF st.m[s] > 0 \/ ~IsH(st.act[s]) THEN RunAll(Gen(Gen(st, s), "CHLD"), h)
                      ELSE IF Only(h, s, st.act[s]) /\ Total(h, s) \in 1..n THEN RunAll(Gen(st, "CHLD"), Rest(h, s)) ELSE {}
Accept(st, v) ==
  CASE v.op \in {"sethandler", "override"} ->
         IF v.e # "" \/ v.r # <<st.act[v.s]>> THEN {}
         ELSE IF v.op = "override" /\ st.act[v.s] = "i" THEN RunAll(st, v.h)
         ELSE RunAll(Arrive(SetAct(New(st, v), v.s, v.a)), v.h)
    [] v.op = "inq" -> IF v.e = "" /\ v.r = <<st.act[v.s]>> THEN RunAll(st, v.h) ELSE {}
    [] v.op = "mask" -> IF v.e = "" THEN RunAll(Mask(st, v.l), v.h) ELSE {}
    [] v.op = "unmask" -> IF v.e = "" THEN RunAll(Unmask(st, v.l), v.h) ELSE {}
    [] v.op = "masked" -> IF v.e = "" /\ v.r = (IF Names(st) = SIGS \ {"GC"} THEN <<"*">> ELSE v.r) /\ (v.r = <<"*">> => Names(st) = SIGS \ {"GC"})
                             /\ (v.r # <<"*">> => {v.r[j] : j \in DOMAIN v.r} = Names(st) /\ Len(v.r) = Cardinality(Names(st)))
                          THEN RunAll(st, v.h) ELSE {}
    [] v.op = "send" -> (* each may be handled before the next is sent, or with it *)
         IF v.e # "" THEN {} ELSE LET RECURSIVE Go(_, _, _)
                                      Go(s, l, h) == IF l = <<>> THEN RunAll(s, h)
                                                     ELSE LET t == Gen(s, Head(l)) IN
                                                          Go(t, Tail(l), h) \cup
                                                          UNION {LET RECURSIVE Some(_, _)
                                                                     Some(u, g) == IF g = <<>> THEN {u} ELSE IF Runs(u, Head(g)) THEN Some(After(u, Head(g)), Tail(g)) ELSE {}
                                                                 IN UNION {Go(u, Tail(l), SubSeq(h, k + 1, Len(h))) : u \in Some(t, SubSeq(h, 1, k))} : k \in 1..Len(h)}
                                  IN Go(st, v.l, v.h)
    [] v.op = "gc" -> IF v.e = "" THEN RunAll(IF v.n >= st.thr THEN Gen(st, "GC") ELSE st, v.h) ELSE {}
    [] v.op = "threshold" -> IF v.e = "" THEN RunAll([st EXCEPT !.thr = v.n], v.h) ELSE {}
    [] v.op = "work" -> IF v.e = "" /\ v.r = v.want THEN RunAll(st, v.h) ELSE {}
    [] v.op = "list" -> IF v.e = "" /\ {v.r[j] : j \in DOMAIN v.r} = SIGS /\ Len(v.r) = Cardinality(SIGS) THEN {st} ELSE {}
    [] v.op = "die" -> (* the last step: the process dies of the signal exactly if that is its default action and it is not masked *)
         IF st.act[v.s] = "d" /\ v.s \notin DefIgn /\ st.m[v.s] = 0 THEN (IF v.by = v.num THEN {st} ELSE {})
         ELSE IF v.by = 0 THEN RunAll(Gen(st, v.s), v.h) ELSE {}
    [] v.op = "quiet" -> IF v.e = "" THEN RunAll(st, v.h) ELSE {}
    [] v.op = "async" -> IF v.e = "" /\ v.r = v.want THEN Async(st, v.s, v.n, v.h) ELSE {}
    [] v.op = "pause" -> IF v.e = "" /\ v.n >= 30 /\ v.n < 10000 THEN Async(st, v.s, 1, v.h) ELSE {}
    [] v.op = "timer" -> (* one signal per interval, unless it is masked; none is handled twice *)
         LET k == v.el \div v.us
             t == Total(v.h, "ALRM")
         IN IF v.e # "" \/ v.bad # 0 THEN {}
            ELSE IF st.m["ALRM"] > 0 THEN RunAll([st EXCEPT !.kp = @ \cup {"ALRM"}], v.h)
            ELSE IF ~IsH(st.act["ALRM"]) THEN RunAll(st, v.h)
            ELSE IF Only(v.h, "ALRM", st.act["ALRM"]) /\ t <= k + 1 /\ (v.el > 3 * v.us => t >= 1 + (k \div 20)) THEN RunAll(st, Rest(v.h, "ALRM")) ELSE {}
=============================================================================
