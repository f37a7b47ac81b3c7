------------------------------- MODULE Poll -------------------------------
(* Polling of descriptors: pipes and files.
   The state: s.d maps each open descriptor to [k: kind "r", "w" (ends of a pipe) or "f" (file), "t" (connected
   stream socket), "u" (the same with urgent data), p: its pipe],
   s.p each pipe to [n: bytes in it, full: no room for more]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
InitPoll == [d |-> Empty, p |-> Empty]
Held(s, p, k) == \E f \in DOMAIN s.d : s.d[f].k = k /\ s.d[f].p = p

(* input: a read would not wait; output: a write would not wait; urgent data: on sockets only *)
Ready(s, f, c) == LET x == s.d[f]
  IN CASE x.k = "f" -> c # "p"
       [] x.k = "t" -> c = "o"
       [] x.k = "u" -> c \in {"o", "p"}
       [] x.k = "r" -> c = "i" /\ (s.p[x.p].n > 0 \/ ~Held(s, x.p, "w"))
       [] x.k = "w" -> \/ c = "o" /\ (~s.p[x.p].full \/ ~Held(s, x.p, "r"))
                       \/ c = "i" /\ ~Held(s, x.p, "r")           \* the failure of the pipe counts as input

(* what is reported: for each item, in order, what was asked for and is the case; items without any are left out *)
Has(s, it) == [f |-> it.f, fl |-> SelectSeq(it.fl, LAMBDA c : Ready(s, it.f, c))]
Report(s, items) == SelectSeq([i \in DOMAIN items |-> Has(s, items[i])], LAMBDA r : r.fl # <<>>)
Bad(s, items) == \E i \in DOMAIN items : items[i].fl # <<>> /\ items[i].f \notin DOMAIN s.d

Write(s, f, n) == [s EXCEPT !.p[s.d[f].p].n = @ + n]
(* v.r: the report, v.el: how long it took, v.t: the time-out (-1: none), in microseconds *)
PollOk(s, v) ==
  IF Bad(s, v.items) THEN v.e = "badf"
  ELSE LET r == Report(s, v.items)
       IN v.e = "" /\ v.r = r /\ (IF r = <<>> THEN v.t >= 0 /\ v.el >= v.t - 2000 ELSE v.el <= 30000000)

Accept(s, v) ==
  CASE v.op = "mkp" -> IF v.e = "" THEN {[d |-> (v.f :> [k |-> "r", p |-> v.p]) @@ (v.g :> [k |-> "w", p |-> v.p]) @@ s.d,
                                          p |-> (v.p :> [n |-> 0, full |-> FALSE]) @@ s.p]} ELSE {}
    [] v.op = "mkf" -> IF v.e = "" THEN {[s EXCEPT !.d = (v.f :> [k |-> "f", p |-> 0]) @@ @]} ELSE {}
    [] v.op = "mks" -> IF v.e = "" THEN {[s EXCEPT !.d = (v.f :> [k |-> v.k, p |-> 0]) @@ @]} ELSE {}
    [] v.op = "pwr" -> IF v.e = "" /\ v.m = v.n THEN {Write(s, v.f, v.n)} ELSE {}
    [] v.op = "prd" -> LET q == s.d[v.f].p k == IF v.n < s.p[q].n THEN v.n ELSE s.p[q].n
                       IN IF v.e = "" /\ v.m = k THEN {[s EXCEPT !.p[q].n = @ - k]} ELSE {}
    [] v.op = "fill" -> IF v.e = "" THEN {[s EXCEPT !.p[s.d[v.f].p] = [n |-> @.n + v.m, full |-> TRUE]]} ELSE {}
    [] v.op = "drain" -> IF v.e = "" THEN {[s EXCEPT !.p[s.d[v.f].p] = [n |-> 0, full |-> FALSE]]} ELSE {}
    [] v.op = "pcls" -> IF v.e = "" THEN {[s EXCEPT !.d = Drop(@, v.f)]} ELSE {}
    [] v.op = "poll" -> IF PollOk(s, v) THEN {s} ELSE {}
    [] v.op = "pollw" -> LET t == Write(s, v.f, v.n)       \* by another process, at the earliest after v.ms milliseconds
                         IN IF PollOk(s, v) /\ (v.r # <<>> \/ v.e # "") THEN {t}
                            ELSE IF PollOk(t, v) /\ (v.el >= v.ms * 1000 - 2000 \/ Report(s, v.items) # <<>>) THEN {t}
                            ELSE {}
=============================================================================
