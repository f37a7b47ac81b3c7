------------------------------- MODULE ProcMC -------------------------------
(* All histories of a few processes: every death is reported exactly once, to the parent, with its cause. *)
EXTENDS Proc
CONSTANTS N, G, K     \* processes 0..N, signals, number of steps
VARIABLES s, died, reaped, steps, last
vars == <<s, died, reaped, steps, last>>
Init == s = InitProc(<<>>) /\ died = [j \in 0..N |-> ""] /\ reaped = [j \in 0..N |-> 0] /\ steps = 0 /\ last = <<>>
Base == [op |-> "", j |-> 0, q |-> -7, n |-> 0, g |-> 0, t |-> "p", k |-> "any", u |-> FALSE, nh |-> TRUE, late |-> FALSE, noreply |-> FALSE]
Next0 == CHOOSE k \in 1..N + 1 : k \notin DOMAIN s /\ \A i \in 1..k - 1 : i \in DOMAIN s
Ops(p) == (IF Next0 <= N THEN {[Base EXCEPT !.op = "pfork", !.j = Next0]} ELSE {})
   \cup (IF p # 0 THEN {[Base EXCEPT !.op = "pexit", !.n = n] : n \in {0, 3}} ELSE {})
   \cup {[Base EXCEPT !.op = "pkill", !.t = t, !.j = j, !.g = g] : t \in {"p", "g", "s"}, j \in 1..N, g \in G}
   \cup {[Base EXCEPT !.op = "pwait", !.k = k, !.j = j, !.u = u] : k \in {"any", "child", "same", "group"}, j \in 1..N, u \in BOOLEAN}
   \cup {[Base EXCEPT !.op = "setpgid", !.j = j, !.q = q] : j \in {-7} \cup 1..N, q \in {-7} \cup 1..N}
   \cup {[Base EXCEPT !.op = "setsid"]}
Step(p, o) == \E x \in Out(s, p, o) :
   /\ x.s[0].st = "run"                          \* process 0 stays
   /\ s' = x.s /\ steps' = steps + 1
   /\ died' = [j \in 0..N |-> IF j \in DOMAIN x.s /\ died[j] = "" /\ x.s[j].st \in {"zombie", "lost", "gone"} THEN x.s[j].sts ELSE died[j]]
   /\ LET w == o.op = "pwait" /\ x.e = "" /\ Len(x.r) = 2 IN
      /\ reaped' = IF w /\ x.r[2] # "stop:19" THEN [reaped EXCEPT ![x.r[1]] = @ + 1] ELSE reaped
      /\ last' = IF w THEN <<p, x.r[1], x.r[2], s[x.r[1]].par>> ELSE <<>>
Reaper == s' \in Reaped(s) \ {s} /\ UNCHANGED <<died, reaped, steps>> /\ last' = <<>>
Next == Reaper \/ (steps < K /\ \E p \in DOMAIN s : s[p].st = "run" /\ \E o \in Ops(p) : Step(p, o))
Spec == Init /\ [][Next]_vars
OnceToParent == /\ \A j \in 0..N : reaped[j] <= 1
                /\ (last # <<>> => last[4] = last[1] /\ (last[3] = "stop:19" \/ last[3] = died[last[2]]))
Sane == \A j \in DOMAIN s : LET x == s[j] IN
          /\ (x.st = "zombie" => x.par \in DOMAIN s /\ Alive(s, x.par) /\ died[j] # "" /\ reaped[j] = 0)
          /\ (x.st \in {"run", "stop"} => died[j] = "" /\ reaped[j] = 0)
          /\ (x.par # -1 /\ x.st # "gone" => Known(s, x.par))
          /\ (x.st # "stop" => x.pend = {})
          /\ (x.st # "gone" => x.sid = j \/ \A c \in Group(s, x.pg) : s[c].sid = x.sid)   \* a group lies in one session
          /\ (x.sid = j /\ x.st # "gone" => x.pg = j)
=============================================================================
