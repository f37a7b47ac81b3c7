-------------------------------- MODULE Cml --------------------------------
(* Abstract semantics of Concurrent ML: threads, synchronous channels, event synchronization with
   choice, wrappers and negative acknowledgements, I-variables, M-variables, mailboxes, joins.

   A thread performs operations.  An operation is  Start ; Commit ; End :
     Start  - the call has been made; the thread offers every branch of its operation,
     Commit - exactly one branch is chosen (together with a partner's branch for channels),
              the shared state changes, the nacks that do not cover the branch become enabled,
     End    - the call returns the committed value, passed through the branch's wrappers.
   An operation is [br |-> seq of branches, nk |-> seq of nack ids of this synchronization].
   A branch is [k |-> kind, c |-> object, v |-> value, n |-> seq of nack ids covering it,
                w |-> seq of wrappers <<kind, id>>, innermost first]. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES th,    \* thread id -> [st, op, b, v]   st: "new" | "run" | "wait" | "com" | "dead"
          iv,    \* I-variable -> value, 0 when empty
          mv,    \* M-variable -> value, 0 when empty
          mb,    \* mailbox -> sequence of messages
          nk,    \* enabled negative acknowledgements
          pr,    \* thread-property slot -> value, 0 when unset (every slot belongs to one thread)
          bar,   \* barrier -> [st, n, cnt]: global state, number enrolled, number of updates so far
          mc,    \* multicast channel -> sequence of all messages
          pt     \* multicast port -> [c, pos]: its channel and how many messages it has delivered
shared == <<iv, mv, mb, pr, bar, mc, pt>>
cmlvars == <<th, iv, mv, mb, nk, pr, bar, mc, pt>>

NoOp == [br |-> <<>>, nk |-> <<>>]
Running == [st |-> "run", op |-> NoOp, b |-> 0, v |-> 0]
Unborn == [st |-> "new", op |-> NoOp, b |-> 0, v |-> 0]
Dead == [st |-> "dead", op |-> NoOp, b |-> 0, v |-> 0]

(* ---- wrappers ---- *)
WrapStep(a, w) ==           \* a = <<value, raised?>>
  CASE w[1] = "W" -> IF a[2] = 0 THEN <<(a[1] * 7 + w[2]) % 10007, 0>> ELSE a
    [] w[1] = "X" -> IF a[2] = 0 THEN <<(a[1] + w[2]) % 10007, 1>> ELSE a
    [] w[1] = "H" -> IF a[2] = 1 THEN <<(a[1] * 5 + w[2]) % 10007, 0>> ELSE a
WrapAll(v, ws) == FoldLeft(WrapStep, <<v, 0>>, ws)
(* ids of the wrappers that must run, in order *)
WrapLogStep(a, w) ==        \* a = <<<<value, raised?>>, log>>
  LET runs == (w[1] \in {"W", "X"} /\ a[1][2] = 0) \/ (w[1] = "H" /\ a[1][2] = 1)
  IN <<WrapStep(a[1], w), IF runs THEN Append(a[2], w[2]) ELSE a[2]>>
WrapLog(v, ws) == FoldLeft(WrapLogStep, <<<<v, 0>>, <<>>>>, ws)[2]

(* ---- starting and ending ---- *)
Spawn(t) == /\ th[t].st = "new"
            /\ th' = [th EXCEPT ![t] = Running]
            /\ UNCHANGED <<nk, shared>>
Start(t, op) == /\ th[t].st = "run"
                /\ th' = [th EXCEPT ![t] = [st |-> "wait", op |-> op, b |-> 0, v |-> 0]]
                /\ UNCHANGED <<nk, shared>>
End(t) == /\ th[t].st = "com"
          /\ th' = [th EXCEPT ![t] = Running]
          /\ UNCHANGED <<nk, shared>>
Exit(t) == /\ th[t].st = "run"
           /\ th' = [th EXCEPT ![t] = Dead]
           /\ UNCHANGED <<nk, shared>>

Commit1(f, t, b, v) == [f EXCEPT ![t] = [st |-> "com", op |-> f[t].op, b |-> b, v |-> v]]
LostNacks(t, b) == {n \in ToSet(th[t].op.nk) : n \notin ToSet(th[t].op.br[b].n)}

(* a thread is offering branch b *)
Offers(t, b) == th[t].st = "wait" /\ b \in 1..Len(th[t].op.br)
SendKinds == {"send", "sendP"}
RecvKinds == {"recv", "recvP"}
CanPair(t, b, u, d) ==
  /\ t # u /\ Offers(t, b) /\ Offers(u, d)
  /\ LET x == th[t].op.br[b] y == th[u].op.br[d] IN
       /\ x.k \in SendKinds /\ y.k \in RecvKinds /\ x.c = y.c
       /\ ~(x.k = "sendP" /\ y.k = "recvP")     \* a poll needs a waiting partner
(* the rendezvous: both sides commit together; the sender's result is 1, the receiver's the message *)
Rendezvous(t, b, u, d) ==
  /\ CanPair(t, b, u, d)
  /\ th' = Commit1(Commit1(th, t, b, 1), u, d, th[t].op.br[b].v)
  /\ nk' = nk \cup LostNacks(t, b) \cup LostNacks(u, d)
  /\ UNCHANGED shared

(* some thread other than t waits with an offer complementary to branch b of t *)
PartnerWaiting(t, b) ==
  \E u \in DOMAIN th : \E d \in 1..Len(th[u].op.br) : CanPair(t, b, u, d) \/ CanPair(u, d, t, b)
(* as PartnerWaiting, but only partners that are certainly blocked: an operation with nacks spawns
   threads on its way in, so its start does not mean that it has reached the queues yet *)
PartnerSettled(t, b) ==
  \E u \in DOMAIN th : th[u].op.nk = <<>> /\ \E d \in 1..Len(th[u].op.br) : CanPair(t, b, u, d) \/ CanPair(u, d, t, b)
PollFails(t, b) ==
  /\ Offers(t, b) /\ th[t].op.br[b].k \in {"sendP", "recvP"}
  /\ th' = Commit1(th, t, b, 0)
  /\ nk' = nk \cup LostNacks(t, b)
  /\ UNCHANGED shared

(* ---- one-party commits: enabledness, result and effect by kind ---- *)
Enabled1(x) ==
  CASE x.k = "always" -> TRUE
    [] x.k = "timeout" -> TRUE
    [] x.k = "never" -> FALSE
    [] x.k = "nack" -> x.c \in nk
    [] x.k = "join" -> th[x.c].st = "dead"
    [] x.k = "iput" -> TRUE
    [] x.k = "iget" -> iv[x.c] # 0
    [] x.k = "igetP" -> TRUE
    [] x.k = "mput" -> TRUE
    [] x.k \in {"mtake", "mget", "mswap"} -> mv[x.c] # 0
    [] x.k \in {"mtakeP", "mgetP"} -> TRUE
    [] x.k = "bsend" -> TRUE
    [] x.k = "brecv" -> mb[x.c] # <<>>
    [] x.k = "brecvP" -> TRUE
    [] x.k \in {"pset", "pget", "pclr", "ppeek", "fset", "fget"} -> TRUE
    [] x.k \in {"enroll", "resign"} -> TRUE
    [] x.k \in {"mcast", "mport", "mcopy"} -> TRUE
    [] x.k = "mrecv" -> pt[x.c].pos < Len(mc[pt[x.c].c])
    [] OTHER -> FALSE
Result1(x) ==
  CASE x.k = "always" -> x.v
    [] x.k \in {"timeout", "nack", "join", "bsend"} -> 1
    [] x.k = "iput" -> IF iv[x.c] = 0 THEN 1 ELSE 0      \* 0: Put raised
    [] x.k = "mput" -> IF mv[x.c] = 0 THEN 1 ELSE 0
    [] x.k \in {"iget", "igetP"} -> iv[x.c]
    [] x.k \in {"mtake", "mget", "mswap", "mtakeP", "mgetP"} -> mv[x.c]
    [] x.k \in {"pset", "pclr", "fset", "enroll", "resign", "mcast", "mport", "mcopy"} -> 1
    [] x.k = "pget" -> IF pr[x.c] = 0 THEN x.v ELSE pr[x.c]
    [] x.k \in {"ppeek", "fget"} -> pr[x.c]
    [] x.k = "mrecv" -> mc[pt[x.c].c][pt[x.c].pos + 1]
    [] x.k \in {"brecv", "brecvP"} -> IF mb[x.c] = <<>> THEN 0 ELSE Head(mb[x.c])
Effect1(x) ==
  /\ iv' = IF x.k = "iput" /\ iv[x.c] = 0 THEN [iv EXCEPT ![x.c] = x.v] ELSE iv
  /\ mv' = CASE x.k = "mput" /\ mv[x.c] = 0 -> [mv EXCEPT ![x.c] = x.v]
             [] x.k \in {"mtake", "mtakeP"} -> [mv EXCEPT ![x.c] = 0]
             [] x.k = "mswap" -> [mv EXCEPT ![x.c] = x.v]
             [] OTHER -> mv
  /\ mb' = CASE x.k = "bsend" -> [mb EXCEPT ![x.c] = Append(@, x.v)]
             [] x.k \in {"brecv", "brecvP"} /\ mb[x.c] # <<>> -> [mb EXCEPT ![x.c] = Tail(@)]
             [] OTHER -> mb
  /\ pr' = CASE x.k \in {"pset", "fset"} -> [pr EXCEPT ![x.c] = x.v]
             [] x.k = "pget" /\ pr[x.c] = 0 -> [pr EXCEPT ![x.c] = x.v]
             [] x.k = "pclr" -> [pr EXCEPT ![x.c] = 0]
             [] OTHER -> pr
  /\ bar' = CASE x.k = "enroll" -> [bar EXCEPT ![x.c].n = @ + 1]
              [] x.k = "resign" -> [bar EXCEPT ![x.c].n = @ - 1]
              [] OTHER -> bar
  /\ mc' = IF x.k = "mcast" THEN [mc EXCEPT ![x.c] = Append(@, x.v)] ELSE mc
  /\ pt' = CASE x.k = "mport" -> [pt EXCEPT ![x.v] = [c |-> x.c, pos |-> Len(mc[x.c])]]
             [] x.k = "mcopy" -> [pt EXCEPT ![x.v] = pt[x.c]]
             [] x.k = "mrecv" -> [pt EXCEPT ![x.c].pos = @ + 1]
             [] OTHER -> pt
Solo(t, b) ==
  /\ Offers(t, b)
  /\ LET x == th[t].op.br[b] IN
       /\ Enabled1(x)
       /\ th' = Commit1(th, t, b, Result1(x))
       /\ nk' = nk \cup LostNacks(t, b)
       /\ Effect1(x)

(* ---- barriers: all enrolled threads commit together, the state is updated once ---- *)
AtBarrier(b) == {t \in DOMAIN th : th[t].st = "wait" /\ \E i \in 1..Len(th[t].op.br) :
                                      th[t].op.br[i].k = "bwait" /\ th[t].op.br[i].c = b}
CanRelease(b) == bar[b].n > 0 /\ Cardinality(AtBarrier(b)) = bar[b].n
NewState(b) == (bar[b].st * 3 + 1) % 1009
UpdateRaises(b) == bar[b].cnt % 4 = 3               \* the update function used raises on every 4th call
BarResult(b) == IF UpdateRaises(b) THEN 5000 ELSE NewState(b)
Release(b) ==
  /\ CanRelease(b)
  /\ bar' = [bar EXCEPT ![b].cnt = @ + 1, ![b].st = IF UpdateRaises(b) THEN @ ELSE NewState(b)]
  /\ th' = [t \in DOMAIN th |-> IF t \in AtBarrier(b)
                                THEN [st |-> "com", op |-> th[t].op, b |-> 1, v |-> BarResult(b)] ELSE th[t]]
  /\ UNCHANGED <<nk, iv, mv, mb, pr, mc, pt>>

(* ---- quiescence: nobody can make progress ---- *)
Stuck(t) == /\ th[t].st = "wait"
            /\ \A b \in 1..Len(th[t].op.br) : ~Enabled1(th[t].op.br[b]) /\ ~PartnerWaiting(t, b)
Quiescent == \A t \in DOMAIN th : th[t].st \in {"new", "dead"} \/ Stuck(t)
NoRelease == \A b \in DOMAIN bar : ~CanRelease(b)
=============================================================================
