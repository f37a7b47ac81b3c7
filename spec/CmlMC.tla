------------------------------- MODULE CmlMC -------------------------------
(* Exhaustive exploration of the CML semantics: all programs of three threads over a menu of
   operations, all schedules.  Checks that the semantics itself has the listed properties. *)
EXTENDS Cml
CONSTANTS Menu, Len1, Len2, Len3
VARIABLES prog, pc, com    \* com: <<thread, pc>> -> <<branch, value>> once committed
T == 1..3
B(k, c, v) == [k |-> k, c |-> c, v |-> v, n |-> <<>>, w |-> <<>>]
BN(k, c, v, n) == [k |-> k, c |-> c, v |-> v, n |-> n, w |-> <<>>]
(* operation `m` of the menu as performed by thread t at position i; its nack has id 10t+i *)
OpOf(m, t, i) ==
  LET v == 10 * t + i  N(x) == [br |-> x, nk |-> <<>>] IN
  CASE m = "send" -> N(<<B("send", 1, v)>>)
    [] m = "recv" -> N(<<B("recv", 1, 0)>>)
    [] m = "sendP" -> N(<<B("sendP", 1, v)>>)
    [] m = "recvP" -> N(<<B("recvP", 1, 0)>>)
    [] m = "chooseSR" -> N(<<B("send", 1, v), B("recv", 2, 0)>>)
    [] m = "send2" -> N(<<B("send", 2, v)>>)
    [] m = "nackR" -> [br |-> <<BN("recv", 1, 0, <<v>>), B("recv", 2, 0)>>, nk |-> <<v>>]
    [] m = "nackA" -> [br |-> <<BN("recv", 1, 0, <<v>>), B("always", 0, 7)>>, nk |-> <<v>>]
    [] m = "iput" -> N(<<B("iput", 1, v)>>)
    [] m = "iget" -> N(<<B("iget", 1, 0)>>)
    [] m = "mput" -> N(<<B("mput", 1, v)>>)
    [] m = "mtake" -> N(<<B("mtake", 1, 0)>>)
    [] m = "mswap" -> N(<<B("mswap", 1, v)>>)
    [] m = "mget" -> N(<<B("mget", 1, 0)>>)
    [] m = "bsend" -> N(<<B("bsend", 1, v)>>)
    [] m = "brecv" -> N(<<B("brecv", 1, 0)>>)
    [] m = "takeOrRecv" -> N(<<B("mtake", 1, 0), B("brecv", 1, 0)>>)
    [] m = "join" -> N(<<B("join", (t % 3) + 1, 0)>>)
Plen == <<Len1, Len2, Len3>>
Init == /\ th = [t \in T |-> Running] /\ iv = <<0>> /\ mv = <<0>> /\ mb = <<<<>>>> /\ nk = {}
        /\ pr = <<>> /\ bar = <<>> /\ mc = <<>> /\ pt = <<>>
        /\ prog \in {p \in [T -> UNION {[1..n -> Menu] : n \in {Len1, Len2, Len3}}] : \A t \in T : Len(p[t]) = Plen[t]}
        /\ pc = [t \in T |-> 1] /\ com = [t \in T |-> [i \in 1..Plen[t] |-> <<0, 0>>]]
Cur(t) == OpOf(prog[t][pc[t]], t, pc[t])
Note(t) == IF th[t].st # "com" /\ th'[t].st = "com" THEN [com[t] EXCEPT ![pc[t]] = <<th'[t].b, th'[t].v>>] ELSE com[t]
Record == com' = [t \in T |-> Note(t)]
Next ==
  \/ \E t \in T : pc[t] <= Len(prog[t]) /\ Start(t, Cur(t)) /\ UNCHANGED <<prog, pc, com>>
  \/ \E t, u \in T : \E b \in 1..Len(th[t].op.br), d \in 1..Len(th[u].op.br) : Rendezvous(t, b, u, d) /\ Record /\ UNCHANGED <<prog, pc>>
  \/ \E t \in T : \E b \in 1..Len(th[t].op.br) :
        /\ \/ PollFails(t, b) /\ ~PartnerWaiting(t, b)
           \/ th[t].op.br[b].k \notin (SendKinds \cup RecvKinds) /\ Solo(t, b)
        /\ Record /\ UNCHANGED <<prog, pc>>
  \/ \E t \in T : End(t) /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<prog, com>>
  \/ \E t \in T : pc[t] > Len(prog[t]) /\ Exit(t) /\ UNCHANGED <<prog, pc, com>>
Spec == Init /\ [][Next]_<<cmlvars, prog, pc, com>>
(* ---- what the semantics guarantees ---- *)
Ids == {<<t, i>> : t \in T, i \in 1..3}
Valid(x) == x[2] <= Plen[x[1]]
Did(x) == Valid(x) /\ com[x[1]][x[2]][1] # 0
Br(x) == OpOf(prog[x[1]][x[2]], x[1], x[2]).br[com[x[1]][x[2]][1]]
Val(x) == com[x[1]][x[2]][2]
Done(k) == {x \in Ids : Did(x) /\ Br(x).k \in k}
Received(c) == {x \in Done(RecvKinds) : Br(x).c = c /\ Val(x) # 0}
Sent(c) == {x \in Done(SendKinds) : Br(x).c = c /\ Val(x) = 1}
MessagesPaired == \A c \in {1, 2} :
   /\ \A x \in Received(c) : Cardinality({y \in Sent(c) : Br(y).v = Val(x)}) = 1
   /\ \A y \in Sent(c) : Cardinality({x \in Received(c) : Val(x) = Br(y).v}) = 1
NackExact == \A x \in Ids : Valid(x) => LET op == OpOf(prog[x[1]][x[2]], x[1], x[2]) IN
   op.nk # <<>> => ((op.nk[1] \in nk) <=> (Did(x) /\ Br(x).n = <<>>))
IvarOnce == /\ Cardinality({x \in Done({"iput"}) : Val(x) = 1}) <= 1
            /\ \A x \in Done({"iget"}) : \E y \in Done({"iput"}) : Val(y) = 1 /\ Br(y).v = Val(x)
MvarOnce == \A x, y \in Done({"mtake", "mswap"}) : x # y => Val(x) # Val(y)
MailboxOnce == \A x, y \in Done({"brecv"}) : x # y => Val(x) # Val(y)
(* at quiescence no two waiting threads have complementary offers *)
NoMissedPair == Quiescent => \A t, u \in T : \A b \in 1..Len(th[t].op.br), d \in 1..Len(th[u].op.br) : ~CanPair(t, b, u, d)
=============================================================================
