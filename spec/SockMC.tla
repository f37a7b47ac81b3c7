------------------------------- MODULE SockMC -------------------------------
(* Exhaustive exploration of Sock: UNIX stream and datagram sockets 1..3 and an accepted one, all orders of all operations.
   The ghosts snt and got record what was accepted for, and taken out of, each endpoint.                             *)
EXTENDS Sock
CONSTANTS MaxB, Seeds, Names
VARIABLES st, snt, got
vars == <<st, snt, got>>
Blank == [op |-> "", k |-> 0, j |-> 0, a |-> "", t |-> "", pk |-> 0, long |-> FALSE, nodir |-> FALSE, nb |-> TRUE, b |-> FALSE, m |-> "", v |-> 0, n |-> 0, i |-> 0,
          l |-> 0, seed |-> 0, vec |-> TRUE, peek |-> FALSE, oob |-> FALSE, rds |-> <<>>, wrs |-> <<>>, exs |-> <<>>]
K == 1..4
Ops == {[Blank EXCEPT !.op = "sock", !.k = k, !.a = "u", !.t = t] : k \in {1, 2}, t \in {"s", "d"}}
  \cup {[Blank EXCEPT !.op = "pair", !.k = 3, !.j = 2, !.t = t] : t \in {"s", "d"}}
  \cup {[Blank EXCEPT !.op = "bind", !.k = k, !.t = "u", !.a = n] : k \in {1, 2}, n \in Names}
  \cup {[Blank EXCEPT !.op = "listen", !.k = 1]}
  \cup {[Blank EXCEPT !.op = "connect", !.k = 2, !.t = "u", !.a = n] : n \in Names}
  \cup {[Blank EXCEPT !.op = "accept", !.k = 1, !.j = 4]}
  \cup {[Blank EXCEPT !.op = "close", !.k = k] : k \in K}
  \cup {[Blank EXCEPT !.op = "shutdown", !.k = k, !.m = m] : k \in {2, 4}, m \in {"r", "w"}}
  \cup {[Blank EXCEPT !.op = "send", !.k = k, !.n = 2, !.seed = s] : k \in K, s \in Seeds}
  \cup {[Blank EXCEPT !.op = "sendto", !.k = 2, !.n = 1, !.t = "u", !.a = n] : n \in Names}
  \cup {[Blank EXCEPT !.op = op, !.k = k, !.n = n, !.peek = p] : op \in {"recv", "recvfrom"}, k \in K, n \in {1, 3}, p \in BOOLEAN}
Errs == {"", "badf", "inval", "addrinuse", "noent", "connrefused", "notconn", "pipe", "isconn", "perm", "prototype", "opnotsupp", "connreset"}
(* data that could be returned: pieces of what is there, and of what is not *)
DsOf(x) == LET f == IF x.typ = "s" THEN x.rx ELSE IF x.rx = <<>> THEN <<>> ELSE Head(x.rx).d
           IN {SubSeq(f, i, n) : i \in {1, 2} \cap DOMAIN f, n \in 0..Len(f)} \cup {<<>>, <<7>>, f \o f}
AddrOf(n) == <<"u", n, 0, "UNIX", "1">>
Rs(o) == CASE o.op = "send" -> {<<>>, <<0>>, <<1>>, <<2>>}
           [] o.op = "accept" -> {<<>>} \cup {AddrOf(n) : n \in Names \cup {""}}
           [] o.op = "recv" -> {<<>>} \cup {<<Len(d), d, Matched(d)>> : d \in DsOf(st.sk[o.k])}
           [] o.op = "recvfrom" -> {<<>>} \cup {<<Len(d), d, Matched(d)>> \o AddrOf(n) : d \in DsOf(st.sk[o.k]), n \in Names \cup {""}}
           [] OTHER -> {<<>>}
(* the possible outcomes of an operation *)
Outs(s, o) == {<<e, b, r, t>> : e \in Errs, b \in BOOLEAN, r \in Rs(o), t \in {0}}
Fresh(o) == o.op \in {"sock", "pair"} => (~Has(st, o.k) /\ (o.op = "pair" => ~Has(st, o.j)) /\ o.k \notin DOMAIN st.old /\ (o.op = "pair" => o.j \notin DOMAIN st.old))
Allowed(o) == /\ Fresh(o)
              /\ (o.op # "sock" /\ o.op # "pair" => Has(st, o.k))
              /\ (o.op = "accept" => ~Has(st, 4) /\ 4 \notin DOMAIN st.old)
              /\ (o.op = "recvfrom" => st.sk[o.k].typ = "d")
              /\ (o.op \in {"sendto"} => st.sk[o.k].typ = "d" /\ st.sk[o.k].st = "new")
              /\ (o.op = "shutdown" => st.sk[o.k].typ = "s" /\ st.sk[o.k].st = "con")
              /\ (o.op = "connect" => st.sk[o.k].typ = "s" \/ st.sk[o.k].st = "new")
Init == st = InitSock /\ snt = [k \in {1, 2, 3, 4, 1000} |-> <<>>] /\ got = [k \in {1, 2, 3, 4, 1000} |-> <<>>]
Size(s, k) == IF s.sk[k].typ = "s" THEN Len(s.sk[k].rx) ELSE Len(s.sk[k].rx)
Flat(x) == IF x.typ = "s" THEN x.rx ELSE [j \in DOMAIN x.rx |-> x.rx[j].d]
Next == \E o \in Ops : /\ Allowed(o)
          /\ \E e \in Errs, b \in BOOLEAN, r \in Rs(o) : \E t \in Accept(st, [o EXCEPT !.b = b], e, r) :
               /\ (e # "" => r = <<>> /\ ~b) /\ (b => r = <<>>)
               /\ st' = t
               /\ LET grew == {k \in DOMAIN st.sk \cap DOMAIN t.sk : o.op \in {"send", "sendto"} /\ Size(t, k) > Size(st, k)}
                      moved == o.op = "accept" /\ Has(t, 4) /\ ~Has(st, 4)
                      s1 == [k \in DOMAIN snt |-> IF k \in grew THEN Flat(t.sk[k]) ELSE snt[k]]
                      new == [k \in DOMAIN snt |-> IF k \in grew THEN snt[k] \o SubSeq(Flat(t.sk[k]), Size(st, k) + 1, Size(t, k)) ELSE snt[k]]
                  IN snt' = IF moved THEN [snt EXCEPT ![4] = snt[1000]] ELSE new
               /\ \A k \in DOMAIN snt : Len(snt'[k]) <= MaxB
               /\ got' = IF o.op \in {"recv", "recvfrom"} /\ e = "" /\ ~b /\ ~o.peek /\ r # <<>> /\ Has(t, o.k) /\ Size(t, o.k) < Size(st, o.k)
                         THEN [got EXCEPT ![o.k] = @ \o SubSeq(Flat(st.sk[o.k]), 1, Size(st, o.k) - Size(t, o.k))]
                         ELSE IF o.op = "accept" /\ Has(t, 4) /\ ~Has(st, 4) THEN [got EXCEPT ![4] = got[1000]] ELSE got
(* nothing is lost, invented, duplicated or reordered *)
Conserved == \A k \in DOMAIN st.sk : snt[k] = got[k] \o Flat(st.sk[k])
(* partners agree; a dead endpoint has no partner; only listening sockets have connections waiting *)
Partners == \A k \in DOMAIN st.sk : LET x == st.sk[k] IN
  /\ (x.typ = "s" /\ x.st = "con" /\ ~x.dead => Has(st, x.peer) /\ st.sk[x.peer].peer = k /\ st.sk[x.peer].st = "con")
  /\ (x.typ = "s" /\ x.dead => x.peer = 0 /\ x.eof)
  /\ (x.q # <<>> => x.st = "lis")
  /\ (x.typ = "s" /\ x.st = "con" /\ ~x.dead /\ st.sk[x.peer].wsh => x.eof \/ x.rsh)
(* an operation that cannot block has an outcome, and only one, except for errors with several reasons *)
Outcomes(o) == {<<e, b, r>> \in Errs \X BOOLEAN \X Rs(o) : (e # "" => r = <<>> /\ ~b) /\ (b => r = <<>>) /\ Accept(st, [o EXCEPT !.b = b], e, r) # {}}
Determined == \A o \in Ops : Allowed(o) => LET O == Outcomes(o) IN O # {} /\ Cardinality(O) <= 2
Spec == Init /\ [][Next]_vars
=============================================================================
