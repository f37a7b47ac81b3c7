-------------------------------- MODULE Sock --------------------------------
(* Sockets: UNIX and INET (loopback) stream and datagram sockets as seen through Socket, INetSock, UnixSock.
   s.sk maps socket numbers (and, from 1000 on, connections that wait to be accepted) to endpoints; s.un maps
   names in the file system to the socket bound there (0: it was closed); ports chosen by the system are
   negative symbols whose value s.pv becomes known when it is first reported.
   Accept(s, o, e, r): the states after operation o, which reported error e or result r.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bools == {"DEBUG", "REUSEADDR", "KEEPALIVE", "DONTROUTE", "BROADCAST", "OOBINLINE", "NODELAY"}
Opts0 == [x \in Bools \cup {"LINGER", "SNDBUF", "RCVBUF"} |-> IF x \in Bools THEN 0 ELSE -1]
NoA(d) == [n |-> IF d = "u" THEN "" ELSE "0.0.0.0", p |-> 0]
LO == "127.0.0.1"
NewSock(d, t) == [dom |-> d, typ |-> t, st |-> "new", la |-> NoA(d), peer |-> 0, pa |-> NoA(d), rx |-> <<>>, mark |-> -1, ub |-> -1,
                  rsh |-> FALSE, wsh |-> FALSE, eof |-> FALSE, dead |-> FALSE, err |-> "", q |-> <<>>, opts |-> Opts0, half |-> FALSE]
InitSock == [sk |-> <<>>, un |-> [x \in {} |-> 0], pv |-> <<>>, nx |-> 1000, old |-> <<>>]
Min(a, b) == IF a <= b THEN a ELSE b
Dat(seed, i) == (seed * 31 + i * 7 + (i \div 64) * 3) % 251
Bytes(o) == [k \in 1..o.n |-> Dat(o.seed, o.i + k - 1)]
Matched(b) == IF Len(b) \in 1..17 /\ b = [j \in 1..Len(b) |-> Dat(0, j - 1)] THEN ToString(Len(b)) ELSE "-"
Has(s, k) == k \in DOMAIN s.sk
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ---- addresses ---- *)
Sym(s) == [s EXCEPT !.pv = Append(@, 0)]                    \* a new symbol: -Len(pv)
Unify(s, x, v) == IF x >= 0 THEN (IF x = v THEN {s} ELSE {})
                  ELSE IF s.pv[-x] = 0 THEN (IF v > 0 THEN {[s EXCEPT !.pv[-x] = v]} ELSE {})
                  ELSE IF s.pv[-x] = v THEN {s} ELSE {}
(* r = <<kind, name, port, family, re-encodes to itself>> reports address a of domain d *)
Reports(s, d, a, r) == IF Len(r) # 5 THEN {}
                       ELSE IF r[1] = d /\ r[2] = a.n /\ r[4] = (IF d = "u" THEN "UNIX" ELSE "INET") /\ r[5] = "1" THEN Unify(s, a.p, r[3]) ELSE {}
PortOf(s, k) == IF Has(s, k) THEN s.sk[k].la.p ELSE s.old[k]      \* old: the ports of closed sockets
Resolve(s, o) ==                                            \* the endpoint address named by the operation
  CASE o.t = "u" -> [n |-> o.a, p |-> 0]
    [] o.t = "p" -> [n |-> LO, p |-> PortOf(s, o.pk)]
    [] o.t = "a" -> [n |-> "0.0.0.0", p |-> IF o.pk = 0 THEN 0 ELSE PortOf(s, o.pk)]
    [] o.t = "l" -> [n |-> LO, p |-> 0]
SamePort(s, x, y) == x # 0 /\ (x = y \/ (x < 0 /\ y < 0 /\ s.pv[-x] # 0 /\ s.pv[-x] = s.pv[-y]))
At(s, d, t, a) == IF d = "u" THEN (IF a.n \in DOMAIN s.un /\ Has(s, s.un[a.n]) THEN {s.un[a.n]} ELSE {})
                  ELSE {k \in DOMAIN s.sk : s.sk[k].dom = "i" /\ s.sk[k].typ = t /\ SamePort(s, s.sk[k].la.p, a.p)
                                            /\ (t = "d" \/ s.sk[k].st = "lis")}

(* ---- making and unmaking connections ---- *)
Bind(s, o, e) ==
  LET x == s.sk[o.k]
      a == Resolve(s, o)
      busy == IF x.dom = "u" THEN a.n \in DOMAIN s.un
              ELSE a.p # 0 /\ \E k \in DOMAIN s.sk : k # o.k /\ s.sk[k].dom = "i" /\ s.sk[k].typ = x.typ /\ SamePort(s, s.sk[k].la.p, a.p)
      shared == x.dom = "i" /\ \E k \in DOMAIN s.sk : s.sk[k].opts["REUSEADDR"] = 1
      \* the source of a datagram is looked up when it is received
      named == [k \in DOMAIN s.sk |-> IF s.sk[k].typ = "d" THEN [s.sk[k] EXCEPT !.rx = [j \in DOMAIN @ |-> IF @[j].by = o.k THEN [@[j] EXCEPT !.from = a] ELSE @[j]],
                                                                                         !.pa = IF s.sk[k].peer = o.k THEN a ELSE @]
                                    ELSE IF s.sk[k].peer = o.k THEN [s.sk[k] EXCEPT !.pa = a] ELSE s.sk[k]]
      done == IF x.dom = "u" THEN [s EXCEPT !.sk = [named EXCEPT ![o.k].la = a], !.un = (a.n :> o.k) @@ @]
              ELSE IF a.p = 0 THEN LET q == Sym(s) IN [q EXCEPT !.sk[o.k].la = [a EXCEPT !.p = -Len(q.pv)]]
              ELSE [s EXCEPT !.sk[o.k].la = a]
  IN IF o.t = "u" /\ o.long THEN (IF e = "nametoolong" THEN {s} ELSE {})
     ELSE IF x.la.p # 0 \/ (x.dom = "u" /\ x.la.n # "") THEN
          (IF e = "inval" \/ (busy /\ e = "addrinuse") \/ (o.nodir /\ e = "noent") THEN {s} ELSE {})
     ELSE IF o.nodir THEN (IF e = "noent" THEN {s} ELSE {})
     ELSE IF busy THEN (IF e = "addrinuse" THEN {s} ELSE IF e = "" /\ shared THEN {done} ELSE {})
     ELSE IF e = "" THEN {done} ELSE {}

Listen(s, o, e) ==
  LET x == s.sk[o.k] IN
  IF x.typ = "d" THEN (IF e \in {"opnotsupp", "notsup"} THEN {s} ELSE {})
  ELSE IF x.st = "con" \/ (x.dom = "u" /\ x.la.n = "") THEN (IF e = "inval" THEN {s} ELSE {})
  ELSE IF e # "" THEN {}
  ELSE IF x.dom = "i" /\ x.la.p = 0 THEN LET q == Sym(s) IN {[q EXCEPT !.sk[o.k].st = "lis", !.sk[o.k].la.p = -Len(q.pv)]}
  ELSE {[s EXCEPT !.sk[o.k].st = "lis"]}

(* a stream connection from o.k to the listening socket l *)
Join(s, k, l, a) ==
  LET x == s.sk[k]
      q == IF x.dom = "i" /\ x.la.p = 0 THEN LET z == Sym(s) IN [z EXCEPT !.sk[k].la = [n |-> LO, p |-> -Len(z.pv)]]
           ELSE IF x.dom = "i" THEN [s EXCEPT !.sk[k].la.n = LO] ELSE s
      la == q.sk[k].la
      lla == IF x.dom = "i" THEN [s.sk[l].la EXCEPT !.n = LO] ELSE s.sk[l].la
      n == q.nx
      new == [NewSock(x.dom, "s") EXCEPT !.st = "con", !.la = lla, !.pa = la, !.peer = k,
                                         !.opts = IF x.dom = "i" THEN s.sk[l].opts ELSE Opts0]
  IN [q EXCEPT !.sk = (n :> new) @@ [@ EXCEPT ![k].st = "con", ![k].pa = lla, ![k].peer = n, ![l].q = Append(@, n)], !.nx = n + 1]
ConnectD(s, o, e) ==
  LET x == s.sk[o.k]
      a == Resolve(s, o)
      T == At(s, x.dom, "d", a)
  IN IF x.dom = "u"
     THEN IF o.nodir \/ a.n \notin DOMAIN s.un THEN (IF e = "noent" THEN {s} ELSE {})
          ELSE IF T = {} THEN (IF e = "connrefused" THEN {s} ELSE {})
          ELSE LET t == CHOOSE z \in T : TRUE IN
               IF s.sk[t].typ # "d" THEN (IF e = "prototype" THEN {s} ELSE {})
               ELSE IF s.sk[t].peer # 0 /\ s.sk[t].peer # o.k THEN (IF e = "perm" THEN {s} ELSE {})
               ELSE IF e = "" THEN {[s EXCEPT !.sk[o.k].peer = t, !.sk[o.k].pa = a, !.sk[o.k].st = "con"]} ELSE {}
     ELSE IF e # "" THEN {}
     ELSE LET q == IF x.la.p = 0 THEN Sym(s) ELSE s IN
          {[q EXCEPT !.sk[o.k].la = [n |-> LO, p |-> IF x.la.p = 0 THEN -Len(q.pv) ELSE x.la.p],
                     !.sk[o.k].peer = IF T = {} THEN 0 ELSE CHOOSE z \in T : TRUE, !.sk[o.k].pa = a, !.sk[o.k].st = "con"]}
Connect(s, o, e, r) ==
  LET x == s.sk[o.k]
      a == Resolve(s, o)
      T == At(s, x.dom, "s", a)
      bad == IF x.dom = "u" THEN (IF o.nodir \/ a.n \notin DOMAIN s.un THEN "noent" ELSE IF T = {} THEN "connrefused"
                                  ELSE LET t == CHOOSE z \in T : TRUE IN IF s.sk[t].typ # "s" THEN "prototype"
                                                                       ELSE IF s.sk[t].st # "lis" THEN "connrefused" ELSE "")
             ELSE IF T = {} THEN "connrefused" ELSE ""
  IN IF o.t = "u" /\ o.long THEN (IF e = "nametoolong" THEN {s} ELSE {})
     ELSE IF x.typ = "d" THEN (IF r = <<>> THEN ConnectD(s, o, e) ELSE {})
     ELSE IF x.half /\ e = "" THEN {[s EXCEPT !.sk[o.k].half = FALSE]}       \* tells once that the connection was made
     ELSE IF x.st # "new" THEN (IF (bad # "" /\ e = bad) \/ (e = "isconn" /\ (x.st = "con" \/ x.dom = "i")) \/ (e = "inval" /\ x.st = "lis") THEN {s} ELSE {})
     ELSE IF bad # "" THEN (IF e = bad THEN {s} ELSE {})
     ELSE IF e = "" /\ r = <<>> /\ (o.b => o.nb /\ x.dom = "i")
          THEN {[Join(s, o.k, CHOOSE z \in T : TRUE, a) EXCEPT !.sk[o.k].half = o.b]} ELSE {}

AcceptC(s, o, e, r) ==
  LET x == s.sk[o.k] IN
  IF x.typ = "d" THEN (IF e \in {"opnotsupp", "notsup"} THEN {s} ELSE {})
  ELSE IF x.st # "lis" THEN (IF e = "inval" THEN {s} ELSE {})
  ELSE IF e # "" THEN {}
  ELSE IF x.q = <<>> THEN (IF o.b /\ o.nb THEN {s} ELSE {})
  ELSE LET n == Head(x.q)
           y == s.sk[n]
           t == [s EXCEPT !.sk = (o.j :> y) @@ Drop([@ EXCEPT ![o.k].q = Tail(@)], n)]
           u == IF Has(s, y.peer) THEN [t EXCEPT !.sk[y.peer].peer = o.j] ELSE t
       IN IF o.b THEN {} ELSE Reports(u, x.dom, y.pa, r)

(* what an endpoint's partner sees when it goes away; rst: there was something unread *)
Bye(sk, k, rst) == IF k \notin DOMAIN sk THEN sk
                   ELSE [sk EXCEPT ![k].eof = TRUE, ![k].dead = TRUE, ![k].peer = 0, ![k].err = IF rst THEN "connreset" ELSE @]
RECURSIVE ByeAll(_, _)
ByeAll(sk, q) == IF q = <<>> THEN sk ELSE ByeAll(Drop(Bye(sk, sk[Head(q)].peer, TRUE), Head(q)), Tail(q))
Close(s, o, e) ==
  IF ~Has(s, o.k) THEN (IF e = "badf" THEN {s} ELSE {})
  ELSE IF e # "" THEN {}
  ELSE LET x == s.sk[o.k]
           a == IF x.st = "lis" THEN ByeAll(s.sk, x.q) ELSE s.sk
           b == IF x.typ = "s" /\ x.st = "con" THEN Bye(a, x.peer, x.rx # <<>>) ELSE a
       IN {[s EXCEPT !.sk = Drop(b, o.k), !.old = (o.k :> x.la.p) @@ @]}

Gone(x) == x.dom = "i" /\ x.typ = "s" /\ (x.dead \/ (x.eof /\ x.wsh))     \* the connection may be over
Shutdown(s, o, e) ==
  LET x == s.sk[o.k] IN
  IF x.st # "con" THEN (IF x.dom = "i" /\ e = "notconn" THEN {s} ELSE {})
  ELSE IF e # "" THEN (IF e = "notconn" /\ Gone(x) THEN {s} ELSE {})
  ELSE LET R == o.m # "w"
           W == o.m # "r"
           me == [x EXCEPT !.rsh = @ \/ R, !.wsh = @ \/ W]
           t == [s EXCEPT !.sk[o.k] = me]
       IN {IF ~Has(s, x.peer) THEN t
           ELSE [t EXCEPT !.sk[x.peer].eof = @ \/ W, !.sk[x.peer].wsh = @ \/ (R /\ x.dom = "u")]}

(* ---- data ---- *)
Big == 2000
SendS(s, o, e, r) ==
  LET x == s.sk[o.k] IN
  IF x.st # "con" THEN (IF e \in {"notconn", "pipe"} THEN {s} ELSE {})
  ELSE IF x.wsh \/ (x.dead /\ x.dom = "u") THEN (IF e = "pipe" THEN {s} ELSE {})
  ELSE IF e # "" \/ (~o.b /\ Len(r) # 1) THEN {}
  ELSE LET y == s.sk[x.peer]
           b == Bytes(o)
           full == Len(y.rx) + o.n > Big /\ o.nb
           put(k) == IF o.oob THEN [s EXCEPT !.sk[x.peer].rx = @ \o SubSeq(b, 1, k - 1), !.sk[x.peer].mark = Len(y.rx) + k - 1, !.sk[x.peer].ub = b[k]]
                     ELSE [s EXCEPT !.sk[x.peer].rx = @ \o SubSeq(b, 1, k)]
       IN IF o.b THEN (IF full THEN {s} ELSE {})
          ELSE IF r[1] = o.n \/ (full /\ r[1] \in 1..o.n) THEN {put(r[1])} ELSE {}
SendD(s, o, e, r, t, la) ==       \* a datagram to socket t
  IF e # "" THEN {} ELSE {[s EXCEPT !.sk[t].rx = Append(@, [d |-> Bytes(o), from |-> la, by |-> o.k])]}
AutoBind(s, k) == IF s.sk[k].dom = "i" /\ s.sk[k].la.p = 0 THEN LET q == Sym(s) IN [q EXCEPT !.sk[k].la = [n |-> "0.0.0.0", p |-> -Len(q.pv)]] ELSE s
FromOf(x) == IF x.dom = "i" THEN [x.la EXCEPT !.n = LO] ELSE x.la
Send(s, o, e, r) ==
  IF o.n = 0 THEN (IF e = "" /\ ~o.b /\ r = <<0>> THEN {s} ELSE {})
  ELSE LET x == s.sk[o.k] IN
  IF x.typ = "s" THEN SendS(s, o, e, r)
  ELSE IF o.oob THEN (IF e \in {"opnotsupp", "notsup"} THEN {AutoBind(s, o.k)} ELSE {})
  ELSE IF x.st # "con" THEN (IF e = (IF x.dom = "u" THEN "notconn" ELSE "destaddrreq") THEN {AutoBind(s, o.k)} ELSE {})
  ELSE IF ~Has(s, x.peer) THEN (IF x.dom = "u" /\ e = "connrefused" THEN {[s EXCEPT !.sk[o.k].st = "new", !.sk[o.k].peer = 0]} ELSE {})
  ELSE IF x.dom = "u" /\ s.sk[x.peer].peer \notin {0, o.k} THEN (IF e = "perm" THEN {s} ELSE {})
  ELSE IF o.b \/ e # "" \/ r # <<o.n>> THEN {}
  ELSE IF x.dom = "i" /\ s.sk[x.peer].st = "con" /\ s.sk[x.peer].peer # o.k THEN {s}
  ELSE SendD(s, o, e, r, x.peer, FromOf(x))
SendTo(s, o, e, r) ==
  IF o.t = "u" /\ o.long THEN (IF e = "nametoolong" THEN {s} ELSE {})
  ELSE IF o.b \/ r # <<>> THEN {}
  ELSE IF o.n = 0 THEN (IF e = "" THEN {s} ELSE {})
  ELSE IF o.oob THEN (IF e \in {"opnotsupp", "notsup"} THEN {AutoBind(s, o.k)} ELSE {})
  ELSE LET x == s.sk[o.k]
           a == Resolve(s, o)
           T == At(s, x.dom, "d", a)
           q == AutoBind(s, o.k)
       IN IF x.dom = "u" /\ (o.nodir \/ a.n \notin DOMAIN s.un) THEN (IF e = "noent" THEN {s} ELSE {})
          ELSE IF x.dom = "u" /\ T = {} THEN (IF e = "connrefused" THEN {s} ELSE {})
          ELSE IF T = {} THEN (IF e = "" THEN {q} ELSE {})
          ELSE LET t == CHOOSE z \in T : TRUE IN
               IF s.sk[t].typ # "d" THEN (IF e = "prototype" THEN {s} ELSE {})
               ELSE IF x.dom = "u" /\ s.sk[t].peer # 0 /\ s.sk[t].peer # o.k THEN (IF e = "perm" THEN {s} ELSE {})
               ELSE IF x.dom = "i" /\ s.sk[t].st = "con" /\ s.sk[t].peer # o.k THEN (IF e = "" THEN {q} ELSE {})
               ELSE SendD(q, o, e, r, t, FromOf(q.sk[o.k]))

(* the data d was returned: in a vector, or in an array of 238s *)
Returned(o, d, r) ==
  IF o.b THEN FALSE ELSE IF o.vec THEN Len(r) >= 3 /\ r[1] = Len(d) /\ r[2] = d /\ r[3] = Matched(d)
  ELSE Len(r) >= 2 /\ r[1] = Len(d) /\ r[2] = [k \in 1..o.l |-> IF k > o.i /\ k <= o.i + Len(d) THEN d[k - o.i] ELSE 238]
Rest(o, r) == IF o.vec THEN SubSeq(r, 4, Len(r)) ELSE IF o.op = "recvfrom" THEN SubSeq(r, 4, Len(r)) ELSE SubSeq(r, 3, Len(r))
RecvS(s, o, e, r) ==
  LET x == s.sk[o.k] IN
  IF x.st # "con" THEN (IF e \in {"inval", "notconn"} THEN {s} ELSE {})
  ELSE IF o.oob
  THEN IF x.ub < 0 THEN (IF e = "inval" THEN {s} ELSE {})
       ELSE IF e = "" /\ Returned(o, <<x.ub>>, r) THEN {IF o.peek THEN s ELSE [s EXCEPT !.sk[o.k].ub = -1]} ELSE {}
  ELSE LET skip == x.mark = 0
           k == IF x.mark > 0 THEN Min(o.n, x.mark) ELSE Min(o.n, Len(x.rx))
           d == SubSeq(x.rx, 1, k)
           past == IF o.peek THEN s
                   ELSE [s EXCEPT !.sk[o.k].rx = SubSeq(@, k + 1, Len(@)), !.sk[o.k].mark = IF @ > 0 THEN @ - k ELSE -1,
                                  !.sk[o.k].ub = IF skip THEN -1 ELSE @]
       IN IF k > 0 THEN (IF e = "" /\ Returned(o, d, r) /\ Rest(o, r) = <<>> THEN {past} ELSE {})
          ELSE IF x.err # "" THEN (IF e = x.err THEN {[past EXCEPT !.sk[o.k].err = ""]} ELSE {})
          ELSE IF x.eof \/ x.rsh THEN (IF e = "" /\ Returned(o, <<>>, r) /\ Rest(o, r) = <<>> THEN {past} ELSE {})
          ELSE IF o.nb /\ e = "" /\ o.b THEN {past} ELSE {}
RecvD(s, o, e, r) ==
  LET x == s.sk[o.k] IN
  IF x.rx = <<>> THEN (IF o.nb /\ e = "" /\ o.b THEN {s} ELSE {})
  ELSE LET m == Head(x.rx)
           d == SubSeq(m.d, 1, Min(o.n, Len(m.d)))
           t == IF o.peek THEN s ELSE [s EXCEPT !.sk[o.k].rx = Tail(@)]
       IN IF e # "" \/ ~Returned(o, d, r) THEN {}
          ELSE IF o.op = "recv" THEN (IF Rest(o, r) = <<>> THEN {t} ELSE {})
          ELSE LET q == Rest(o, r) IN
               IF x.dom = "u" /\ m.from.n = "" THEN (IF Len(q) = 5 /\ q[2] = "" THEN {t} ELSE {}) ELSE Reports(t, x.dom, m.from, q)
Recv(s, o, e, r) ==
  IF o.n = 0 THEN (IF e = "" /\ Returned(o, <<>>, r) THEN {s} ELSE {})
  ELSE IF s.sk[o.k].typ = "s" THEN RecvS(s, o, e, r) ELSE RecvD(s, o, e, r)

(* ---- control ---- *)
GetOpt(s, o, e, r) ==
  LET v == s.sk[o.k].opts[o.a] IN
  IF e # "" \/ Len(r) # 1 THEN {}
  ELSE IF o.a \in {"SNDBUF", "RCVBUF"} THEN (IF (v < 0 /\ r[1] > 0) \/ r[1] = 2 * v THEN {s} ELSE {})     \* Linux reserves twice what was asked for
  ELSE IF r[1] = v THEN {s} ELSE {}
SetOpt(s, o, e) == IF e = "" THEN {[s EXCEPT !.sk[o.k].opts[o.a] = o.v]}
                   ELSE IF o.a = "DEBUG" /\ e = "acces" /\ o.v # 0 THEN {s} ELSE {}
Readable(x) == IF x.typ = "s" /\ x.st = "new" THEN TRUE ELSE IF x.st = "lis" THEN x.q # <<>> ELSE IF x.typ = "d" THEN x.rx # <<>> ELSE x.rx # <<>> \/ x.eof \/ x.rsh \/ x.err # ""
Keep(q, P(_)) == SelectSeq(q, P)
Select(s, o, e, r) ==
  IF e # "" \/ Len(r) # 3 THEN {}
  ELSE IF /\ r[1] = SelectSeq(o.rds, LAMBDA k : Readable(s.sk[k]))
          /\ r[2] = SelectSeq(o.wrs, LAMBDA k : s.sk[k].st # "lis")
          /\ r[3] = SelectSeq(o.exs, LAMBDA k : s.sk[k].ub >= 0)
  THEN {s} ELSE {}

Accept(s, o, e, r) ==
  IF o.op \in {"ready", "avail", "urgent", "note"} THEN (IF e = "" THEN {s} ELSE {})
  ELSE IF o.op = "close" THEN Close(s, o, e)
  ELSE IF o.op = "select" THEN Select(s, o, e, r)
  ELSE IF o.op = "unlink" THEN (IF o.a \in DOMAIN s.un THEN (IF e = "" THEN {[s EXCEPT !.un = Drop(@, o.a)]} ELSE {}) ELSE IF e = "noent" THEN {s} ELSE {})
  ELSE IF o.op \in {"sock", "sock'"} THEN (IF o.v # 0 THEN (IF e = "protonosupport" THEN {s} ELSE {})
                               ELSE IF e = "" THEN {[s EXCEPT !.sk = (o.k :> NewSock(o.a, o.t)) @@ @]} ELSE {})
  ELSE IF o.op = "pair" THEN (IF o.v # 0 THEN (IF e \in {"opnotsupp", "notsup"} THEN {s} ELSE {})
                   ELSE IF e = "" THEN {[s EXCEPT !.sk = (o.k :> [NewSock("u", o.t) EXCEPT !.st = "con", !.peer = o.j])
                                                     @@ (o.j :> [NewSock("u", o.t) EXCEPT !.st = "con", !.peer = o.k]) @@ @]} ELSE {})
  ELSE IF ~Has(s, o.k) THEN (IF o.op \in {"send", "recv", "sendto", "recvfrom"} /\ o.n = 0 /\ e = "" THEN {s} ELSE IF e = "badf" THEN {s} ELSE {})
  ELSE CASE o.op = "bind" -> Bind(s, o, e)
         [] o.op = "listen" -> Listen(s, o, e)
         [] o.op = "connect" -> Connect(s, o, e, r)
         [] o.op = "accept" -> AcceptC(s, o, e, r)
         [] o.op = "shutdown" -> Shutdown(s, o, e)
         [] o.op = "send" -> Send(s, o, e, r)
         [] o.op = "sendto" -> SendTo(s, o, e, r)
         [] o.op \in {"recv", "recvfrom"} -> Recv(s, o, e, r)
         [] o.op = "sockname" -> IF e # "" THEN {} ELSE Reports(s, s.sk[o.k].dom, s.sk[o.k].la, r)
         [] o.op = "peername" -> LET x == s.sk[o.k] IN
                IF x.st # "con" \/ Gone(x) THEN (IF e = "notconn" THEN {s} ELSE IF x.st = "con" /\ e = "" THEN Reports(s, x.dom, x.pa, r) ELSE {})
                ELSE IF e # "" THEN {} ELSE Reports(s, x.dom, x.pa, r)
         [] o.op = "nread" -> LET x == s.sk[o.k]
                                  n == IF x.typ = "d" THEN (IF x.rx = <<>> THEN 0 ELSE Len(Head(x.rx).d)) ELSE IF x.mark >= 0 THEN x.mark ELSE Len(x.rx)
                              IN IF e = "" /\ r = <<n>> THEN {s} ELSE {}
         [] o.op = "atmark" -> IF e = "" /\ r = <<IF s.sk[o.k].mark = 0 THEN 1 ELSE 0>> THEN {s} ELSE {}
         [] o.op = "gettype" -> IF e = "" /\ r = (IF s.sk[o.k].typ = "s" THEN <<"STREAM", "1", "0">> ELSE <<"DGRAM", "0", "1">>) THEN {s} ELSE {}
         [] o.op = "geterror" -> IF e = "" /\ r = <<IF s.sk[o.k].err # "" THEN 1 ELSE 0>> THEN {[s EXCEPT !.sk[o.k].err = ""]} ELSE {}
         [] o.op = "getopt" -> GetOpt(s, o, e, r)
         [] o.op = "setopt" -> SetOpt(s, o, e)
=============================================================================
