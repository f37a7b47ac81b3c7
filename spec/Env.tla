------------------------------- MODULE Env -------------------------------
(* What a process can learn and change about itself and its system: command line, environment, user and group
   identities, system configuration, terminals, process times, and the user, group, service, protocol, network and
   host data bases.  x describes the process as it was started:
     x.argv     the argument vector        x.env     the environment, in order
     x.uid/gid  [r, e, s] identities       x.groups  supplementary groups (a sequence)
     x.uname, x.conf, x.tty, x.pid         what the system says
     x.db       the data bases, in the order of their files
   The state s holds what changes: identities and how often the arguments were shifted. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitEnv(x) == [uid |-> x.uid, gid |-> x.gid, sh |-> 0, last |-> <<0, 0, 0, 0>>]

(* ---- strings ---- *)
Pre(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
After(t, n) == SubSeq(t, n + 1, Len(t))
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
First(q, P(_)) == LET S == {i \in 1..Len(q) : P(q[i])} IN IF S = {} THEN 0 ELSE Min(S)

(* ---- command line: arguments of the runtime system begin with @SML ---- *)
Runtime(a) == Pre("@SML", a)
Args(x) == SelectSeq(Tail(x.argv), LAMBDA a : ~Runtime(a))
CmdName(x) == LET q == SelectSeq(Tail(x.argv), LAMBDA a : Pre("@SMLcmdname=", a))
              IN IF q = <<>> THEN x.argv[1] ELSE After(q[Len(q)], 12)
Shifted(x, n) == LET a == Args(x) IN SubSeq(a, (IF n > Len(a) THEN Len(a) ELSE n) + 1, Len(a))

(* ---- environment ---- *)
GetEnv(x, n) == LET i == IF n = "" THEN 0 ELSE First(x.env, LAMBDA t : Pre(n \o "=", t))
                IN IF i = 0 THEN <<>> ELSE <<After(x.env[i], Len(n) + 1)>>

(* ---- identities (POSIX saved-set semantics) ---- *)
Privileged(s) == s.uid.e = "0"
BadId == "4294967295"
SetId(s, f, n) ==       \* the possible results: <<error, next state>>
  IF n = BadId THEN <<"inval", s>>
  ELSE IF Privileged(s) THEN <<"", [s EXCEPT ![f] = [r |-> n, e |-> n, s |-> n]]>>
  ELSE IF n \in {s[f].r, s[f].s} THEN <<"", [s EXCEPT ![f].e = n]>>
  ELSE <<"perm", s>>

(* ---- data bases: entries [n |-> name, a |-> aliases, ...] ---- *)
Range(q) == {q[i] : i \in DOMAIN q}
Named(t, n) == t.n = n \/ n \in Range(t.a)
Hit(q, P(_), F(_)) == LET i == First(q, P) IN IF i = 0 THEN <<>> ELSE F(q[i])
ServF(t) == <<t.n, t.v, t.p>> \o t.a
ProtF(t) == <<t.n, t.v>> \o t.a
NetF(t) == <<t.n, t.v, "INET">> \o t.a
HostF(t) == <<t.n, "INET", t.v>> \o t.a
PwF(t) == <<t.n, t.u, t.g, t.h, t.s>>
GrF(t) == <<t.n, t.g>> \o t.m

Same(q, p) == Len(q) = Len(p) /\ Range(q) = Range(p) /\ (Len(q) > 300 \/ \A g \in Range(q) :
                Cardinality({i \in DOMAIN q : q[i] = g}) = Cardinality({i \in DOMAIN p : p[i] = g}))
Is(s, v, r) == IF v.e = "" /\ v.r = r THEN {s} ELSE {}
Found(s, v, r) == IF r = <<>> THEN (IF v.e # "" THEN {s} ELSE {}) ELSE Is(s, v, r)

(* the states after event v (operation, error, result); none if the event is impossible *)
Accept(s, x, v) ==
  CASE v.op = "cmd" -> Is(s, v, <<CmdName(x), CmdName(x)>>)
    [] v.op = "args" -> Is(s, v, Shifted(x, s.sh))
    [] v.op = "allargs" -> Is(s, v, x.argv)
    [] v.op = "shift" -> Is([s EXCEPT !.sh = @ + 1], v, <<>>)
    [] v.op = "environ" -> Is(s, v, x.env)
    [] v.op \in {"getenv", "osgetenv"} -> Is(s, v, GetEnv(x, v.n))
    [] v.op = "ids" -> Is(s, v, <<s.uid.r, s.uid.e, s.gid.r, s.gid.e>>)
    [] v.op = "groups" -> IF v.e = "" /\ Same(v.r, x.groups) THEN {s} ELSE {}
    [] v.op \in {"setuid", "setgid"} -> LET q == SetId(s, IF v.op = "setuid" THEN "uid" ELSE "gid", v.n)
                                        IN IF v.e = q[1] /\ v.r = <<>> THEN {q[2]} ELSE {}
    [] v.op = "uname" -> Is(s, v, x.uname)
    [] v.op = "sysconf" -> IF v.n \notin DOMAIN x.conf THEN (IF v.e = "inval" THEN {s} ELSE {})
                           ELSE IF v.e = "inval" /\ ~x.must[v.n] THEN {s}        \* a name this system's header has, the runtime need not
                           ELSE Found(s, v, IF x.conf[v.n] = "-1" THEN <<>> ELSE <<x.conf[v.n]>>)
    [] v.op = "isatty" -> Is(s, v, <<IF v.n \in DOMAIN x.tty THEN "1" ELSE "0">>)
    [] v.op = "ttyname" -> IF v.n \in DOMAIN x.tty THEN Is(s, v, <<x.tty[v.n]>>) ELSE (IF v.e # "" THEN {s} ELSE {})
    [] v.op = "ctermid" -> Is(s, v, <<"/dev/tty">>)
    [] v.op = "pid" -> Is(s, v, x.pid)
    [] v.op = "time" -> IF v.e = "" /\ v.us = 0 /\ v.lo - 1 <= v.t /\ v.t <= v.hi THEN {s} ELSE {}                     \* (the second is read from a clock that lags by up to a tick)
    (* times: ticks as /proc reports them before (v.lo) and after (v.hi) *)
    [] v.op = "times" -> IF v.e = "" /\ \A i \in 1..4 : v.lo[i] - 1 <= v.t[i] /\ v.t[i] <= v.hi[i] + 1 /\ v.t[i] >= s.last[i]
                              /\ v.el >= v.wlo - 2 /\ v.el <= v.whi + 2
                         THEN {[s EXCEPT !.last = v.t]} ELSE {}
    [] v.op = "pwn" -> Found(s, v, Hit(x.db.pw, LAMBDA t : t.n = v.n, PwF))
    [] v.op = "pwu" -> Found(s, v, Hit(x.db.pw, LAMBDA t : t.u = v.n, PwF))
    [] v.op = "grn" -> Found(s, v, Hit(x.db.gr, LAMBDA t : t.n = v.n, GrF))
    [] v.op = "grg" -> Found(s, v, Hit(x.db.gr, LAMBDA t : t.g = v.n, GrF))
    [] v.op = "serv" -> Is(s, v, Hit(x.db.serv, LAMBDA t : Named(t, v.n) /\ v.p \in {"", t.p}, ServF))
    [] v.op = "servp" -> Is(s, v, Hit(x.db.serv, LAMBDA t : t.v = v.n /\ v.p \in {"", t.p}, ServF))
    [] v.op = "prot" -> Is(s, v, Hit(x.db.prot, LAMBDA t : Named(t, v.n), ProtF))
    [] v.op = "protn" -> Is(s, v, Hit(x.db.prot, LAMBDA t : t.v = v.n, ProtF))
    [] v.op = "net" -> Is(s, v, Hit(x.db.net, LAMBDA t : Named(t, v.n), NetF))
    [] v.op = "neta" -> Is(s, v, Hit(x.db.net, LAMBDA t : t.v = v.n, NetF))
    [] v.op = "host" -> Is(s, v, Hit(x.db.host, LAMBDA t : Named(t, v.n), HostF))
    [] v.op = "hosta" -> Is(s, v, Hit(x.db.host, LAMBDA t : t.v = v.n, HostF))
    [] v.op = "hostname" -> Is(s, v, <<x.uname[4]>>)
=============================================================================
