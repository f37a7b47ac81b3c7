------------------------------ MODULE CmlTrace ------------------------------
(* Validates logs of real CML runs.  Each "s" event carries the operation and, as a prophecy taken
   from the same log, how the operation ended (eb: branch or 0 if not observed, ev/ex: result and
   raised flag; ends = FALSE if it never did).  Commits are silent steps. *)
EXTENDS Cml, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, shut      \* shut: exit statuses asked for with shutdown
T == Traces[tr]
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ th = [t \in ToSet(Traces[tr].tids) |-> Unborn]
        /\ iv = [i \in 1..Traces[tr].niv |-> 0] /\ mv = [i \in 1..Traces[tr].nmv |-> 0]
        /\ mb = [i \in 1..Traces[tr].nmb |-> <<>>] /\ nk = {} /\ shut = {}
        /\ pr = [i \in 1..Traces[tr].npr |-> 0]
        /\ bar = [i \in 1..Traces[tr].nbar |-> [st |-> 1, n |-> 0, cnt |-> 0]]
        /\ mc = [i \in 1..Traces[tr].nmc |-> <<>>] /\ pt = [i \in 1..Traces[tr].npt |-> [c |-> 1, pos |-> 0]]
(* the commit of branch b with raw result v agrees with how the operation is going to end *)
Fits(t, b, v) == LET op == th[t].op IN
  IF ~op.ends THEN T.cut ELSE        \* a run ended by shutdown may hide the end of an operation
  /\ (op.eb = 0 \/ op.eb = b)
  /\ WrapAll(v, op.br[b].w) = <<op.ev, op.ex>>
  /\ WrapLog(v, op.br[b].w) = op.ws
(* commits may be postponed until something is observed that depends on them: starting, spawning and
   exiting only add possibilities, except for a strictly checked poll *)
PollPending == \E t \in DOMAIN th : th[t].st = "wait" /\ Len(th[t].op.br) = 1 /\ th[t].op.br[1].k \in {"sendP", "recvP"}
(* a timeout may not overtake another one that is due clearly earlier *)
Overtaken(t, b) == \E u \in DOMAIN th : u # t /\ th[u].st = "wait" /\ Len(th[u].op.br) = 1
                      /\ th[u].op.br[1].k = "timeout" /\ th[u].op.br[1].v + T.gap < th[t].op.br[b].v
(* the same at the moment the thread is seen to go on: a thread whose timeout was due clearly earlier
   must have gone on before *)
Late(t) == /\ th[t].op.br[th[t].b].k = "timeout"
           /\ \E u \in DOMAIN th : u # t /\ th[u].st \in {"wait", "com"} /\ Len(th[u].op.br) = 1
                /\ th[u].op.br[1].k = "timeout" /\ th[u].op.br[1].v + T.gap < th[t].op.br[th[t].b].v
Silent ==
  /\ l <= Len(T.ev)
  /\ T.ev[l].o \in {"e", "q"} \/ (T.strict /\ PollPending)
  /\ \E t \in DOMAIN th : th[t].st = "wait" /\ (th[t].op.ends \/ T.cut) /\
       \E b \in 1..Len(th[t].op.br) : LET x == th[t].op.br[b] IN
         \/ x.k \in SendKinds /\ Fits(t, b, 1) /\ \E u \in DOMAIN th : \E d \in 1..Len(th[u].op.br) :
               CanPair(t, b, u, d) /\ Fits(u, d, x.v) /\ Rendezvous(t, b, u, d)
         \/ x.k \in {"sendP", "recvP"} /\ Fits(t, b, 0) /\ PollFails(t, b)
              /\ (T.strict => ~PartnerSettled(t, b))
         \/ x.k \notin (SendKinds \cup RecvKinds) /\ Enabled1(x) /\ Fits(t, b, Result1(x)) /\ Solo(t, b)
              /\ (x.k = "timeout" => x.v <= T.ev[l].tm /\ ~Overtaken(t, b))
         \/ x.k = "bwait" /\ CanRelease(x.c) /\ (\A u \in AtBarrier(x.c) : Fits(u, 1, BarResult(x.c))) /\ Release(x.c)
  /\ UNCHANGED <<tr, l, shut>>
Consume ==
  /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
       \/ e.o = "d" /\ shut' = shut \cup {e.v} /\ UNCHANGED cmlvars
       \/ e.o = "s" /\ UNCHANGED shut /\ Start(e.t, e.op)
       \/ e.o = "e" /\ UNCHANGED shut /\ th[e.t].st = "com" /\ e.gs = th[e.t].op.gs /\ ~Late(e.t) /\ End(e.t)
       \/ e.o = "p" /\ UNCHANGED shut /\ Spawn(e.t)
       \/ e.o = "x" /\ UNCHANGED shut /\ Exit(e.t)
       \/ e.o = "q" /\ (IF shut = {} THEN Quiescent /\ NoRelease ELSE e.v \in shut) /\ UNCHANGED <<cmlvars, shut>>
  /\ l' = l + 1 /\ UNCHANGED tr
  /\ (l' > Len(T.ev) => PrintT(<<"ACC", tr>>))
Next == Silent \/ Consume
Spec == Init /\ [][Next]_<<cmlvars, tr, l, shut>>
=============================================================================
