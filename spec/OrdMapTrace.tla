----------------------------- MODULE OrdMapTrace -----------------------------
EXTENDS OrdMap, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st
NSlots == 4
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ st = [i \in 1..NSlots |-> IF Traces[tr].kind = "map" THEN EmptyMap ELSE {}]
MapStep(e) ==
  \/ /\ e.o \in MapBuilders
     /\ MapPre(e.o, st[e.x], e.k, e.v)
     /\ LET m == MapNew(e.o, st[e.x], st[e.y], e.k, e.v, e.f)
        IN e.r = Content(m) /\ st' = [st EXCEPT ![e.d] = m]
  \/ /\ e.o \in MapQueries
     /\ e.r = MapRes(e.o, st[e.x], st[e.y], e.k, e.f)
     /\ UNCHANGED st
SetStep(e, K) ==
  \/ /\ e.o \in SetBuilders
     /\ SetPre(e.o, st[e.x], e.k, e.l, e.f)
     /\ LET s == SetNew(e.o, st[e.x], st[e.y], e.k, e.l, e.f, K)
        IN e.r = <<Cardinality(s)>> \o SortedKeys(s) /\ st' = [st EXCEPT ![e.d] = s]
  \/ /\ e.o \in SetQueries
     /\ SetOk(e.o, st[e.x], st[e.y], e.k, e.f, e.r)
     /\ UNCHANGED st
Next == /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
        /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] IN
             IF Traces[tr].kind = "map" THEN MapStep(e) ELSE SetStep(e, Traces[tr].K)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>))
Spec == Init /\ [][Next]_<<tr, l, st>>
=============================================================================
