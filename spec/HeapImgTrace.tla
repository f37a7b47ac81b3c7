---------------------------- MODULE HeapImgTrace ----------------------------
(* Heap images: exporting and resuming are stuttering steps of the heap of Heap.tla; the exporting call
   returns false in the exporting process and true in the resumed one, and the resumed process sees its own
   command line with the runtime's arguments (flagged 1 in `given') removed. *)
EXTENDS Heap, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ store = <<>> /\ roots = [i \in 1..Traces[tr].ns |-> <<0, 0>>]
RECURSIVE Plain(_)
Plain(g) == IF g = <<>> THEN <<>> ELSE (IF g[1][1] = 1 THEN <<>> ELSE <<g[1][2]>>) \o Plain(Tail(g))
All(g) == [i \in DOMAIN g |-> g[i][2]]
\* the trace records one side for each export: all but the last "resume" of this history were on the resumed side
Side(t, i) == IF t.side = "ml" /\ \A j \in (i+1)..Len(t.ev) : t.ev[j].o # "resume" THEN 0 ELSE 1
NthArgs(t, i) == Cardinality({j \in 1..i : t.ev[j].o = "args"})
Img(e, t) == \/ e.o = "export" /\ UNCHANGED <<store, roots>>
             \/ /\ e.o = "resume" /\ e.r = Side(t, l) /\ UNCHANGED <<store, roots>>
             \/ /\ e.o = "args"
                /\ LET g == t.given[NthArgs(t, l)] IN
                     /\ e.args = Plain(g.args)
                     /\ e.name = g.name
                     /\ e.raw = <<g.exe>> \o All(g.args)
                /\ UNCHANGED <<store, roots>>
Next == /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
        /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l] IN
             IF e.o \in {"export", "resume", "args"} THEN Img(e, Traces[tr]) ELSE Step(e, Traces[tr].ng)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>))
Spec == Init /\ [][Next]_<<tr, l, store, roots>>
=============================================================================
