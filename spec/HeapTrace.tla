------------------------------ MODULE HeapTrace ------------------------------
EXTENDS Heap, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ store = <<>> /\ roots = [i \in 1..Traces[tr].ns |-> <<0, 0>>]
Next == /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
        /\ l <= Len(Traces[tr].ev)
        /\ Step(Traces[tr].ev[l], Traces[tr].ng)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>))
Spec == Init /\ [][Next]_<<tr, l, store, roots>>
=============================================================================
