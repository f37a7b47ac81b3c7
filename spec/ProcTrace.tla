------------------------------ MODULE ProcTrace ------------------------------
EXTENDS Proc, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ st = InitProc(Traces[tr].env)
Next == /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
        /\ l <= Len(Traces[tr].ev)
        /\ LET v == Traces[tr].ev[l] IN st' \in Accept(st, v.pr, v, v.e, v.r)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>))
Spec == Init /\ [][Next]_<<tr, l, st>>
=============================================================================
