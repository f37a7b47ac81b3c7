------------------------------ MODULE PollTrace ------------------------------
EXTENDS Poll, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ st = InitPoll
Next == /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
        /\ l <= Len(Traces[tr].ev)
        /\ st' \in Accept(st, Traces[tr].ev[l])
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>))
Spec == Init /\ [][Next]_<<tr, l, st>>
=============================================================================
