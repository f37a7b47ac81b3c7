------------------------------- MODULE SigTrace -------------------------------
EXTENDS Sig, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, l, st
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ st = [InitSig EXCEPT !.act = [s \in SIGS |-> Traces[tr].init[s]]]
Next == /\ (Len(Traces) = 1 => PrintT(<<"AT", tr, l>>))
        /\ l <= Len(Traces[tr].ev)
        /\ LET v == Traces[tr].ev[l] IN st' \in Accept(st, v)
        /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>))
Spec == Init /\ [][Next]_<<tr, l, st>>
=============================================================================
