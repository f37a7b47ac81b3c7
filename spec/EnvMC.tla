------------------------------- MODULE EnvMC -------------------------------
(* All identity histories from all starting identities; all small command lines and environments. *)
EXTENDS Env
CONSTANTS Ids, Words, EnvWords, MaxArgs
VARIABLES x, s
Trip == [r : Ids, e : Ids, s : Ids]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Mode(m) == IF m = "ids" THEN {[argv |-> <<"c">>, env |-> <<>>, uid |-> u, gid |-> g] : u \in Trip, g \in Trip}
           ELSE {[argv |-> <<"c">> \o a, env |-> q, uid |-> [r |-> "1", e |-> "1", s |-> "1"], gid |-> [r |-> "1", e |-> "1", s |-> "1"]] :
                   a \in Seqs(Words, MaxArgs), q \in Seqs(EnvWords, MaxArgs)}
Init == x \in Mode("ids") \cup Mode("line") /\ s = InitEnv(x)
SetU(n) == s' = SetId(s, "uid", n)[2] /\ UNCHANGED x
SetG(n) == s' = SetId(s, "gid", n)[2] /\ UNCHANGED x
Shift == s.sh < 4 /\ s' = [s EXCEPT !.sh = @ + 1] /\ UNCHANGED x
Next == Shift \/ \E n \in Ids \cup {BadId} : SetU(n) \/ SetG(n)
Spec == Init /\ [][Next]_<<x, s>>
(* without privilege in the real or saved identity there is no way back, and no identity appears out of nothing *)
NoGain == (x.uid.r # "0" /\ x.uid.e # "0" /\ x.uid.s # "0") => s.uid.e \in {x.uid.r, x.uid.e, x.uid.s} /\ s.uid.e # "0" /\ s.uid.r = x.uid.r /\ s.uid.s = x.uid.s
Dropped == [][Privileged(s) /\ s'.uid.r # s.uid.r => s'.uid.r = s'.uid.e /\ s'.uid.s = s'.uid.e]_<<x, s>>
(* arguments: everything the runtime does not take, in order; shifting never loses or invents one *)
Line == LET a == Args(x) b == Shifted(x, s.sh)
        IN /\ Len(b) = IF s.sh > Len(a) THEN 0 ELSE Len(a) - s.sh
           /\ \A i \in DOMAIN b : b[i] = a[i + Len(a) - Len(b)]
           /\ Len(a) + Cardinality({i \in 2..Len(x.argv) : Runtime(x.argv[i])}) + 1 = Len(x.argv)
(* the environment: found iff some entry defines it, and the first one counts *)
Lookup == \A n \in {"A", "AB", "", "A=", "B"} :
            LET r == GetEnv(x, n) D == {i \in DOMAIN x.env : n # "" /\ Pre(n \o "=", x.env[i])}
            IN (r # <<>> <=> D # {}) /\ (r # <<>> => n \o "=" \o r[1] = x.env[Min(D)])
Inv == NoGain /\ Line /\ Lookup
=============================================================================
