------------------------------- MODULE SigMC -------------------------------
(* All orders of operations and handler runs on two signals and the collector's.  Ghosts, since the last change of action:
   gn: signals sent, un: those sent while not masked, hn: those reported to handlers.                                     *)
EXTENDS Sig
CONSTANTS MaxN, MaxM
VARIABLES st, gn, un, hn, last
vars == <<st, gn, un, hn, last>>
A(k, s, l, id) == [k |-> k, s |-> s, l |-> l, id |-> id]
Hs == ("1" :> <<>>) @@ ("2" :> <<A("r", "HUP", <<>>, "")>>) @@ ("3" :> <<A("m", "", <<"HUP">>, "")>>) @@ ("4" :> <<A("u", "", <<"HUP">>, "")>>)
      @@ ("5" :> <<A("i", "HUP", <<>>, "")>>) @@ ("6" :> <<A("m", "", <<"*">>, ""), A("r", "HUP", <<>>, ""), A("u", "", <<"*">>, "")>>) @@ ("7" :> <<A("g", "", <<>>, "")>>)
Menu(s) == IF s = "USR1" THEN {"i", "1", "2", "3", "4", "5", "6", "7"} ELSE {"i", "1"}
Zero == [s \in SIGS |-> 0]
Init == st = [InitSig EXCEPT !.act = [s \in SIGS |-> "i"], !.H = Hs] /\ gn = Zero /\ un = Zero /\ hn = Zero /\ last = "op"
(* ghost counts of the sends among actions l, and resets *)
RECURSIVE Cnt(_, _, _, _)
Cnt(s, l, g, u) == IF l = <<>> THEN <<g, u>> ELSE
   LET a == Head(l)
       t == Do(s, a)
       x == IF a.k = "r" THEN a.s ELSE IF a.k = "g" /\ ~s.ingc /\ IsH(s.act["GC"]) THEN "GC" ELSE ""
       z == a.k = "i" /\ s.act[a.s] # "i"
       g1 == IF z THEN [g EXCEPT ![a.s] = 0] ELSE IF x = "" THEN g ELSE [g EXCEPT ![x] = @ + 1]
       u1 == IF z THEN [u EXCEPT ![a.s] = 0] ELSE IF x = "" \/ ~IsH(s.act[x]) \/ (x # "GC" /\ s.m[x] > 0) THEN u ELSE [u EXCEPT ![x] = @ + 1]
   IN Cnt(t, Tail(l), g1, u1)
Send(s) == /\ gn[s] < MaxN /\ st' = Gen(st, s) /\ gn' = [gn EXCEPT ![s] = @ + 1]
           /\ un' = IF IsH(st.act[s]) /\ (s = "GC" \/ st.m[s] = 0) THEN [un EXCEPT ![s] = @ + 1] ELSE un
           /\ UNCHANGED hn
Act(s, a) == /\ a # st.act[s] /\ (IsH(a) => ~IsH(st.act[s])) /\ st' = SetAct(st, s, a)
             /\ gn' = [gn EXCEPT ![s] = IF s \in st.kp THEN 1 ELSE 0] /\ un' = [un EXCEPT ![s] = 0] /\ hn' = [hn EXCEPT ![s] = 0]
Run(s) == LET x == <<st.act[s], s, st.rp[s]>>
              g == Cnt([st EXCEPT !.rp[s] = 0, !.ingc = (s = "GC")], Acts(st, x[1]), gn, un)
              t == After(st, x)
          IN /\ Runs(st, x) /\ st' = t /\ gn' = g[1] /\ un' = g[2]
             /\ hn' = [q \in SIGS |-> IF t.act[q] # st.act[q] THEN 0 ELSE IF q = s THEN hn[q] + x[3] ELSE hn[q]]
             /\ \A q \in SIGS : g[1][q] <= MaxN /\ t.m[q] <= MaxM
Masks == {<<"USR1">>, <<"HUP">>, <<"*">>}
Op == \/ \E s \in SIGS : Send(s)
      \/ \E l \in Masks : st' = Mask(st, l) /\ (\A s \in SIGS : st'.m[s] <= MaxM) /\ UNCHANGED <<gn, un, hn>>
      \/ \E l \in Masks : st' = Unmask(st, l) /\ UNCHANGED <<gn, un, hn>>
      \/ \E s \in SIGS : \E a \in Menu(s) : Act(s, a)
Next == IF Waiting(st) # {} THEN last' = "run" /\ \E s \in Waiting(st) : Run(s) ELSE last' = "op" /\ Op
Spec == Init /\ [][Next]_vars
One(s) == IF s \in st.kp THEN 1 ELSE 0
(* nothing is invented; nothing that arrives while it is not masked is lost *)
Counts == \A s \in SIGS : IsH(st.act[s]) => hn[s] + st.rp[s] + One(s) <= gn[s] /\ hn[s] + st.rp[s] >= un[s]
(* the system holds back only masked signals; without a handler nothing waits *)
Held == (\A s \in st.kp : st.m[s] > 0 /\ s # "GC") /\ (\A s \in SIGS : ~IsH(st.act[s]) => st.rp[s] = 0) /\ ~st.ingc
=============================================================================
