------------------------------- MODULE PollMC -------------------------------
(* All histories of a few pipes and a file; what polling reports is what reading and writing would do. *)
EXTENDS Poll
CONSTANTS Pipes, Cap, MaxItems
VARIABLE s
R(p) == 2 * p
W(p) == 2 * p + 1
F == 99
Init == s = [d |-> [f \in {R(p) : p \in Pipes} \cup {W(p) : p \in Pipes} \cup {F} |-> IF f = F THEN [k |-> "f", p |-> 0] ELSE [k |-> IF f % 2 = 0 THEN "r" ELSE "w", p |-> f \div 2]],
             p |-> [p \in Pipes |-> [n |-> 0, full |-> FALSE]]]
Put(p) == W(p) \in DOMAIN s.d /\ R(p) \in DOMAIN s.d /\ s.p[p].n < Cap
          /\ s' = [s EXCEPT !.p[p].n = @ + 1, !.p[p].full = (s.p[p].n + 1 = Cap)]
Get(p) == R(p) \in DOMAIN s.d /\ s.p[p].n > 0 /\ s' = [s EXCEPT !.p[p].n = @ - 1, !.p[p].full = FALSE]
Close(f) == f \in DOMAIN s.d /\ s' = [s EXCEPT !.d = Drop(@, f)]
Next == (\E p \in Pipes : Put(p) \/ Get(p)) \/ \E f \in DOMAIN s.d : Close(f)
Spec == Init /\ [][Next]_s
Flags == {<<>>, <<"i">>, <<"o">>, <<"p">>, <<"i", "o">>, <<"i", "o", "p">>}
Items == UNION {[1..k -> [f : DOMAIN s.d, fl : Flags]] : k \in 0..MaxItems}
(* would a read (write) wait? *)
ReadWaits(f) == s.d[f].k = "r" /\ s.p[s.d[f].p].n = 0 /\ Held(s, s.d[f].p, "w")
WriteWaits(f) == s.d[f].k = "w" /\ s.p[s.d[f].p].n = Cap /\ Held(s, s.d[f].p, "r")
Rng(q) == {q[i] : i \in DOMAIN q}
Sound == \A q \in Items : LET r == Report(s, q)
  IN /\ \A i \in DOMAIN r : r[i].fl # <<>> /\ \E j \in DOMAIN q : q[j].f = r[i].f /\ Rng(r[i].fl) \subseteq Rng(q[j].fl)
     /\ \A i \in DOMAIN r : ("i" \in Rng(r[i].fl) /\ s.d[r[i].f].k # "w" => ~ReadWaits(r[i].f)) /\ ("o" \in Rng(r[i].fl) => ~WriteWaits(r[i].f))
     /\ \A j \in DOMAIN q : ("i" \in Rng(q[j].fl) /\ s.d[q[j].f].k # "w" /\ ~ReadWaits(q[j].f)) => \E i \in DOMAIN r : r[i].f = q[j].f /\ "i" \in Rng(r[i].fl)
     /\ \A j \in DOMAIN q : ("o" \in Rng(q[j].fl) /\ s.d[q[j].f].k # "r" /\ ~WriteWaits(q[j].f)) => \E i \in DOMAIN r : r[i].f = q[j].f /\ "o" \in Rng(r[i].fl)
     /\ (r = <<>> <=> \A j \in DOMAIN q : Report(s, <<q[j]>>) = <<>>)
(* the end of a pipe stays the end *)
Stays == [][\A p \in Pipes : (R(p) \in DOMAIN s'.d /\ R(p) \in DOMAIN s.d /\ ~Held(s, p, "w")) => Ready(s', R(p), "i")]_s
=============================================================================
