------------------------------- MODULE GenGC -------------------------------
(* The collector's algorithm (base/runtime/gc): a nursery (generation 0) and generations 1..G, a store list
   of cells updated since the last minor collection, a set of dirty cells per old generation, copying
   with promotion, and weak pointers cleared after copying.  Checked: it implements the heap of Heap.tla,
   i.e. no reachable object is ever freed, weak pointers are exact, full collections free all garbage. *)
EXTENDS Integers, FiniteSets
CONSTANTS Obj, Roots, G
VARIABLES gen,      \* generation of each object; -1: not allocated
          old,      \* survived one collection of its generation (below oldTop)
          fld,      \* the one mutable field of each object (0: none)
          root, stl, dirty, weak
vars == <<gen, old, fld, root, stl, dirty, weak>>
Nil == 0
RECURSIVE Close(_, _, _, _)
\* objects reachable from S through objects satisfying membership in C
Close(f, done, todo, C) == IF todo = {} THEN done ELSE
   LET n == ({f[x] : x \in todo} \ {Nil}) \cap C IN Close(f, done \cup todo, n \ (done \cup todo), C)
RootSet == {root[i] : i \in Roots} \ {Nil}
Live == Close(fld, {}, RootSet, Obj)
Init == /\ gen = [o \in Obj |-> -1] /\ old = [o \in Obj |-> FALSE] /\ fld = [o \in Obj |-> Nil]
        /\ root = [i \in Roots |-> Nil] /\ stl = {} /\ dirty = {} /\ weak = [o \in Obj |-> Nil]
Alloc == \E o \in Obj, i \in Roots, v \in RootSet \cup {Nil}, w \in RootSet \cup {Nil} :
   /\ gen[o] = -1
   /\ gen' = [gen EXCEPT ![o] = 0] /\ old' = [old EXCEPT ![o] = FALSE]
   /\ fld' = [fld EXCEPT ![o] = v] /\ root' = [root EXCEPT ![i] = o]
   /\ weak' = [weak EXCEPT ![o] = w]       \* o also carries a weak pointer to w
   /\ UNCHANGED <<stl, dirty>>
SetRoot == \E i \in Roots, v \in Live \cup {Nil} : root' = [root EXCEPT ![i] = v] /\ UNCHANGED <<gen, old, fld, stl, dirty, weak>>
Write == \E o \in Live, v \in Live \cup {Nil} :
   /\ fld' = [fld EXCEPT ![o] = v] /\ stl' = stl \cup {o}
   /\ UNCHANGED <<gen, old, root, dirty, weak>>
\* what a minor collection copies
Kept0 == LET nur == {o \in Obj : gen[o] = 0}
             src == (RootSet \cup {fld[o] : o \in {p \in stl : gen[p] > 0}}) \cap nur
         IN Close(fld, {}, src, nur)
Free(g2, S) == [o \in Obj |-> IF o \in S THEN -1 ELSE g2[o]]
Clear(dead) == [o \in Obj |-> IF weak[o] \in dead \/ o \in dead THEN Nil ELSE weak[o]]
Wipe(f, dead) == [o \in Obj |-> IF o \in dead THEN Nil ELSE f[o]]   \* contents of freed objects do not matter
MinorStep == LET kept == Kept0
             dead == {o \in Obj : gen[o] = 0} \ kept
             g2 == [o \in Obj |-> IF o \in kept THEN 1 ELSE IF o \in dead THEN -1 ELSE gen[o]]
         IN /\ gen' = g2 /\ stl' = {}
            /\ dirty' = dirty \cup {o \in stl \ dead : fld[o] # Nil /\ g2[o] > g2[fld[o]]}
            /\ weak' = Clear(dead)
            /\ fld' = Wipe(fld, dead)
            /\ UNCHANGED <<old, root>>
Minor == (stl # {} \/ \E o \in Obj : gen[o] = 0) /\ MinorStep
\* generations 1..n after a minor collection (nursery empty)
Major(n) == /\ \A o \in Obj : gen[o] # 0
            /\ stl = {}
            /\ LET from == {o \in Obj : gen[o] \in 1..n}
                   src == (RootSet \cup {fld[o] : o \in {p \in dirty : gen[p] > n}}) \cap from
                   kept == Close(fld, {}, src, from)
                   dead == from \ kept
                   g2 == [o \in Obj |-> IF o \in kept /\ old[o] /\ gen[o] < G THEN gen[o] + 1 ELSE IF o \in dead THEN -1 ELSE gen[o]]
               IN /\ gen' = g2
                  /\ old' = [o \in Obj |-> IF o \in kept THEN (g2[o] <= n /\ g2[o] < G) ELSE IF o \in dead THEN FALSE ELSE old[o]]
                  /\ dirty' = {o \in Obj : (o \in kept \/ (o \in dirty /\ gen[o] > n)) /\ fld[o] # Nil /\ fld[o] \notin dead /\ g2[o] > g2[fld[o]]}
                  /\ weak' = Clear(dead) /\ fld' = Wipe(fld, dead)
            /\ UNCHANGED <<root, stl>>
Next == Alloc \/ SetRoot \/ Write \/ Minor \/ \E n \in 1..G : Major(n)
Spec == Init /\ [][Next]_vars
NoDangling == \A o \in Live : gen[o] >= 0
WeakOk == \A o \in Obj : (gen[o] >= 0 /\ weak[o] # Nil) => gen[weak[o]] >= 0
Remembered == /\ \A o \in Obj : (gen[o] > 0 /\ fld[o] # Nil /\ o \in Live) => (gen[fld[o]] < gen[o] => o \in dirty \cup stl)
\* a full collection leaves only reachable objects, and clears exactly the weak pointers to the others
FullExact == [][(\E n \in {G} : Major(n)) => (\A o \in Obj : (gen'[o] >= 0) => o \in Live) /\ (\A o \in Live : (weak[o] \in Live) => weak'[o] = weak[o])]_vars
WeakSafe == [][\A o \in Obj : (gen[o] >= 0 /\ o \in Live /\ weak[o] \in Live /\ UNCHANGED root /\ gen'[o] >= 0 /\ (Minor \/ \E n \in 1..G : Major(n))) => weak'[o] = weak[o]]_vars
=============================================================================
