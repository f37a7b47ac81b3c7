-------------------------------- MODULE Heap --------------------------------
(* The heap as an SML program sees it.  A store maps object identities to objects, `roots' is what the
   program holds.  Collections are stuttering steps except that they may (and full ones must) clear weak
   pointers whose referents are unreachable.
   Values are <<0, n>> (unboxed) or <<1, id>> (pointer).
   Objects are records: k kind; f contents (immutable tuple, or the one field of a reference);
   n length, d default element and ov overrides (array-like objects, sparse); t, a target and
   "may still be alive" of a weak pointer; c evaluation count of a suspension. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES store, roots
Rng(s) == {s[i] : i \in DOMAIN s}
Ptrs(vs) == {v[2] : v \in {w \in vs : w[1] = 1}}
Sparse == {"arr", "vec", "bya", "rea"}
Boxed == {"arr", "vec"}                      \* sparse kinds whose elements are values
Succ(o) == CASE o.k \in {"tup", "ref", "sus"} -> Ptrs(Rng(o.f))
             [] o.k = "arr" -> Ptrs({o.d} \cup Rng(o.ov))
             [] o.k = "vec" -> Ptrs(Rng(o.ov))
             [] OTHER -> {}                  \* weak pointers do not keep anything alive
RECURSIVE Reach(_, _, _, _)
Reach(st, done, todo, hide) == IF todo = {} THEN done ELSE
   LET new == UNION {Succ(st[x]) : x \in {y \in todo : st[y].k \notin hide}}
       d2  == done \cup todo
   IN Reach(st, d2, new \ d2, hide)
Live(st, rt) == Reach(st, {}, Ptrs(Rng(rt)), {})
Shown(st, rt) == Reach(st, {}, Ptrs(Rng(rt)), {"sus"})   \* what a walk sees that forces nothing
\* pairs <<index, value>> to a function; later pairs win
OvUpd(ov, l) == LET idx == {l[i][1] : i \in DOMAIN l}
                    last(k) == LET m == {i \in DOMAIN l : l[i][1] = k}
                               IN l[CHOOSE i \in m : \A j \in m : j <= i][2]
                IN [k \in idx \cup DOMAIN ov |-> IF k \in idx THEN last(k) ELSE ov[k]]
Norm(ov, d) == [k \in {k \in DOMAIN ov : ov[k] # d} |-> ov[k]]
Pat(o, k) == (o.d + k) % (IF o.k = "bya" THEN 251 ELSE 1000)
NormOv(o, ov) == CASE o.k = "arr" -> Norm(ov, o.d)
                   [] o.k = "vec" -> [k \in {k \in DOMAIN ov : ov[k] # <<0, Pat(o, k)>>} |-> ov[k]]
                   [] o.k = "bya" -> [k \in {k \in DOMAIN ov : ov[k] # Pat(o, k)} |-> ov[k]]
                   [] OTHER -> ov
Fresh(e) == LET base == [k |-> e.k, f |-> e.f, n |-> e.n, d |-> 0, ov |-> <<>>, t |-> 0, a |-> 0, c |-> 0]
  IN CASE e.k \in {"tup", "ref", "sus"} -> base
       [] e.k = "arr" -> [base EXCEPT !.d = e.f[1], !.f = <<>>]
       [] e.k = "vec" -> LET b == [base EXCEPT !.d = e.s, !.f = <<>>] IN [b EXCEPT !.ov = NormOv(b, OvUpd(<<>>, e.f))]
       [] e.k \in {"bya", "rea"} -> [base EXCEPT !.d = e.s]
       [] e.k = "str" -> base
       [] e.k = "leaf" -> [base EXCEPT !.d = e.s]
       [] e.k = "wk" -> [base EXCEPT !.t = e.s, !.a = 1]
\* one pair list of a sparse object as the driver prints it: ascending indices
OvOk(ov, l) == /\ Len(l) = Cardinality(DOMAIN ov)
               /\ \A i \in DOMAIN l : l[i][1] \in DOMAIN ov /\ ov[l[i][1]] = l[i][2]
               /\ \A i \in 1..(Len(l)-1) : l[i][1] < l[i+1][1]
ShowOk(o, c, live) ==
  CASE o.k \in {"tup", "ref"} -> c = o.f
    [] o.k = "arr" -> c[1] = o.n /\ c[2] = o.d /\ OvOk(o.ov, SubSeq(c, 3, Len(c)))
    [] o.k \in {"vec", "bya", "rea"} -> c[1] = o.n /\ OvOk(o.ov, Tail(c))
    [] o.k = "str" -> c = <<o.n>>
    [] o.k = "leaf" -> c = <<o.d>>
    [] o.k = "sus" -> c = <<o.c>>
    [] o.k = "wk" -> /\ c[1] = o.t
                     /\ c[2] = 1 => o.a = 1                \* once cleared, always cleared
                     /\ c[2] = 0 => o.t \notin live         \* never cleared while the referent is reachable
                     /\ c[2] \in {0, 1}
New(e) == /\ e.id \notin DOMAIN store
          /\ store' = [x \in DOMAIN store \cup {e.id} |-> IF x = e.id THEN Fresh(e) ELSE store[x]]
          /\ UNCHANGED roots
SetRoot(e) == roots' = [roots EXCEPT ![e.i] = e.v] /\ UNCHANGED store
SetObj(e) == /\ LET o == store[e.id] IN
                  store' = [store EXCEPT ![e.id] = IF o.k = "ref" THEN [o EXCEPT !.f = <<e.l[1][2]>>]
                                                   ELSE [o EXCEPT !.ov = NormOv(o, OvUpd(o.ov, e.l))]]
             /\ UNCHANGED roots
Fill(e) == /\ LET o == store[e.id] IN store' = [store EXCEPT ![e.id].ov = NormOv(o, OvUpd(<<>>, e.l))]
           /\ UNCHANGED roots
\* a collection of generations 1..n: may clear weak pointers to unreachable objects; a full one must
GC(e, full) == LET live == Live(store, roots) IN
     /\ store' = [x \in {y \in DOMAIN store : y \in live} |->
                     IF store[x].k = "wk" /\ e.n >= full /\ store[x].t \notin live
                     THEN [store[x] EXCEPT !.a = 0] ELSE store[x]]
     /\ UNCHANGED roots
\* observing a weak pointer: cleared only if unreachable; what was seen cleared stays cleared
Strong(e) == LET o == store[e.id] live == Live(store, roots) IN
     /\ e.r = 1 => o.a = 1
     /\ e.r = 0 => o.t \notin live
     /\ e.r \in {0, 1}
     /\ store' = [store EXCEPT ![e.id].a = e.r] /\ UNCHANGED roots
\* a suspension yields its value and is evaluated exactly once
Force(e) == LET o == store[e.id] IN
     /\ e.v = o.f[1] /\ e.c = 1
     /\ store' = [store EXCEPT ![e.id].c = 1] /\ UNCHANGED roots
Dump(e) == LET live == Live(store, roots)
               shown == Shown(store, roots) IN
     /\ e.bad = 0
     /\ e.roots = roots
     /\ Len(e.objs) = Cardinality(shown)
     /\ \A i \in DOMAIN e.objs : LET x == e.objs[i] IN
           /\ x[1] \in shown
           /\ store[x[1]].k = x[2]
           /\ ShowOk(store[x[1]], x[3], live)
     /\ Cardinality({e.objs[i][1] : i \in DOMAIN e.objs}) = Len(e.objs)
     /\ LET cl == {e.objs[i][1] : i \in {j \in DOMAIN e.objs : e.objs[j][2] = "wk" /\ e.objs[j][3][2] = 0}} IN
        store' = [x \in live |-> IF x \in cl THEN [store[x] EXCEPT !.a = 0] ELSE store[x]]
     /\ UNCHANGED roots
Spill(e) == e.r = 1 /\ UNCHANGED <<store, roots>>
(* An object of known age is dropped and generations 1..n are collected.  A collection promotes an object
   by at most one generation and leaves it in generation 1 the first time, so after `major' major
   collections it is at most in generation Max(1, major); with no collection at all it is in the nursery
   (large objects start in generation 1). *)
Max2(a, b) == IF a > b THEN a ELSE b
Probe(e) == /\ e.b = 1
            /\ (e.n >= Max2(1, e.major) \/ (e.n = 0 /\ e.minor = 0 /\ e.k \notin {7, 8})) => e.r = 0
            /\ e.r \in {0, 1}
            /\ e.r2 = 0
            /\ UNCHANGED <<store, roots>>
\* peak memory in KB while some gigabytes of garbage were made over at most 10 MB of live data
Mem(e) == e.peak <= e.base + 220000 /\ e.vm <= e.vbase + 250000 /\ UNCHANGED <<store, roots>>
Step(e, full) ==
   \/ e.o = "probe" /\ Probe(e)
   \/ e.o = "mem" /\ Mem(e)
   \/ e.o = "new" /\ New(e)
   \/ e.o = "root" /\ SetRoot(e)
   \/ e.o = "set" /\ SetObj(e)
   \/ e.o = "fill" /\ Fill(e)
   \/ e.o = "gc" /\ GC(e, full)
   \/ e.o = "strong" /\ Strong(e)
   \/ e.o = "force" /\ Force(e)
   \/ e.o = "dump" /\ Dump(e)
   \/ e.o = "spill" /\ Spill(e)
=============================================================================
