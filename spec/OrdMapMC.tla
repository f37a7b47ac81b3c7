------------------------------ MODULE OrdMapMC ------------------------------
(* Exhaustive design check: all histories over a small universe reach every pair of versions;
   algebraic laws and persistence are checked in every reachable state. *)
EXTENDS OrdMap
CONSTANTS Keys, Vals0, NSlots
VARIABLES ms, last
Slots == 1..NSlots
Fs == 0..3
vars == <<ms, last>>
Init == ms = [i \in Slots |-> EmptyMap] /\ last = <<0, EmptyMap>>
Do(o, x, y, d, k, v, f) ==
  /\ MapPre(o, ms[x], k, v)
  /\ LET m == MapNew(o, ms[x], ms[y], k, v, f)
         mm == [j \in DOMAIN m |-> m[j] % 2]     \* keep the value space finite
     IN ms' = [ms EXCEPT ![d] = mm] /\ last' = <<d, mm>>
Next == \E o \in MapBuilders, x \in Slots, y \in Slots, d \in Slots, k \in Keys, v \in Vals0, f \in {0, 2} :
           Do(o, x, y, d, k, v, f)
Spec == Init /\ [][Next]_vars
View == ms
Persistent == [][\A s \in Slots : s # last'[1] => ms'[s] = ms[s]]_vars
Laws == \A x \in Slots, y \in Slots :
  LET m == ms[x] n == ms[y] un == Union(m, n, LAMBDA k, a, b : Comb(2, k, a, b))
      it == Inter(m, n, LAMBDA k, a, b : a) IN
  /\ Cardinality(DOMAIN un) = Cardinality(DOMAIN m) + Cardinality(DOMAIN n) - Cardinality(DOMAIN it)
  /\ \A k \in Keys : MapRes("find", Put(m, k, 1), n, k, 0) = <<1>> /\ MapRes("find", Del(m, k), n, k, 0) = <<>>
  /\ Len(Items(m)) = 2 * Len(SortedKeys(DOMAIN m))
  /\ \A i, j \in 1..Len(SortedKeys(DOMAIN m)) : i < j => SortedKeys(DOMAIN m)[i] < SortedKeys(DOMAIN m)[j]
  /\ MapRes("collate", m, n, 0, 0) = <<0>> <=> m = n
  /\ MapRes("collate", m, n, 0, 0)[1] = -(MapRes("collate", n, m, 0, 0)[1])
  /\ (MapRes("equiv", m, n, 0, 3) = <<1>>) = (MapRes("extends", m, n, 0, 3) = <<1>> /\ MapRes("extends", n, m, 0, 3) = <<1>>)
=============================================================================
