------------------------------- MODULE OrdMap -------------------------------
(* Abstract model of the ordered finite maps and sets of the SML/NJ library.
   State: NSlots persistent versions; every operation reads versions x and y and may
   store a new version in slot d.  Nothing else ever changes (persistence).
   The function arguments of higher-order operations are a fixed family indexed by f,
   the same family the driver passes to the real code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

EmptyMap == [k \in {} |-> 0]
Put(m, k, v) == [j \in DOMAIN m \cup {k} |-> IF j = k THEN v ELSE m[j]]
Del(m, k) == [j \in DOMAIN m \ {k} |-> m[j]]
SortedKeys(S) == SetToSortSeq(S, <)
B(b) == IF b THEN 1 ELSE 0

Comb(f, k, a, b) == CASE f = 0 -> a [] f = 1 -> b [] f = 2 -> (3*a + b + k) % 97
                      [] OTHER -> (a + 5*b + 1) % 89
Pred(f, k, v) == ((k + v + f) % 3) # 0

RECURSIVE Flat(_, _)
Flat(m, ks) == IF ks = <<>> THEN <<>> ELSE <<Head(ks), m[Head(ks)]>> \o Flat(m, Tail(ks))
Items(m) == Flat(m, SortedKeys(DOMAIN m))
Vals(m) == LET ks == SortedKeys(DOMAIN m) IN [i \in 1..Len(ks) |-> m[ks[i]]]
Content(m) == <<Cardinality(DOMAIN m)>> \o Items(m)

Union(m, n, op(_,_,_)) ==
  [k \in DOMAIN m \cup DOMAIN n |->
     IF k \in DOMAIN m THEN (IF k \in DOMAIN n THEN op(k, m[k], n[k]) ELSE m[k]) ELSE n[k]]
Inter(m, n, op(_,_,_)) == [k \in DOMAIN m \cap DOMAIN n |-> op(k, m[k], n[k])]
(* merge: -1 stands for NONE *)
Merge(m, n, op(_,_,_)) ==
  LET r == [k \in DOMAIN m \cup DOMAIN n |->
              op(k, IF k \in DOMAIN m THEN m[k] ELSE -1, IF k \in DOMAIN n THEN n[k] ELSE -1)]
  IN Restrict(r, {k \in DOMAIN r : r[k] # -1})

(* lexicographic order of two item sequences <<k1,v1,k2,v2,...>> under value divisor q *)
RECURSIVE LexM(_, _, _)
LexM(a, b, q) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF (a[2] \div q) # (b[2] \div q) THEN (IF a[2] \div q < b[2] \div q THEN -1 ELSE 1)
  ELSE LexM(SubSeq(a, 3, Len(a)), SubSeq(b, 3, Len(b)), q)
RECURSIVE Lex(_, _)
Lex(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF Head(a) # Head(b) THEN (IF Head(a) < Head(b) THEN -1 ELSE 1)
  ELSE Lex(Tail(a), Tail(b))

(* ---- map operations: those that build a new version ---- *)
MapBuilders == {"insert","insertWith","insertWithi","remove","unionWith","unionWithi","intersectWith",
  "intersectWithi","mergeWith","mergeWithi","map","mapi","filter","filteri","mapPartial","mapPartiali",
  "singleton","empty","copy"}
MapNew(o, m, n, k, v, f) ==
  CASE o = "insert" -> Put(m, k, v)
    [] o = "insertWith" -> Put(m, k, IF k \in DOMAIN m THEN Comb(f, 0, m[k], v) ELSE v)
    [] o = "insertWithi" -> Put(m, k, IF k \in DOMAIN m THEN Comb(f, k, m[k], v) ELSE v)
    [] o = "remove" -> Del(m, k)
    [] o = "unionWith" -> Union(m, n, LAMBDA kk, a, b : Comb(f, 0, a, b))
    [] o = "unionWithi" -> Union(m, n, LAMBDA kk, a, b : Comb(f, kk, a, b))
    [] o = "intersectWith" -> Inter(m, n, LAMBDA kk, a, b : Comb(f, 0, a, b))
    [] o = "intersectWithi" -> Inter(m, n, LAMBDA kk, a, b : Comb(f, kk, a, b))
    [] o = "mergeWith" -> Merge(m, n, LAMBDA kk, a, b :
          IF b = -1 THEN (IF f = 1 THEN -1 ELSE a)
          ELSE IF a = -1 THEN (IF f = 2 THEN -1 ELSE (b + 1) % 50)
          ELSE IF f = 3 THEN -1 ELSE Comb(f, 0, a, b))
    [] o = "mergeWithi" -> Merge(m, n, LAMBDA kk, a, b :
          IF b = -1 THEN (IF f = 1 THEN -1 ELSE a)
          ELSE IF a = -1 THEN (IF f = 2 THEN -1 ELSE (b + 1) % 50)
          ELSE IF Pred(f, kk, a) THEN Comb(f, kk, a, b) ELSE -1)
    [] o = "map" -> [j \in DOMAIN m |-> (2 * m[j] + f) % 31]
    [] o = "mapi" -> [j \in DOMAIN m |-> (2 * m[j] + f + j) % 31]
    [] o = "filter" -> Restrict(m, {j \in DOMAIN m : Pred(f, 0, m[j])})
    [] o = "filteri" -> Restrict(m, {j \in DOMAIN m : Pred(f, j, m[j])})
    [] o = "mapPartial" -> [j \in {i \in DOMAIN m : Pred(f, 0, m[i])} |-> (m[j] + 7) % 31]
    [] o = "mapPartiali" -> [j \in {i \in DOMAIN m : Pred(f, i, m[i])} |-> (m[j] + j) % 31]
    [] o = "singleton" -> Put(EmptyMap, k, v)
    [] o = "empty" -> EmptyMap
    [] o = "copy" -> m
(* enabledness of the partial ones; v is the value handed back by remove *)
MapPre(o, m, k, v) == o = "remove" => (k \in DOMAIN m /\ m[k] = v)
MapQueries == {"find","removeNone","inDomain","first","firsti","numItems","listItems","listKeys","items","equiv",
  "collate","extends","exists","all","dump"}
MapRes(o, m, n, k, f) ==
  CASE o = "find" -> IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>
    [] o = "removeNone" -> IF k \in DOMAIN m THEN <<"present">> ELSE <<>>
    [] o = "inDomain" -> <<B(k \in DOMAIN m)>>
    [] o = "first" -> IF DOMAIN m = {} THEN <<>> ELSE <<m[Min(DOMAIN m)]>>
    [] o = "firsti" -> IF DOMAIN m = {} THEN <<>> ELSE <<Min(DOMAIN m), m[Min(DOMAIN m)]>>
    [] o = "numItems" -> <<Cardinality(DOMAIN m)>>
    [] o = "listItems" -> Vals(m)
    [] o = "listKeys" -> SortedKeys(DOMAIN m)
    [] o = "items" -> Items(m)
    [] o = "equiv" -> <<B(DOMAIN m = DOMAIN n /\ \A j \in DOMAIN m : m[j] % (f+1) = n[j] % (f+1))>>
    [] o = "collate" -> <<LexM(Items(m), Items(n), f+1)>>
    [] o = "extends" -> <<B(DOMAIN n \subseteq DOMAIN m /\ \A j \in DOMAIN n : m[j] % (f+1) <= n[j] % (f+1))>>
    [] o = "exists" -> <<B(\E j \in DOMAIN m : m[j] % 17 = f), B(\E j \in DOMAIN m : (m[j] + j) % 17 = f)>>
    [] o = "all" -> <<B(\A j \in DOMAIN m : m[j] % 17 # f), B(\A j \in DOMAIN m : (m[j] + j) % 17 # f)>>
    [] o = "dump" -> <<B(DOMAIN m = {})>> \o Content(m)

(* ---- sets ---- *)
SPred(f, k) == ((k + f) % 3) # 0
CW(f, k, a, b) == CASE f = 0 -> a /\ ~b [] f = 1 -> a # b [] f = 2 -> (a \/ b) /\ k % 2 = 0 [] OTHER -> a /\ b
SetBuilders == {"add","addList","fromList","subtract","subtractList","delete","union","intersection","difference",
  "combineWith","map","mapPartial","partition","filter","singleton","empty"}
SetNew(o, s, t, k, l, f, K) ==
  CASE o = "add" -> s \cup {k}
    [] o = "addList" -> s \cup ToSet(l)
    [] o = "fromList" -> ToSet(l)
    [] o = "subtract" -> s \ {k}
    [] o = "subtractList" -> s \ ToSet(l)
    [] o = "delete" -> s \ {k}
    [] o = "union" -> s \cup t
    [] o = "intersection" -> s \cap t
    [] o = "difference" -> s \ t
    [] o = "combineWith" -> {j \in s \cup t : CW(f, j, j \in s, j \in t)}
    [] o = "map" -> {((j * 2 + f) % K) + 1 : j \in s}
    [] o = "mapPartial" -> {((j + 3) % K) + 1 : j \in {i \in s : SPred(f, i)}}
    [] o = "partition" -> {j \in s : SPred(f, j)}
    [] o = "filter" -> {j \in s : SPred(f, j)}
    [] o = "singleton" -> {k}
    [] o = "empty" -> {}
SetPre(o, s, k, l, f) == /\ o = "delete" => k \in s
                         /\ o = "partition" => l = SortedKeys({j \in s : ~SPred(f, j)})
SetQueries == {"deleteNone","member","isEmpty","minItem","maxItem","equal","compare","isSubset","disjoint","numItems",
  "items","exists","all","find","dump"}
SetOk(o, s, t, k, f, r) ==
  CASE o = "deleteNone" -> k \notin s
    [] o = "member" -> r = <<B(k \in s)>>
    [] o = "isEmpty" -> r = <<B(s = {})>>
    [] o = "minItem" -> r = (IF s = {} THEN <<>> ELSE <<Min(s)>>)
    [] o = "maxItem" -> r = (IF s = {} THEN <<>> ELSE <<Max(s)>>)
    [] o = "equal" -> r = <<B(s = t)>>
    [] o = "compare" -> r = <<Lex(SortedKeys(s), SortedKeys(t))>>
    [] o = "isSubset" -> r = <<B(s \subseteq t)>>
    [] o = "disjoint" -> r = <<B(s \cap t = {})>>
    [] o = "numItems" -> r = <<Cardinality(s)>>
    [] o = "items" -> r = SortedKeys(s)
    [] o = "exists" -> r = <<B(\E j \in s : j % 17 = f)>>
    [] o = "all" -> r = <<B(\A j \in s : j % 17 # f)>>
    [] o = "find" -> IF \E j \in s : j % 5 = f THEN Len(r) = 1 /\ r[1] \in s /\ r[1] % 5 = f ELSE r = <<>>
    [] o = "dump" -> r = <<Cardinality(s)>> \o SortedKeys(s)
=============================================================================
