------------------------------- MODULE OrdMap -------------------------------
(* The ordered containers: Map, Set, MultiMap and MultiSet.  A container is a *)
(* function from the keys present to the non-empty sequence of the values     *)
(* stored under the key, oldest first.  Iteration presents the keys in the    *)
(* order of the comparator, or in the opposite order, and the values of one   *)
(* key always oldest first.  An item is written key*1000+value.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES m,      \* slot -> container
          kind,   \* "map", "set", "mmap", "mset"
          desc    \* does the comparator reverse the order of the keys?

Multi == kind \in {"mmap", "mset"}
Empty == <<>>     \* the function with the empty domain
Keys(c) == DOMAIN c
Before(j, k) == IF desc THEN j > k ELSE j < k

\* the keys of S in the order of the comparator (back: reversed)
RECURSIVE Sorted(_, _)
Sorted(S, up) == IF S = {} THEN <<>>
                 ELSE LET x == CHOOSE y \in S : \A z \in S : IF up THEN y <= z ELSE y >= z
                      IN <<x>> \o Sorted(S \ {x}, up)
InOrder(S, back) == Sorted(S, desc = back)
Item(k, v) == k * 1000 + v
RECURSIVE Flat(_, _)
Flat(c, ks) == IF ks = <<>> THEN <<>>
               ELSE [i \in 1..Len(c[Head(ks)]) |-> Item(Head(ks), c[Head(ks)][i])] \o Flat(c, Tail(ks))
Content(c, back) == Flat(c, InOrder(Keys(c), back))
\* what an iterator positioned by seek(k) still has to give
From(c, k, back) == Flat(c, InOrder({j \in Keys(c) : j = k \/ (IF back THEN Before(j, k) ELSE Before(k, j))}, back))
RECURSIVE Total(_, _)
Total(c, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(c[k]) + Total(c, S \ {k})
Size(c) == Total(c, Keys(c))

Without(c, k) == [j \in Keys(c) \ {k} |-> c[j]]
With(c, k, s) == [j \in Keys(c) \cup {k} |-> IF j = k THEN s ELSE c[j]]
Put(c, k, v) == IF k \notin Keys(c) THEN With(c, k, <<v>>)
                ELSE IF Multi THEN With(c, k, Append(c[k], v)) ELSE c
Union(a, b) == [j \in Keys(a) \cup Keys(b) |-> IF j \in Keys(a) THEN a[j] ELSE b[j]]
Minus(a, b) == [j \in Keys(a) \ Keys(b) |-> a[j]]

\* erasing the item at which an iterator stands, skip items after seek(k)
RECURSIVE PosOf(_, _, _)
PosOf(c, ks, n) == IF ks = <<>> THEN <<0, 0>>
                   ELSE IF n < Len(c[Head(ks)]) THEN <<Head(ks), n + 1>>
                   ELSE PosOf(c, Tail(ks), n - Len(c[Head(ks)]))
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
SeekKeys(c, k, back) == InOrder({j \in Keys(c) : j = k \/ (IF back THEN Before(j, k) ELSE Before(k, j))}, back)
EraseAt(c, k, back, skip) == LET p == PosOf(c, SeekKeys(c, k, back), skip) IN
                             IF p[2] = 0 THEN c
                             ELSE IF Len(c[p[1]]) = 1 THEN Without(c, p[1])
                             ELSE With(c, p[1], DropAt(c[p[1]], p[2]))

\* lexicographic comparison of the keys in order, -1, 0 or 1
RECURSIVE Cmp(_, _)
Cmp(p, q) == IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1)
             ELSE IF q = <<>> THEN 1
             ELSE IF Before(Head(p), Head(q)) THEN -1
             ELSE IF Before(Head(q), Head(p)) THEN 1
             ELSE Cmp(Tail(p), Tail(q))
Compare(a, b) == Cmp(InOrder(Keys(a), FALSE), InOrder(Keys(b), FALSE))

\* an AVL tree of height h has at least MinNodes(h) nodes
RECURSIVE MinNodes(_)
MinNodes(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinNodes(h - 1) + MinNodes(h - 2)

Insert(s, k, v) == m' = [m EXCEPT ![s] = Put(@, k, v)]
Replace(s, k, v) == m' = [m EXCEPT ![s] = With(@, k, <<v>>)]
Erase(s, k) == m' = [m EXCEPT ![s] = Without(@, k)]
EraseIter(s, k, b, n) == m' = [m EXCEPT ![s] = EraseAt(@, k, b, n)]
Clear(s) == m' = [m EXCEPT ![s] = Empty]
Assign(s, o) == m' = [m EXCEPT ![s] = m[o]]
Swap(s, o) == m' = [m EXCEPT ![s] = m[o], ![o] = m[s]]
PlusEq(s, o) == m' = [m EXCEPT ![s] = Union(@, m[o])]
MinusEq(s, o) == m' = [m EXCEPT ![s] = Minus(@, m[o])]

-----------------------------------------------------------------------------
CONSTANTS KeySet, ValSet, MaxLen
Init == m = [s \in {0, 1} |-> Empty] /\ kind \in {"map", "mmap"} /\ desc \in BOOLEAN
Next == /\ UNCHANGED <<kind, desc>>
        /\ \E s \in {0, 1} : LET o == 1 - s IN
           \/ \E k \in KeySet, v \in ValSet : Insert(s, k, v)
           \/ \E k \in KeySet, v \in ValSet : ~Multi /\ Replace(s, k, v)
           \/ \E k \in KeySet : Erase(s, k)
           \/ \E k \in KeySet, b \in BOOLEAN, n \in 0..2 : EraseIter(s, k, b, n)
           \/ Clear(s) \/ Assign(s, o) \/ Swap(s, o)
           \/ ~Multi /\ (PlusEq(s, o) \/ MinusEq(s, o))
Spec == Init /\ [][Next]_<<m, kind, desc>>
Bounded == \A s \in {0, 1} : \A k \in Keys(m[s]) : Len(m[s][k]) <= MaxLen

TypeOK == \A s \in {0, 1} : /\ Keys(m[s]) \subseteq KeySet
                            /\ \A k \in Keys(m[s]) : Len(m[s][k]) >= 1 /\ (~Multi => Len(m[s][k]) = 1)
\* the order of iteration: each key after the keys before it; backward is the reverse by keys
Ordered == \A s \in {0, 1} : LET f == InOrder(Keys(m[s]), FALSE) b == InOrder(Keys(m[s]), TRUE) IN
             /\ \A i, j \in 1..Len(f) : i < j => Before(f[i], f[j])
             /\ Len(f) = Len(b) /\ \A i \in 1..Len(f) : f[i] = b[Len(f) + 1 - i]
             /\ Len(Content(m[s], FALSE)) = Size(m[s])
\* seek splits the container
SeekSplits == \A s \in {0, 1}, k \in KeySet :
             Len(From(m[s], k, FALSE)) + Len(From(m[s], k, TRUE)) = Size(m[s]) + (IF k \in Keys(m[s]) THEN Len(m[s][k]) ELSE 0)
EraseOne == \A s \in {0, 1}, k \in KeySet, b \in BOOLEAN, n \in 0..2 :
             Size(EraseAt(m[s], k, b, n)) = Size(m[s]) - (IF Len(From(m[s], k, b)) > n THEN 1 ELSE 0)
CompareLaws == /\ Compare(m[0], m[1]) = 0 - Compare(m[1], m[0])
               /\ (Compare(m[0], m[1]) = 0) = (Keys(m[0]) = Keys(m[1]))
UnionLaws == /\ Minus(Union(m[0], m[1]), m[1]) = Minus(m[0], m[1])
             /\ Keys(Union(m[0], m[1])) = Keys(m[0]) \cup Keys(m[1])
=============================================================================
