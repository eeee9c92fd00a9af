-------------------------------- MODULE Heap --------------------------------
(* Priority containers: two of them side by side.  An item is its priority times one      *)
(* hundred plus a tag; only the priority orders.  A container is a bag of items of which  *)
(* only a best one can be seen and taken.  The state also keeps an array representation   *)
(* (a binary heap), so that the refinement "root of the array = best of the bag" is       *)
(* checked for push, pop, removal from the middle and change of the root.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Prios, MaxLen
VARIABLES bag, arr, tagc, taken
Pr(v) == v \div 100
Bag(s) == [v \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = v})]
Put(b, v) == IF v \in DOMAIN b THEN [b EXCEPT ![v] = @ + 1] ELSE [w \in DOMAIN b \cup {v} |-> IF w = v THEN 1 ELSE b[w]]
Del(b, v) == IF b[v] > 1 THEN [b EXCEPT ![v] = @ - 1] ELSE [w \in DOMAIN b \ {v} |-> b[w]]
Has(b, v) == v \in DOMAIN b
RECURSIVE SumOver(_, _)
SumOver(b, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN b[v] + SumOver(b, S \ {v})
Size(b) == SumOver(b, DOMAIN b)
Nil == [v \in {} |-> 0]
\* v is one of the best items, rev: the lowest priority is the best
Better(a, c, rev) == IF rev THEN Pr(a) < Pr(c) ELSE Pr(a) > Pr(c)
Best(b, v, rev) == Has(b, v) /\ \A w \in DOMAIN b : ~Better(w, v, rev)
\* ---- the array
Swap_(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _)
Up(s, i) == IF i > 1 /\ Better(s[i], s[i \div 2], FALSE) THEN Up(Swap_(s, i, i \div 2), i \div 2) ELSE s
RECURSIVE Down(_, _)
Down(s, i) == LET l == 2 * i r == 2 * i + 1
                  c == IF r <= Len(s) /\ Better(s[r], s[l], FALSE) THEN r ELSE l IN
              IF l <= Len(s) /\ Better(s[c], s[i], FALSE) THEN Down(Swap_(s, i, c), c) ELSE s
Push(s, v) == Up(Append(s, v), Len(s) + 1)
\* the last item takes the place of the removed one and finds its own
Out(s, i) == LET n == Len(s) t == SubSeq(Swap_(s, i, n), 1, n - 1) IN
             IF i = n THEN t ELSE IF i > 1 /\ Better(t[i], t[i \div 2], FALSE) THEN Up(t, i) ELSE Down(t, i)
vars == <<bag, arr, tagc, taken>>
Init == bag = Nil /\ arr = <<>> /\ tagc = 0 /\ taken = 0
DoPush == \E p \in Prios : Len(arr) < MaxLen /\ LET v == p * 100 + tagc IN
             arr' = Push(arr, v) /\ bag' = Put(bag, v) /\ tagc' = (tagc + 1) % 2 /\ taken' = 0
DoPop == arr # <<>> /\ arr' = Out(arr, 1) /\ taken' = arr[1] /\ bag' = Del(bag, arr[1]) /\ UNCHANGED tagc
DoPopAt == \E i \in 2..Len(arr) : arr' = Out(arr, i) /\ bag' = Del(bag, arr[i]) /\ taken' = 0 /\ UNCHANGED tagc
DoRetop == arr # <<>> /\ \E p \in Prios : LET v == p * 100 + tagc IN
             arr' = Down([arr EXCEPT ![1] = v], 1) /\ bag' = Put(Del(bag, arr[1]), v) /\ tagc' = (tagc + 1) % 2 /\ taken' = 0
Next == DoPush \/ DoPop \/ DoPopAt \/ DoRetop
Spec == Init /\ [][Next]_vars
HeapShape == \A i \in 2..Len(arr) : ~Better(arr[i], arr[i \div 2], FALSE)
Same == bag = Bag(arr)
RootIsBest == arr # <<>> => Best(bag, arr[1], FALSE)
TakenWasBest == taken # 0 => \A v \in DOMAIN bag : ~Better(v, taken, FALSE)
=============================================================================
