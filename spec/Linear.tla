------------------------------- MODULE Linear -------------------------------
(* Containers which are finite sequences: Deque (index 0 is its back end),    *)
(* Stack, Queue, LinkedList and AutoArray, two of them side by side.  Every   *)
(* operation is a splice of one sequence; an operation refused leaves both    *)
(* sequences as they were.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Vals, MaxLen
VARIABLE q   \* [{0,1} -> Seq(value)]

Slots == {0, 1}
Min(a, b) == IF a < b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* replace del items behind the first at by ins
Splice(s, at, del, ins) == Take(s, at) \o ins \o Drop(s, at + del)
Rep(v, n) == [i \in 1..n |-> v]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Keep(s, Test(_)) == SelectSeq(s, Test)

Init == q = [s \in Slots |-> <<>>]
Becomes(s, x) == q' = [q EXCEPT ![s] = x]

\* the operations
Insert(s, at, ins) == at <= Len(q[s]) /\ Becomes(s, Splice(q[s], at, 0, ins))
Erase(s, at, n) == at + n <= Len(q[s]) /\ Becomes(s, Splice(q[s], at, n, <<>>))
SetAt(s, at, v) == at < Len(q[s]) /\ Becomes(s, Splice(q[s], at, 1, <<v>>))
Resize(s, n, v) == Becomes(s, IF n <= Len(q[s]) THEN Take(q[s], n) ELSE q[s] \o Rep(v, n - Len(q[s])))
Copy(s, d) == Becomes(d, q[s])
Swap == q' = [s \in Slots |-> q[1 - s]]

Next == \E s \in Slots :
          \/ \E at \in 0..MaxLen, v \in Vals, n \in 1..2 : Insert(s, at, Rep(v, n))
          \/ \E at \in 0..MaxLen : Insert(s, at, q[1 - s])
          \/ \E at \in 0..MaxLen, n \in 1..MaxLen : Erase(s, at, n)
          \/ \E at \in 0..MaxLen, v \in Vals : SetAt(s, at, v)
          \/ \E n \in 0..MaxLen, v \in Vals : Resize(s, n, v)
          \/ Copy(s, 1 - s)
          \/ Swap
Spec == Init /\ [][Next]_q
Bounded == \A s \in Slots : Len(q[s]) <= MaxLen
TypeOK == \A s \in Slots : q[s] \in Seq(Vals)
\* an insertion undone by an erasure, and the two ends of a deque, behave as they should
UndoLaw == \A s \in Slots : \A at \in 0..Len(q[s]) : \A v \in Vals : Splice(Splice(q[s], at, 0, <<v>>), at, 1, <<>>) = q[s]
EndsLaw == \A s \in Slots : Rev(Rev(q[s])) = q[s] /\ Take(q[s], 1) \o Drop(q[s], 1) = q[s]
\* whatever is done to one container, the other changes only in Swap or Copy
Apart == [][\A s \in Slots : q'[s] # q[s] /\ q'[1 - s] # q[1 - s] => q' = [x \in Slots |-> q[1 - x]]]_q
=============================================================================
