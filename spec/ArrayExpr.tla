------------------------------ MODULE ArrayExpr ------------------------------
(* Views over arrays.  A view denotes a sequence; the operators below give the meaning   *)
(* of every view constructor and of every read operation.  The state machine builds      *)
(* views over all small arrays step by step, the invariants state the laws the readers   *)
(* of a view rely on.  Positions are zero based, "no position" is -1.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Items, MaxLen, MaxDepth
VARIABLES x, y, v, d, last

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RangeOf(s) == {s[i] : i \in 1..Len(s)}
\* ---- view constructors
Mid(s, p, n) == IF p >= Len(s) THEN <<>> ELSE SubSeq(s, p + 1, Min(Len(s), p + n))
Head_(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Offset(s, p) == SubSeq(s, p + 1, Len(s))
Tail_(s, n) == SubSeq(s, Max(0, Len(s) - n) + 1, Len(s))
ROffset(s, n) == SubSeq(s, 1, Max(0, Len(s) - n))
Crop(s, l, r) == SubSeq(s, l + 1, Max(0, Len(s) - r))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
\* trimming removes the longest run of the given items at the end(s)
TrimLeft(s, set) == LET n == CHOOSE n \in 0..Len(s) : (\A i \in 1..n : s[i] \in set) /\ (n = Len(s) \/ s[n + 1] \notin set) IN SubSeq(s, n + 1, Len(s))
TrimRight(s, set) == Rev(TrimLeft(Rev(s), set))
Trim(s, set, dir) == CASE dir = "left" -> TrimLeft(s, set) [] dir = "right" -> TrimRight(s, set) [] OTHER -> TrimRight(TrimLeft(s, set), set)
\* ---- searching
Least(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Greatest(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
ItemAt(s, it) == {i \in 0..(Len(s) - 1) : s[i + 1] = it}
SetAt_(s, set) == {i \in 0..(Len(s) - 1) : s[i + 1] \in set}
\* occurrences of a non empty pattern
PatAt(s, q) == IF q = <<>> THEN {} ELSE {i \in 0..(Len(s) - Len(q)) : SubSeq(s, i + 1, i + Len(q)) = q}
From(S, p) == {i \in S : i >= p}
Find(s, it) == Least(ItemAt(s, it))
FindP(s, it, p) == Least(From(ItemAt(s, it), p))
FindLast(s, it) == Greatest(ItemAt(s, it))
FindLastP(s, it, p) == FindLast(Head_(s, p), it)
FindA(s, q) == Least(PatAt(s, q))
FindAP(s, q, p) == Least(From(PatAt(s, q), p))
FindLastA(s, q) == Greatest(PatAt(s, q))
FindLastAP(s, q, p) == FindLastA(Head_(s, p), q)
FindOne(s, q) == Least(SetAt_(s, RangeOf(q)))
FindOneP(s, q, p) == Least(From(SetAt_(s, RangeOf(q)), p))
FindLastOne(s, q) == Greatest(SetAt_(s, RangeOf(q)))
FindLastOneP(s, q, p) == FindLastOne(Head_(s, p), q)
\* ---- comparing: lexicographical
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
             ELSE IF b = <<>> THEN 1
             ELSE IF Head(a) < Head(b) THEN -1 ELSE IF Head(a) > Head(b) THEN 1 ELSE Cmp(Tail(a), Tail(b))
Rel(c) == (IF c = 0 THEN 1 ELSE 2) + (IF c < 0 THEN 4 ELSE 0) + (IF c <= 0 THEN 8 ELSE 0) + (IF c > 0 THEN 16 ELSE 0) + (IF c >= 0 THEN 32 ELSE 0)
\* ---- splitting: the parts between the separators, one more than there are separators
RECURSIVE Split(_, _)
Split(s, it) == LET p == Find(s, it) IN IF p < 0 THEN <<s>> ELSE <<Head_(s, p)>> \o Split(Offset(s, p + 1), it)
RECURSIVE Join(_, _)
Join(ps, it) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<it>> \o Join(Tail(ps), it)

----------------------------------------------------------------------------
Seqs(n) == UNION {[1..k -> Items] : k \in 0..n}
vars == <<x, y, v, d, last>>
Init == x \in Seqs(MaxLen) /\ y \in Seqs(2) /\ v = x /\ d = 0 /\ last = "x"
Grow(w, name) == d < MaxDepth /\ v' = w /\ d' = d + 1 /\ last' = name /\ UNCHANGED <<x, y>>
AMid == \E p \in 0..Len(v) + 1, n \in 0..Len(v) + 1 : Grow(Mid(v, p, n), "mid")
ACrop == \E p \in 0..Len(v) + 1, n \in 0..Len(v) + 1 : Grow(Crop(v, p, n), "crop")
AEnds == \E p \in 0..Len(v) + 1 : \E w \in {Head_(v, p), Offset(v, p), Tail_(v, p), ROffset(v, p)} : Grow(w, "end")
ARev == Grow(Rev(v), "rev")
ACat == \E w \in {v \o y, y \o v} : Len(v) < 6 /\ Grow(w, "cat")
ARep == \E n \in 1..2 : Len(v) < 4 /\ Grow(Rep(v, n), "rep")
ATrim == \E it \in Items, dir \in {"left", "right", "both"} : Grow(Trim(v, {it}, dir), "trim")
Next == AMid \/ ACrop \/ AEnds \/ ARev \/ ACat \/ ARep \/ ATrim
Spec == Init /\ [][Next]_vars
\* ---- laws
EndsLaw == \A p \in 0..Len(v) + 1 : /\ Head_(v, p) \o Offset(v, p) = v /\ ROffset(v, p) \o Tail_(v, p) = v
                                      /\ Head_(v, p) = Mid(v, 0, p) /\ Crop(v, p, 0) = Offset(v, p) /\ Crop(v, 0, p) = ROffset(v, p)
MidLaw == \A p \in 0..Len(v) + 1, n \in 0..Len(v) + 1 : Mid(v, p, n) = Head_(Offset(v, p), n)
RevLaw == Rev(Rev(v)) = v /\ Rev(v \o y) = Rev(y) \o Rev(v)
FindLaw == \A it \in Items : /\ (FindLast(v, it) = IF Find(Rev(v), it) < 0 THEN -1 ELSE Len(v) - 1 - Find(Rev(v), it))
                             /\ \A p \in 0..Len(v) + 1 : FindP(v, it, p) = (IF Find(Offset(v, p), it) < 0 THEN -1 ELSE p + Find(Offset(v, p), it))
PatLaw == /\ FindLastA(v, y) = (IF FindA(Rev(v), Rev(y)) < 0 THEN -1 ELSE Len(v) - FindA(Rev(v), Rev(y)) - Len(y))
          /\ (FindA(v, y) >= 0 => Mid(v, FindA(v, y), Len(y)) = y)
          /\ (y # <<>> => FindA(v \o y, y) >= 0 /\ FindLastA(v \o y, y) = Len(v))
SplitLaw == \A it \in Items : /\ Join(Split(v, it), it) = v /\ \A i \in 1..Len(Split(v, it)) : it \notin RangeOf(Split(v, it)[i])
CmpLaw == /\ Cmp(v, y) = -Cmp(y, v) /\ (Cmp(v, y) = 0 <=> v = y) /\ (y # <<>> => Cmp(v, v \o y) = -1)
TrimLaw == \A it \in Items : LET w == Trim(v, {it}, "both") IN w = <<>> \/ (w[1] # it /\ w[Len(w)] # it)
=============================================================================
