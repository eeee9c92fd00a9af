------------------------------ MODULE MemFile ------------------------------
(* A file in memory with its own position, a reader and a writer of random    *)
(* access files with theirs.  Bytes between the old end and a write beyond it *)
(* are zeros.                                                                *)
EXTENDS Integers, Sequences
VARIABLES c, pos, rpos, wpos, app, shut, wshut, cap, fixed
fvars == <<c, pos, rpos, wpos, app, shut, wshut, cap, fixed>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
At(s, p, n) == SubSeq(s, p + 1, Min(p + n, Len(s)))
Size(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Put(s, p, w) == [i \in 1..Max(Len(s), p + Len(w)) |-> IF i > p /\ i <= p + Len(w) THEN w[i - p] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
Fits(n) == cap = 0 \/ n <= cap
Init == pos = 0 /\ app = FALSE /\ shut = FALSE /\ wshut = FALSE
Rest == UNCHANGED <<cap, fixed>>
Read(n, y) == y = At(c, pos, n) /\ pos' = pos + Len(y) /\ UNCHANGED <<c, rpos, wpos, app, shut, wshut>> /\ Rest
RdRead(n, y) == y = At(c, rpos, n) /\ rpos' = rpos + Len(y) /\ UNCHANGED <<c, pos, wpos, app, shut, wshut>> /\ Rest
WPos == IF app THEN Len(c) ELSE pos
Write(w, x) == /\ x = (IF shut \/ fixed THEN "nospace" ELSE IF Fits(WPos + Len(w)) THEN "" ELSE "limit")
               /\ IF x = "" THEN c' = Put(c, WPos, w) /\ pos' = (IF app THEN pos ELSE pos + Len(w)) ELSE UNCHANGED <<c, pos>>
               /\ UNCHANGED <<rpos, wpos, app, shut, wshut>> /\ Rest
RWrite(p, w, x) == /\ x = (IF Fits(p + Len(w)) THEN "" ELSE "limit") /\ c' = (IF x = "" THEN Put(c, p, w) ELSE c)
                   /\ UNCHANGED <<pos, rpos, wpos, app, shut, wshut>> /\ Rest
WrWrite(w, x) == /\ x = (IF wshut THEN "nospace" ELSE IF Fits(wpos + Len(w)) THEN "" ELSE "limit")
                 /\ IF x = "" THEN c' = Put(c, wpos, w) /\ wpos' = wpos + Len(w) ELSE UNCHANGED <<c, wpos>>
                 /\ UNCHANGED <<pos, rpos, app, shut, wshut>> /\ Rest
SetSize(n, x) == /\ x = (IF Fits(n) THEN "" ELSE "limit") /\ c' = (IF x = "" THEN Size(c, n) ELSE c) /\ UNCHANGED <<pos, rpos, wpos, app, shut, wshut>> /\ Rest
Set(p, r, w, a, s, ws) == pos' = p /\ rpos' = r /\ wpos' = w /\ app' = a /\ shut' = s /\ wshut' = ws /\ UNCHANGED c /\ Rest
Clear == c' = <<>> /\ pos' = 0 /\ UNCHANGED <<rpos, wpos, app, shut, wshut>> /\ Rest
\* ---- closed model
CONSTANTS Vals, MaxLen
MInit == Init /\ c = <<>> /\ rpos = 0 /\ wpos = 0 /\ cap \in {0, 2} /\ fixed = FALSE
Ws == {<<v>> : v \in Vals} \cup {<<v, w>> : v \in Vals, w \in Vals}
MRead == \E n \in 1..2 : Read(n, At(c, pos, n)) \/ RdRead(n, At(c, rpos, n))
MWrite == \E w \in Ws, x \in {"", "limit", "nospace"} : Write(w, x) \/ WrWrite(w, x) \/ \E p \in 0..2 : RWrite(p, w, x)
MSize == \E n \in 0..2, x \in {"", "limit"} : SetSize(n, x)
MSet == \E n \in 0..2 : Set(n, rpos, wpos, app, shut, wshut) \/ Set(pos, n, wpos, app, shut, wshut) \/ Set(pos, rpos, n, app, shut, wshut)
MMode == Set(pos, rpos, wpos, ~app, shut, wshut) \/ Set(pos, rpos, wpos, app, TRUE, wshut) \/ Set(pos, rpos, wpos, app, shut, TRUE)
Next == MRead \/ MWrite \/ MSize \/ MSet \/ MMode \/ Clear
Spec == MInit /\ [][Next]_fvars
Bounded == Len(c) <= MaxLen /\ pos <= MaxLen /\ wpos <= MaxLen
InLimit == cap > 0 => Len(c) <= cap
Shut == [][(shut /\ pos' > pos) => UNCHANGED c]_fvars
=============================================================================
