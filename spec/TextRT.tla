------------------------------- MODULE TextRT -------------------------------
(* What was written by a pattern is read back by a pattern: numbers in every base, with and without a
   width, real numbers, and texts between separators and between quotes *)
EXTENDS Text
CONSTANTS MaxNum, Bases, Widths
O == [ws |-> <<>>, nl |-> <<10>>, ci |-> FALSE]
NoF == [sg |-> 0, fill |-> 0, w |-> 0, post |-> 0]
Arg(f, id) == [t |-> "arg", id |-> id, pct |-> TRUE, f |-> f]
Fld(is, id) == [t |-> "fld", items |-> is, id |-> id, pct |-> TRUE]
Lit(c) == [t |-> "lit", c |-> c]
Mag(n) == <<n \div 256, n % 256>>
Texts == UNION {[1..n -> {97, 34, 92, 57}] : n \in 0..3}
RECURSIVE Quote(_)
Quote(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {34, 92} THEN <<92, s[1]>> ELSE <<s[1]>>) \o Quote(Tail(s))
VARIABLES val, out, back
v == <<val, out, back>>
Init == val = <<>> /\ out = <<>> /\ back = "none"
WriteInt == out = <<>> /\ \E n \in 0..MaxNum, neg \in BOOLEAN, b \in Bases, w \in Widths, t \in Texts :
   /\ (n = 0 => ~neg) /\ val' = <<"int", n, neg, b, t>> /\ back' = back
   /\ out' = Render(<<Arg([NoF EXCEPT !.w = w, !.sg = IF w = 0 THEN 0 ELSE 45, !.fill = IF w = 0 THEN 0 ELSE 48], 2), Lit(44), Lit(34), Arg(NoF, 1), Lit(34)>>, <<Quote(t), NumText(neg, Mag(n), b, TRUE)>>, O.nl)
WriteReal == out = <<>> /\ \E n \in 0..MaxNum, m \in 0..3, neg \in BOOLEAN, sci \in BOOLEAN :
   /\ (n = 0 => ~neg) /\ val' = <<"real", n, m, neg>> /\ back' = back
   /\ out' = Render(<<Arg(NoF, 1), Lit(44)>>, <<IF sci THEN Sci(neg, n, m, 6) ELSE Fixed(neg, n, m, 3)>>, O.nl)
Kind == IF val[1] = "real" THEN 102 ELSE 0
ReadInt == out # <<>> /\ back = "none" /\ val[1] = "int" /\ UNCHANGED <<val, out>> /\
   LET m == Parse(<<Fld(<<[t |-> "star"]>>, 1), Lit(44), Fld(<<[t |-> "quo", mark |-> 63, q |-> 34, e |-> 92]>>, 2)>>, out, O) IN
   back' = IF m.ok /\ \E f \in m.f : f = <<2, val[5]>> /\ \E g \in m.f : g[1] = 1 /\ SameNumber(g[2], val[4], val[3], Mag(val[2])) THEN "same" ELSE "other"
ReadReal == out # <<>> /\ back = "none" /\ val[1] = "real" /\ UNCHANGED <<val, out>> /\
   LET m == Parse(<<Fld(<<[t |-> "num", k |-> 102]>>, 1), Lit(44)>>, out, O) IN
   back' = IF m.ok /\ \E g \in m.f : LET r == Real(g[2]) IN r.ok /\ (val[2] = 0 \/ r.neg = val[4]) /\ (IF r.x >= 0 THEN val[2] = r.d * Pow(10, r.x) * Pow(2, val[3]) ELSE val[2] * Pow(10, -r.x) = r.d * Pow(2, val[3])) THEN "same" ELSE "other"
Next == WriteInt \/ WriteReal \/ ReadInt \/ ReadReal
Spec == Init /\ [][Next]_v
RoundTrip == back # "other"
Width == val # <<>> => Len(out) >= 1
=============================================================================
