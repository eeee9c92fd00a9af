-------------------------------- MODULE TextM --------------------------------
(* A reader of a text which can be read once.  It reads by patterns, by lines and by characters, and it
   may look first.  What the patterns mean is told once more, as a relation without any order of trying,
   and the two have to agree on every short text. *)
EXTENDS Text
CONSTANTS Chars, MaxLen
NL == <<10>>
O == [ws |-> <<>>, nl |-> NL, ci |-> FALSE]
Fld(is, id) == [t |-> "fld", items |-> is, id |-> id, pct |-> TRUE]
Lit(c) == [t |-> "lit", c |-> c]
Star == [t |-> "star"]
Cls(neg, star, set) == [t |-> "cls", neg |-> neg, star |-> star, esc |-> FALSE, set |-> set]
Rng(lo, hi) == [t |-> "rng", lo |-> lo, hi |-> hi, short |-> 0]
Num(k) == [t |-> "num", k |-> k]
Rest == [t |-> "rest"]
Alt(bs) == [t |-> "alt", bs |-> bs]
A == <<<<97, 97>>>>
Pats == << <<Fld(<<Star>>, 1), Lit(44), Fld(<<Star>>, 2), Rest>>,                       \* "%*1%,%*2%%"
           <<Fld(<<Rng(0, Inf), Star>>, 1), Lit(44), Fld(<<Rng(0, Inf), Star>>, 2)>>,   \* the whole rest
           <<Fld(<<Cls(FALSE, FALSE, A)>>, 1), Rest>>,
           <<Fld(<<Rng(0, 2), Cls(TRUE, TRUE, A)>>, 1), Lit(97), Rest>>,
           <<Fld(<<Num(100)>>, 1), Alt(<< <<Lit(44), Fld(<<Num(100)>>, 2)>>, <<Lit(97)>> >>), Rest>>,
           <<Alt(<< <<Fld(<<Rng(1, 2), Star>>, 1)>>, <<Fld(<<Star>>, 2), Lit(44)>> >>), Lit(10), Rest>>,
           <<Lit(32), Fld(<<Rng(1, 1), Star, Rng(0, 1), Star>>, 1), Lit(8), Rest>> >>
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}

(* all outcomes: <<where it ends, fields>> *)
RECURSIVE AllI(_, _, _, _), AllE(_, _, _, _)
AllItem(i, s, p, st) ==   \* <<end, state of the field>>
  CASE i.t = "rng" -> {<<p, [st EXCEPT !.lo = i.lo, !.hi = i.hi]>>}
    [] i.t = "star" -> {<<q, [st EXCEPT !.acc = @ \o SubSeq(s, p, q - 1)]>> : q \in {x \in p..(Len(s) + 1) : x - p >= st.lo /\ x - p <= st.hi}}
    [] i.t = "cls" -> LET In(c) == (\E k \in 1..Len(i.set) : c \in i.set[k][1]..i.set[k][2]) # i.neg
                          Run(q) == \A k \in p..(q - 1) : In(s[k])
                          Full(q) == q > Len(s) \/ q - p = st.hi \/ ~In(s[q])
                      IN {<<q, [st EXCEPT !.acc = @ \o SubSeq(s, p, q - 1)]>> : q \in {x \in p..(Len(s) + 1) : x - p >= st.lo /\ x - p <= st.hi /\ Run(x) /\ (i.star \/ Full(x))}}
    [] i.t = "num" -> LET Is(q) == \E g \in 0..1 : (g = 1 => s[p] \in {43, 45}) /\ q > p + g /\ \A k \in (p + g)..(q - 1) : IsDigit(s[k])
                          c == {x \in (p + 1)..(Len(s) + 1) : Is(x)}
                      IN {<<q, [st EXCEPT !.acc = @ \o SubSeq(s, p, q - 1)]>> : q \in {x \in c : \A y \in c : y <= x}}
AllI(is, s, p, st) == IF is = <<>> THEN {<<p, st>>} ELSE UNION {AllI(Tail(is), s, x[1], x[2]) : x \in AllItem(Head(is), s, p, st)}
One(e, s, p) ==
  CASE e.t = "fld" -> {<<x[1], {<<e.id, x[2].acc>>}>> : x \in AllI(e.items, s, p, [lo |-> 1, hi |-> Inf, acc |-> <<>>])}
    [] e.t = "lit" /\ e.c = 32 -> {<<q, {}>> : q \in {x \in p..(Len(s) + 1) : (\A k \in p..(x - 1) : s[k] \in Blank) /\ (x > Len(s) \/ s[x] \notin Blank)}}
    [] e.t = "lit" /\ e.c = 8 -> {<<q, {}>> : q \in {x \in (p + 1)..(Len(s) + 1) : (\A k \in p..(x - 1) : s[k] \in White) /\ (x > Len(s) \/ s[x] \notin White)}}
    [] e.t = "lit" /\ e.c \notin {32, 8} -> IF p <= Len(s) /\ s[p] = e.c THEN {<<p + 1, {}>>} ELSE {}
    [] e.t = "alt" -> UNION {AllE(e.bs[k], s, p, {}) : k \in 1..Len(e.bs)} \cup {<<p, {}>>}
AllE(es, s, p, fs) == IF es = <<>> THEN {<<p, fs>>} ELSE UNION {AllE(Tail(es), s, x[1], fs \cup x[2]) : x \in One(Head(es), s, p)}
Outcomes(es, s) == IF es[Len(es)] = Rest THEN AllE(SubSeq(es, 1, Len(es) - 1), s, 1, {}) ELSE {x \in AllE(es, s, 1, {}) : x[1] > Len(s)}

VARIABLES src, rest, pend, cnt, got
v == <<src, rest, pend, cnt, got>>
Init == src \in Texts /\ rest = src /\ pend = 0 /\ cnt = 0 /\ got = <<>>
Eat(n) == rest' = From(rest, n + 1) /\ cnt' = cnt + n /\ pend' = 0
Hold(n) == pend' = n /\ UNCHANGED <<rest, cnt>>
Read(k) == LET m == Parse(Pats[k], rest, O) IN UNCHANGED src /\ got' = <<"p", k, rest, m>> /\ IF m.ok THEN Eat(m.end - 1) ELSE Hold(0)
Peek(k) == LET m == Parse(Pats[k], rest, O) IN UNCHANGED src /\ got' = <<"p", k, rest, m>> /\ Hold(IF m.ok THEN m.end - 1 ELSE 0)
Commit == UNCHANGED src /\ got' = <<>> /\ Eat(pend)
Get == rest # <<>> /\ UNCHANGED src /\ got' = <<"c", Head(rest)>> /\ Eat(1)
ReadLine == rest # <<>> /\ UNCHANGED src /\ LET k == Line(rest, NL) IN got' = <<"l", k[1]>> /\ Eat(k[2])
PeekLine == rest # <<>> /\ UNCHANGED src /\ LET k == Line(rest, NL) IN got' = <<"l", k[1]>> /\ Hold(k[2])
Next == (\E k \in 1..Len(Pats) : Read(k) \/ Peek(k)) \/ Commit \/ Get \/ ReadLine \/ PeekLine
Spec == Init /\ [][Next]_v

\* nothing is lost and nothing is read twice
Position == rest = From(src, cnt + 1) /\ pend \in 0..Len(rest)
\* it matches exactly when it can, and the outcome is one of those which are possible
Agree == got # <<>> /\ got[1] = "p" => LET all == Outcomes(Pats[got[2]], got[3]) m == got[4] IN m.ok = (all # {}) /\ (m.ok => <<m.end, m.f>> \in all)
\* of a field which may take anything, the least
Least == got # <<>> /\ got[1] = "p" /\ got[2] = 1 /\ got[4].ok => LET f1 == (CHOOSE f \in got[4].f : f[1] = 1)[2] IN \A k \in 2..Len(f1) : f1[k] # 44
LineIsLine == got # <<>> /\ got[1] = "l" => \A k \in 1..Len(got[2]) : got[2][k] # 10
Forward == [][cnt' >= cnt]_v
=============================================================================
