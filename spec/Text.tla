-------------------------------- MODULE Text --------------------------------
(* Patterns which say how a text is written and how it is read, and numbers as texts.
   Characters are numbers, texts are sequences of them. *)
EXTENDS Integers, Sequences, FiniteSets

Inf == 1000000000
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Rep(x, n) == [i \in 1..n |-> x]
Range(s) == {s[i] : i \in 1..Len(s)}
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) = 0 THEN Strip(Tail(s)) ELSE s

(* numbers.  A magnitude is a sequence of bytes, the highest first: it may be above the integers of TLC *)
RECURSIVE DivMod(_, _, _, _, _)
DivMod(s, base, d, q, r) == IF s = <<>> THEN <<q, r>> ELSE LET c == r * base + Head(s) IN DivMod(Tail(s), base, d, Append(q, c \div d), c % d)
RECURSIVE Digs(_, _)
Digs(s, b) == IF s = <<>> THEN <<>> ELSE LET dm == DivMod(s, 256, b, <<>>, 0) IN Append(Digs(Strip(dm[1]), b), dm[2])
Digits(mag, b) == LET d == Digs(Strip(mag), b) IN IF d = <<>> THEN <<0>> ELSE d
Letter(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
Sign(neg) == IF neg THEN <<45>> ELSE <<>>
NumText(neg, mag, b, up) == LET d == Digits(mag, b) IN Sign(neg) \o [i \in 1..Len(d) |-> Letter(d[i], up)]
\* small numbers
RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n % 10)>>
DecW(n, w) == LET d == Dec(n) IN Rep(48, w - Len(d)) \o d
\* the number n / 2^m; ties are rounded to the even digit
RoundDiv(n, d) == LET q == n \div d r == n % d IN IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
Fixed(neg, n, m, p) == LET q == RoundDiv(n * Pow(10, p), Pow(2, m)) IN Sign(neg) \o Dec(q \div Pow(10, p)) \o (IF p = 0 THEN <<>> ELSE <<46>> \o DecW(q % Pow(10, p), p))
\* <<all digits with one before the point, exponent>>
Scaled(n, m, p) == IF n = 0 THEN <<0, 0>> ELSE
  LET AtLeast(e) == IF e >= 0 THEN n >= Pow(10, e) * Pow(2, m) ELSE n * Pow(10, -e) >= Pow(2, m)
      e == CHOOSE x \in -5..9 : AtLeast(x) /\ ~(x < 9 /\ AtLeast(x + 1))
      q == IF p >= e THEN RoundDiv(n * Pow(10, p - e), Pow(2, m)) ELSE RoundDiv(n, Pow(2, m) * Pow(10, e - p))
  IN IF q = Pow(10, p + 1) THEN <<Pow(10, p), e + 1>> ELSE <<q, e>>
Expo(e, c) == <<c, IF e < 0 THEN 45 ELSE 43>> \o DecW(Max(e, -e), 2)
Sci(neg, n, m, p) == LET s == Scaled(n, m, p) d == DecW(s[1], p + 1) IN Sign(neg) \o <<d[1]>> \o (IF p = 0 THEN <<>> ELSE <<46>> \o Tail(d)) \o Expo(s[2], 69)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Point(a, f) == a \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f)
\* the shorter of both, without zeroes at the end, p valid digits
General(neg, n, m, p) ==
  LET s == Scaled(n, m, p - 1) x == s[2] d == DecW(s[1], p) IN
  Sign(neg) \o (IF x < p /\ x >= -4 THEN (IF x >= 0 THEN Point(SubSeq(d, 1, x + 1), Trim(From(d, x + 2))) ELSE Point(<<48>>, Rep(48, -x - 1) \o Trim(d)))
                ELSE Point(<<d[1]>>, Trim(Tail(d))) \o Expo(x, 101))

\* text to number
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..90 THEN c - 55 ELSE IF c \in 97..122 THEN c - 87 ELSE 99
AllDigits(s, b) == s # <<>> /\ \A i \in 1..Len(s) : DigitVal(s[i]) < b
HasSign(s) == s # <<>> /\ s[1] \in {43, 45}
\* the whole text is a number of this kind
IsNumber(s, b, signed) == LET u == IF s # <<>> /\ (s[1] = 43 \/ (signed /\ s[1] = 45)) THEN Tail(s) ELSE s IN AllDigits(u, b)
Unsigned(s) == IF HasSign(s) THEN Tail(s) ELSE s
Vals(s) == [i \in 1..Len(s) |-> DigitVal(s[i])]
SameNumber(s, b, neg, mag) == LET v == Strip(Vals(Unsigned(s))) d == Digits(mag, b) IN
  (IF v = <<>> THEN d = <<0>> /\ ~neg ELSE v = d /\ neg = (s[1] = 45))
Prefix(s, T(_)) == IF \A i \in 1..Len(s) : T(s[i]) THEN Len(s) ELSE (CHOOSE i \in 1..Len(s) : ~T(s[i]) /\ \A j \in 1..(i - 1) : T(s[j])) - 1
IsDigit(c) == c \in 48..57
RECURSIVE Small(_)
Small(s) == IF s = <<>> THEN 0 ELSE Small(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
\* a real number: [ok, neg, d, x], it is d * 10^x
Real(s0) ==
  LET b == Prefix(s0, LAMBDA c : c \in {32, 9, 10, 13}) s == From(s0, b + 1)
      u == Unsigned(s) i == Prefix(u, IsDigit) r == From(u, i + 1) 
      f == IF r # <<>> /\ r[1] = 46 THEN Prefix(Tail(r), IsDigit) ELSE 0
      r2 == IF r # <<>> /\ r[1] = 46 THEN From(r, f + 2) ELSE r
      e == IF r2 # <<>> /\ r2[1] \in {69, 101} THEN Unsigned(Tail(r2)) ELSE <<>>
  IN [ok |-> i + f > 0 /\ (r2 = <<>> \/ (r2[1] \in {69, 101} /\ AllDigits(e, 10))), neg |-> s # <<>> /\ s[1] = 45,
      d |-> Small(SubSeq(u, 1, i) \o Trim(SubSeq(r, 2, f + 1))), x |-> (IF r2 = <<>> THEN 0 ELSE IF Len(r2) > 1 /\ r2[2] = 45 THEN -Small(e) ELSE Small(e)) - Len(Trim(SubSeq(r, 2, f + 1)))]

(* UTF-8, up to three bytes *)
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>> ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
ToNarrow(s) == Flat([i \in 1..Len(s) |-> Utf8(s[i])])
RECURSIVE ToWide(_)
ToWide(s) == IF s = <<>> THEN <<>> ELSE IF s[1] < 128 THEN <<s[1]>> \o ToWide(Tail(s)) ELSE IF s[1] < 224 THEN <<(s[1] % 32) * 64 + (s[2] % 64)>> \o ToWide(From(s, 3))
             ELSE <<(s[1] % 16) * 4096 + (s[2] % 64) * 64 + (s[3] % 64)>> \o ToWide(From(s, 4))

(* writing.  A pattern is a sequence of pieces: a character, an escaped percent sign or line end, an end
   of line, or the place of an argument, which may say how wide it is *)
FmtText(f) == IF f.w = 0 THEN <<>> ELSE <<123>> \o (IF f.sg = 0 THEN <<>> ELSE <<f.sg>>) \o (IF f.fill = 0 THEN <<>> ELSE <<f.fill>>) \o Dec(f.w) \o (IF f.post = 0 THEN <<>> ELSE <<f.post>>) \o <<125>>
PieceText(p) == CASE p.t = "lit" -> <<p.c>> [] p.t = "pct" -> <<37, 37>> [] p.t = "rawnl" -> <<37, 10>> [] p.t = "nl" -> <<10>> [] p.t = "lone" -> <<37>>
                  [] p.t = "arg" -> <<37>> \o FmtText(p.f) \o Dec(p.id) \o (IF p.pct THEN <<37>> ELSE <<>>)
PatternText(ps) == Flat([i \in 1..Len(ps) |-> PieceText(ps[i])])
\* at least the width, the sign apart from the fill when there is one
Wide(a, f) == 
  IF f.w = 0 THEN a ELSE
  LET force == f.sg = 43
      own == a # <<>> /\ (a[1] = 45 \/ (force /\ a[1] = 43))
      sign == IF own THEN <<a[1]>> ELSE IF force THEN <<43>> ELSE <<>>
      body == IF own THEN Tail(a) ELSE a
      fill == Rep(IF f.post # 0 THEN f.post ELSE IF f.fill # 0 THEN f.fill ELSE 32, Max(0, f.w - Len(sign) - Len(body)))
  IN IF f.sg = 0 /\ f.fill = 0 THEN sign \o body \o fill ELSE IF f.sg # 0 /\ f.fill # 0 THEN sign \o fill \o body ELSE fill \o sign \o body
Piece(p, args, nl) == CASE p.t = "lit" -> <<p.c>> [] p.t \in {"pct", "lone"} -> <<37>> [] p.t = "rawnl" -> <<10>> [] p.t = "nl" -> nl
                        [] p.t = "arg" -> Wide(IF p.id \in 1..Len(args) THEN args[p.id] ELSE <<>>, p.f)
\* without a pattern all arguments follow one another
Render(ps, args, nl) == IF ps = <<>> THEN Flat(args) ELSE Flat([i \in 1..Len(ps) |-> Piece(ps[i], args, nl)])
ArgText(a, wide) == CASE a.t = "txt" -> IF a.wide = wide THEN a.c ELSE IF wide THEN ToWide(a.c) ELSE ToNarrow(a.c)
                      [] a.t = "num" -> NumText(a.neg, a.mag, a.base, TRUE)
                      [] a.t = "real" -> IF a.sci THEN Sci(a.neg, a.n, a.m, a.p) ELSE Fixed(a.neg, a.n, a.m, a.p)

(* reading.  A pattern is a sequence of elements; a field is read by a sequence of items *)
RngText(i) == LET lo == IF i.lo < 0 THEN <<>> ELSE Dec(i.lo) hi == IF i.hi < 0 THEN <<>> ELSE IF i.hi = Inf THEN <<42>> ELSE Dec(i.hi) IN
  <<40>> \o (IF i.short # 0 THEN <<i.short>> ELSE lo \o (IF i.hi < 0 THEN <<>> ELSE <<44>> \o hi)) \o <<41>>
ClassText(i) == <<91>> \o (IF i.star THEN <<42>> ELSE <<>>) \o (IF i.neg THEN <<94>> ELSE <<>>) \o (IF i.esc THEN <<92>> ELSE <<>>)
                \o Flat([k \in 1..Len(i.set) |-> IF i.set[k][1] = i.set[k][2] THEN <<i.set[k][1]>> ELSE <<i.set[k][1], 45, i.set[k][2]>>]) \o <<93>>
ItemText(i) == CASE i.t = "rng" -> RngText(i) [] i.t = "star" -> <<42>> [] i.t = "cls" -> ClassText(i) [] i.t = "quo" -> <<i.mark, i.q, i.e>> [] i.t = "num" -> <<i.k>>
RECURSIVE ReadText(_)
ElemText(e) == CASE e.t = "lit" -> <<e.c>> [] e.t = "esc" -> <<37, e.c>> [] e.t = "rest" -> <<37>>
                 [] e.t = "fld" -> <<37>> \o Flat([i \in 1..Len(e.items) |-> ItemText(e.items[i])]) \o (IF e.id < 0 THEN <<37>> ELSE Dec(e.id) \o (IF e.pct THEN <<37>> ELSE <<>>))
                 [] e.t = "alt" -> <<37, 60>> \o ReadText(e.bs[1]) \o Flat([i \in 1..(Len(e.bs) - 1) |-> <<37, 124>> \o ReadText(e.bs[i + 1])]) \o <<37, 62>>
ReadText(es) == Flat([i \in 1..Len(es) |-> ElemText(es[i])])

Fold(c, ci) == IF ci /\ c \in 65..90 THEN c + 32 ELSE c
InClass(i, c, ci) == LET x == Fold(c, ci) IN (\E k \in 1..Len(i.set) : x \in Fold(i.set[k][1], ci)..Fold(i.set[k][2], ci)) # i.neg
Blank == {32, 9}
White == {32, 9, 10, 13, 8, 7}
IsBase(c, b) == DigitVal(c) < b
Word(c) == c = 95 \/ c \in 65..90 \/ c \in 97..122
\* how many characters a number takes, 0: it is none
NumLen(s, hi, plus, minus, b) ==
  LET g == IF s # <<>> /\ ((s[1] = 43 /\ plus) \/ (s[1] = 45 /\ minus)) THEN 1 ELSE 0
      d == Min(Prefix(From(s, g + 1), LAMBDA c : IsBase(c, b)), Max(0, hi - g)) IN IF d = 0 THEN 0 ELSE g + d
RealLen(s, hi) ==
  LET a == NumLen(s, hi, TRUE, TRUE, 10)
      dot == a > 0 /\ a < hi /\ Len(s) > a /\ s[a + 1] = 46
      f == IF dot THEN NumLen(From(s, a + 2), hi - a - 1, FALSE, FALSE, 10) ELSE 0
      b == IF dot THEN a + 1 + f ELSE a
      ex == b < hi /\ Len(s) > b /\ s[b + 1] \in {69, 101}
      x == IF ex THEN NumLen(From(s, b + 2), hi - b - 1, TRUE, TRUE, 10) ELSE 0
  IN IF a = 0 \/ (dot /\ f = 0) \/ (ex /\ x = 0) THEN 0 ELSE IF ex THEN b + 1 + x ELSE b
KindLen(k, s, hi) == CASE k = 100 -> NumLen(s, hi, TRUE, TRUE, 10) [] k = 117 -> NumLen(s, hi, TRUE, FALSE, 10) [] k = 120 -> NumLen(s, hi, TRUE, TRUE, 16) [] k = 111 -> NumLen(s, hi, TRUE, TRUE, 8)
                       [] k = 102 -> RealLen(s, hi) [] k = 105 -> IF s # <<>> /\ Word(s[1]) THEN Min(hi, Prefix(s, LAMBDA c : Word(c) \/ IsDigit(c))) ELSE 0
\* text between marks; a mark within it is doubled or follows the escape character: <<characters taken, text>>
RECURSIVE Quoted(_, _, _, _)
Quoted(s, q, e, ci) == IF s = <<>> THEN <<0, <<>>>> ELSE
  LET c == Fold(s[1], ci) 
      two == Len(s) > 1 /\ c = e /\ (q # e \/ Fold(s[2], ci) = q) 
      r == IF two THEN Quoted(From(s, 3), q, e, ci) ELSE Quoted(Tail(s), q, e, ci) IN
  IF two THEN <<r[1] + 2, <<s[2]>> \o r[2]>> ELSE IF c = q THEN <<1, <<>>>> ELSE IF c = e THEN <<1 + r[1], r[2]>> ELSE <<1 + r[1], <<s[1]>> \o r[2]>>

\* o: ws (what a space of the pattern takes), nl (the end of line), ci (capitals are not told)
Fail == [ok |-> FALSE, end |-> 0, f |-> {}]
Spaces(o) == IF o.ws = <<>> THEN Blank ELSE Range(o.ws)
Items(is) == IF \E k \in 1..Len(is) : is[k].t # "rng" THEN is ELSE Append(is, [t |-> "star"])
RECURSIVE Match(_, _, _, _, _), Field(_, _, _, _, _, _, _, _), First(_, _, _, _, _, _, _, _, _), Try(_, _, _, _, _, _)
\* es: what remains of the pattern, p: where the rest of the text s begins, fs: fields read so far
Match(es, s, p, fs, o) ==
  IF es = <<>> THEN (IF p > Len(s) THEN [ok |-> TRUE, end |-> p, f |-> fs] ELSE Fail) ELSE
  LET e == Head(es) r == Tail(es) here == p <= Len(s)
      Run(T(_), need) == LET n == Prefix(From(s, p), T) IN IF n < need THEN Fail ELSE Match(r, s, p + n, fs, o) IN
  CASE e.t = "rest" -> [ok |-> TRUE, end |-> p, f |-> fs]
    [] e.t = "esc" -> IF here /\ s[p] = e.c THEN Match(r, s, p + 1, fs, o) ELSE Fail
    [] e.t = "lit" /\ e.c = 32 -> Run(LAMBDA c : c \in Spaces(o), 0)
    [] e.t = "lit" /\ e.c = 95 -> Run(LAMBDA c : c \in Spaces(o), 1)
    [] e.t = "lit" /\ e.c = 9 -> Run(LAMBDA c : c \in Blank, 1)
    [] e.t = "lit" /\ e.c = 8 -> Run(LAMBDA c : c \in White, 1)
    [] e.t = "lit" /\ e.c = 10 -> IF SubSeq(s, p, Min(Len(s), p + Len(o.nl) - 1)) = o.nl THEN Match(r, s, p + Len(o.nl), fs, o) ELSE Fail
    [] e.t = "lit" /\ e.c \notin {32, 95, 9, 8, 10} -> IF here /\ Fold(s[p], o.ci) = Fold(e.c, o.ci) THEN Match(r, s, p + 1, fs, o) ELSE Fail
    [] e.t = "fld" -> Field(Items(e.items), e.id, r, s, p, p, [lo |-> 1, hi |-> Inf, acc |-> <<>>], <<fs, o>>)
    \* the alternatives in their order, then none of them
    [] e.t = "alt" -> Try(e.bs, r, s, p, fs, o)
Try(bs, r, s, p, fs, o) == IF bs = <<>> THEN Match(r, s, p, fs, o) ELSE LET m == Match(Head(bs) \o r, s, p, fs, o) IN IF m.ok THEN m ELSE Try(Tail(bs), r, s, p, fs, o)
Field(is, id, r, s, p, p0, st, c) ==
  LET fs == c[1] o == c[2] IN
  IF is = <<>> THEN Match(r, s, p, IF id <= 0 THEN fs ELSE fs \cup {<<id, st.acc>>}, o) ELSE
  LET i == Head(is) t == Tail(is)
      Take(n, x) == Field(t, id, r, s, p + n, p0, [st EXCEPT !.acc = @ \o x], c) IN
  CASE i.t = "rng" -> Field(t, id, r, s, p, p0, [st EXCEPT !.lo = IF i.lo < 0 THEN @ ELSE i.lo, !.hi = IF i.hi < 0 THEN @ ELSE i.hi], c)
    \* the least which lets the rest of the pattern match
    [] i.t = "star" -> First(st.lo, Min(st.hi, Len(s) - p + 1), t, id, r, s, p, st, c)
    [] i.t = "cls" -> LET n == Min(st.hi, Prefix(From(s, p), LAMBDA x : InClass(i, x, o.ci))) IN
                      IF n < st.lo THEN Fail ELSE IF i.star THEN First(st.lo, n, t, id, r, s, p, st, c) ELSE Take(n, SubSeq(s, p, p + n - 1))
    [] i.t = "quo" -> IF p > Len(s) \/ Fold(s[p], o.ci) # i.q THEN Fail ELSE LET q == Quoted(From(s, p + 1), i.q, i.e, o.ci) IN Take(1 + q[1], q[2])
    [] i.t = "num" -> LET n == KindLen(i.k, From(s, p), st.hi) IN IF n = 0 \/ n < st.lo THEN Fail ELSE Take(n, SubSeq(s, p, p + n - 1))
First(k, hi, t, id, r, s, p, st, c) == IF k > hi THEN Fail ELSE
  LET m == Field(t, id, r, s, p + k, p, [st EXCEPT !.acc = @ \o SubSeq(s, p, p + k - 1)], c) IN IF m.ok THEN m ELSE First(k + 1, hi, t, id, r, s, p, st, c)
Parse(es, s, o) == Match(es, s, 1, {}, o)
\* what the reader has to say about its fields: those which were read, and nothing in others
Fields(m, got) == /\ \A f \in m.f : \E k \in 1..Len(got) : got[k] = f
                  /\ \A k \in 1..Len(got) : got[k] \in m.f \/ (got[k][2] = <<>> /\ \A f \in m.f : f[1] # got[k][1])

\* the first line of a text: <<the line, characters taken with its end>>
Ends(s, k, nl) == k >= Len(nl) /\ SubSeq(s, k - Len(nl) + 1, k) = nl
Line(s, nl) == IF \E k \in 1..Len(s) : Ends(s, k, nl) THEN LET k == CHOOSE x \in 1..Len(s) : Ends(s, x, nl) /\ \A y \in 1..(x - 1) : ~Ends(s, y, nl) IN <<SubSeq(s, 1, k - Len(nl)), k>> ELSE <<s, Len(s)>>
=============================================================================
