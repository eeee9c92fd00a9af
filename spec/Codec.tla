-------------------------------- MODULE Codec --------------------------------
(* Encoders and decoders as functions of sequences, and a converter as a machine which is
   given the items one by one, hands out the items of the result and is closed in the end. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Items, MaxLen, Kinds
VARIABLES kind, inp, outp, closed
vars == <<kind, inp, outp, closed>>

Upper == [i \in 1..26 |-> 64 + i]
Lower == [i \in 1..26 |-> 96 + i]
Digit == [i \in 1..10 |-> 47 + i]
B64std == Upper \o Lower \o Digit \o <<43, 47>>
B64url == Upper \o Lower \o Digit \o <<45, 95>>
B32std == Upper \o <<50, 51, 52, 53, 54, 55>>
HexU == Digit \o <<65, 66, 67, 68, 69, 70>>
HexL == Digit \o <<97, 98, 99, 100, 101, 102>>
B85 == Digit \o Lower \o Upper \o <<46, 45, 58, 43, 61, 94, 33, 47, 42, 63, 38, 60, 62, 40, 41, 91, 93, 123, 125, 64, 37, 36, 35>>
IndexOf(tab, c) == (CHOOSE i \in 1..Len(tab) : tab[i] = c) - 1
Has(tab, c) == \E i \in 1..Len(tab) : tab[i] = c

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Rep(x, n) == [i \in 1..n |-> x]
Groups(s, n) == [g \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (g - 1) * n + 1, IF g * n < Len(s) THEN g * n ELSE Len(s))]
Each(s, F(_)) == Flat([i \in 1..Len(s) |-> F(s[i])])
\* a sequence of bits, the most significant first
BitsOf(x, n) == [i \in 1..n |-> (x \div Pow(2, n - i)) % 2]
RECURSIVE NumOf(_)
NumOf(bs) == IF bs = <<>> THEN 0 ELSE 2 * NumOf(SubSeq(bs, 1, Len(bs) - 1)) + bs[Len(bs)]
\* base 64 and 32: the bits of the group cut to pieces, the last filled up with zeroes
EncBits(s, tab, w, grp, pad) == 
  LET G(g) == LET b == Each(g, LAMBDA x : BitsOf(x, 8))
                  q == Groups(b, w)
                  d == [i \in 1..Len(q) |-> tab[1 + NumOf(q[i] \o Rep(0, w - Len(q[i])))]]
              IN IF pad = 0 THEN d ELSE d \o Rep(pad, (grp * 8) \div w - Len(d))
  IN Each(Groups(s, grp), G)
\* the rest of the bits which make no byte is dropped
DecBits(s, val(_), w, grp) == 
  LET G(g) == LET b == Each(g, LAMBDA x : BitsOf(val(x), w)) q == Groups(SubSeq(b, 1, (Len(b) \div 8) * 8), 8) IN [i \in 1..Len(q) |-> NumOf(q[i])]
  IN Each(Groups(s, grp), G)
Keep(s, T(_)) == SelectSeq(s, T)
Val64(c) == IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE IndexOf(B64std, c)
ToUpper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Val32(c) == IndexOf(B32std, ToUpper(c))
Val16(c) == IndexOf(HexU, ToUpper(c))
\* base 85: numbers of 32 bits do not fit the integers of TLC, they are divided by digits
RECURSIVE DivMod(_, _, _, _, _)
DivMod(s, base, d, q, r) == IF s = <<>> THEN <<q, r>> ELSE LET c == r * base + Head(s) IN DivMod(Tail(s), base, d, Append(q, c \div d), c % d)
RECURSIVE Convert(_, _, _, _)
Convert(s, from, to, n) == IF n = 0 THEN <<>> ELSE LET dm == DivMod(s, from, to, <<>>, 0) IN Append(Convert(dm[1], from, to, n - 1), dm[2])
Enc85(s) == LET G(g) == LET d == Convert(g \o Rep(0, 4 - Len(g)), 256, 85, 5) IN [i \in 1..(Len(g) + 1) |-> B85[d[i] + 1]] IN Each(Groups(s, 4), G)
Dec85(s) == LET G(g) == LET d == Convert([i \in 1..5 |-> IF i <= Len(g) THEN IndexOf(B85, g[i]) ELSE 84], 85, 256, 4) IN SubSeq(d, 1, Len(g) - 1)
            IN Each(Groups(Keep(s, LAMBDA c : c > 32), 5), G)
Plain(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 95 \/ c = 45
EncUrl(s) == Each(s, LAMBDA c : IF Plain(c) THEN <<c>> ELSE <<37, HexU[c \div 16 + 1], HexU[(c % 16) + 1]>>)
RECURSIVE DecUrl(_)
DecUrl(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = 37 THEN <<16 * Val16(s[2]) + Val16(s[3])>> \o DecUrl(SubSeq(s, 4, Len(s)))
             ELSE <<IF Head(s) = 43 THEN 32 ELSE Head(s)>> \o DecUrl(Tail(s))
\* UTF-8 in its original extent, the shortest form
Parts(c) == IF c < 128 THEN 0 ELSE IF c < 2048 THEN 1 ELSE IF c < 65536 THEN 2 ELSE IF c < 2097152 THEN 3 ELSE IF c < 67108864 THEN 4 ELSE 5
EncUtf(s) == Each(s, LAMBDA c : LET n == Parts(c) IN IF n = 0 THEN <<c>> ELSE 
                <<(256 - Pow(2, 7 - n)) + c \div Pow(64, n)>> \o [i \in 1..n |-> 128 + ((c \div Pow(64, n - i)) % 64)])
Lead(b) == IF b < 128 THEN 0 ELSE IF b < 192 THEN -1 ELSE IF b < 224 THEN 1 ELSE IF b < 240 THEN 2 ELSE IF b < 248 THEN 3 ELSE IF b < 252 THEN 4 ELSE IF b < 254 THEN 5 ELSE IF b < 255 THEN 6 ELSE -1
LeadBits(b) == LET n == Lead(b) IN IF n = 0 THEN b ELSE IF n = 6 THEN 0 ELSE b % Pow(2, 6 - n)
RECURSIVE Accum(_, _)
Accum(a, s) == IF s = <<>> THEN a ELSE Accum(a * 64 + (Head(s) % 64), Tail(s))
\* <<what is read, whether something is not right>>; no input ends within a character here
RECURSIVE DecUtf(_)
DecUtf(s) == IF s = <<>> THEN <<<<>>, FALSE>> ELSE
  LET n == Lead(Head(s)) IN
  IF n < 0 \/ Len(s) <= n \/ \E i \in 2..(n + 1) : s[i] \notin 128..191 THEN <<<<>>, TRUE>>
  ELSE LET r == DecUtf(SubSeq(s, n + 2, Len(s))) IN <<<<Accum(LeadBits(Head(s)), SubSeq(s, 2, n + 1))>> \o r[1], r[2]>>
EncW16(s, big) == Each(s, LAMBDA c : IF big THEN <<c \div 256, c % 256>> ELSE <<c % 256, c \div 256>>)
\* the mark FEFF sets the order of bytes and is not a part of the text
RECURSIVE DecW16(_, _)
DecW16(s, big) == IF Len(s) < 2 THEN <<>> ELSE
  IF s[1] = 254 /\ s[2] = 255 THEN DecW16(SubSeq(s, 3, Len(s)), TRUE) ELSE IF s[1] = 255 /\ s[2] = 254 THEN DecW16(SubSeq(s, 3, Len(s)), FALSE)
  ELSE <<IF big THEN s[1] * 256 + s[2] ELSE s[2] * 256 + s[1]>> \o DecW16(SubSeq(s, 3, Len(s)), big)

Result(k, s) == CASE k = "e64" -> EncBits(s, B64std, 6, 3, 61) [] k = "e64u" -> EncBits(s, B64url, 6, 3, 61)
                  [] k = "e64n" -> EncBits(s, B64std, 6, 3, 0) [] k = "e64un" -> EncBits(s, B64url, 6, 3, 0)
                  \* padding, line ends and spaces carry nothing
                  [] k = "d64" -> DecBits(Keep(s, LAMBDA c : c \notin {61, 46, 126, 32, 13, 10}), Val64, 6, 4)
                  [] k = "e32" -> EncBits(s, B32std, 5, 5, 61) [] k = "e32n" -> EncBits(s, B32std, 5, 5, 0)
                  [] k = "d32" -> DecBits(Keep(s, LAMBDA c : c # 61), Val32, 5, 8)
                  [] k = "e16" -> EncBits(s, HexU, 4, 1, 0) [] k = "e16l" -> EncBits(s, HexL, 4, 1, 0) [] k = "d16" -> DecBits(s, Val16, 4, 2)
                  [] k = "e85" -> Enc85(s) [] k = "d85" -> Dec85(s)
                  [] k = "eurl" -> EncUrl(s) [] k = "durl" -> DecUrl(s)
                  [] k = "eutf" -> EncUtf(s) [] k = "dutf" -> DecUtf(s)[1]
                  [] k = "ew16" -> EncW16(s, FALSE) [] k = "ew16b" -> EncW16(s, TRUE) [] k = "dw16" -> DecW16(s, FALSE) [] k = "dw16b" -> DecW16(s, TRUE)
Refused(k, s) == k = "dutf" /\ DecUtf(s)[2]
Inverse(k) == CASE k \in {"e64", "e64u", "e64n", "e64un"} -> "d64" [] k \in {"e32", "e32n"} -> "d32" [] k \in {"e16", "e16l"} -> "d16" [] k = "e85" -> "d85" [] k = "eurl" -> "durl" [] k = "eutf" -> "dutf" [] k = "ew16" -> "dw16" [] OTHER -> "dw16b"

(* the converter: an item may be given out as soon as no continuation can change it *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Sure(k, s) == CHOOSE n \in 0..Len(Result(k, s)) : 
                /\ \A x \in Items : IsPrefix(SubSeq(Result(k, s), 1, n), Result(k, Append(s, x)))
                /\ n = Len(Result(k, s)) \/ \E x \in Items : ~IsPrefix(SubSeq(Result(k, s), 1, n + 1), Result(k, Append(s, x)))
Init == kind \in Kinds /\ inp = <<>> /\ outp = <<>> /\ closed = FALSE
Give(x) == ~closed /\ Len(inp) < MaxLen /\ inp' = Append(inp, x) /\ UNCHANGED <<kind, outp, closed>>
Take == LET n == Len(outp) IN n < (IF closed THEN Len(Result(kind, inp)) ELSE Sure(kind, inp)) /\ outp' = Append(outp, Result(kind, inp)[n + 1]) /\ UNCHANGED <<kind, inp, closed>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<kind, inp, outp>>
GiveAny == \E x \in Items : Give(x)
Next == GiveAny \/ Take \/ Close
Spec == Init /\ [][Next]_vars

\* what was given out never has to be taken back
Stable == IsPrefix(outp, Result(kind, inp))
RoundTrip == closed /\ outp = Result(kind, inp) => Result(Inverse(kind), outp) = inp
\* different inputs have different encodings, the sizes are as usual
Lengths == LET n == Len(inp) m == Len(Result(kind, inp)) IN
  CASE kind \in {"e64", "e64u"} -> m = 4 * ((n + 2) \div 3) [] kind \in {"e64n", "e64un"} -> m = (8 * n + 5) \div 6 [] kind = "e32" -> m = 8 * ((n + 4) \div 5) [] kind = "e32n" -> m = (8 * n + 4) \div 5
    [] kind \in {"e16", "e16l"} -> m = 2 * n [] kind = "e85" -> m = n + (n + 3) \div 4 [] kind \in {"ew16", "ew16b"} -> m = 2 * n [] OTHER -> m >= n
\* only the characters of the alphabet and the padding
Alphabet == \A i \in 1..Len(outp) : 
  CASE kind \in {"e64", "e64n"} -> Has(B64std, outp[i]) \/ outp[i] = 61 [] kind \in {"e64u", "e64un"} -> Has(B64url, outp[i]) \/ outp[i] = 61 [] kind \in {"e32", "e32n"} -> Has(B32std, outp[i]) \/ outp[i] = 61
    [] kind = "e16" -> Has(HexU, outp[i]) [] kind = "e16l" -> Has(HexL, outp[i]) [] kind = "e85" -> Has(B85, outp[i]) [] kind = "eurl" -> Plain(outp[i]) \/ outp[i] = 37 [] OTHER -> outp[i] \in 0..255
=============================================================================
