-------------------------------- MODULE JsonText --------------------------------
(* JSON documents: the values, the text which stands for a value and the value a text
   stands for.  Bytes are numbers; a number is its significant digits and an exponent. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Depth, Wide
VARIABLES doc, text, esc, res
Keys == {<<>>, <<97>>, <<97, 98>>, <<195, 169>>}
vars == <<doc, text, esc, res>>

NullV == [t |-> "null"]
BoolV(b) == [t |-> "bool", b |-> b]
StrV(s) == [t |-> "str", s |-> s]
ArrV(v) == [t |-> "arr", v |-> v]
\* k: the names in the order of bytes, v: the values of them
ObjV(k, v) == [t |-> "obj", k |-> k, v |-> v]

RECURSIVE Lead(_)
Lead(d) == IF d # <<>> /\ Head(d) = 0 THEN Lead(Tail(d)) ELSE d
RECURSIVE Trail(_)
Trail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trail(SubSeq(d, 1, Len(d) - 1)) ELSE d
NumV(neg, digits, x) == LET a == Lead(digits) b == Trail(a) IN
  IF b = <<>> THEN [t |-> "num", neg |-> FALSE, d |-> <<>>, x |-> 0, plain |-> FALSE] ELSE [t |-> "num", neg |-> neg, d |-> b, x |-> x + Len(a) - Len(b), plain |-> FALSE]
\* integers which fit 64 bits are exact, other numbers to nine digits at least; exact if they have at most twelve
MaxInt(neg) == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, IF neg THEN 8 ELSE 7>>
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Fits(n) == n.plain /\ n.x >= 0 /\ (Len(n.d) + n.x < 19 \/ (Len(n.d) + n.x = 19 /\ ~Less(MaxInt(n.neg), n.d)))
RECURSIVE IntOf(_)
IntOf(d) == IF d = <<>> THEN 0 ELSE IntOf(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
Nine(n) == IntOf([i \in 1..9 |-> IF i <= Len(n.d) THEN n.d[i] ELSE 0])
SameNum(a, b) == /\ a.neg = b.neg /\ (a.d = <<>>) = (b.d = <<>>)
                 /\ IF a.d = <<>> \/ (Fits(a) /\ Fits(b)) \/ (Len(a.d) <= 12 /\ Len(b.d) <= 12) THEN a.d = b.d /\ a.x = b.x
                    ELSE IF Nine(a) = 999999999 \/ Nine(b) = 999999999 THEN TRUE ELSE Len(a.d) + a.x = Len(b.d) + b.x /\ Nine(a) - Nine(b) \in {0 - 1, 0, 1}
RECURSIVE Same(_, _)
Same(a, b) == /\ a.t = b.t
              /\ CASE a.t = "num" -> SameNum(a, b)
                   [] a.t = "arr" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
                   [] a.t = "obj" -> a.k = b.k /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
                   [] OTHER -> a = b

\* ---- characters
IsDigit(c) == c \in 48..57
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 16
IsWs(c) == c \in {32, 9, 10, 13}
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* the code points of a well formed string
RECURSIVE Points(_)
Points(s) == IF s = <<>> THEN <<>> ELSE LET c == Head(s)
     n == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
     R == [i \in 1..(n - 1) |-> s[i + 1] % 64]
     p == CASE n = 1 -> c [] n = 2 -> (c % 32) * 64 + R[1] [] n = 3 -> (c % 16) * 4096 + R[1] * 64 + R[2] [] OTHER -> (c % 8) * 262144 + R[1] * 4096 + R[2] * 64 + R[3]
  IN <<p>> \o Points(SubSeq(s, n + 1, Len(s)))

\* ---- reading.  st: "ok"; "bad" - no JSON text begins like this; "any" - nothing is promised
Ok(v, i) == [st |-> "ok", v |-> v, i |-> i]
Bad == [st |-> "bad", v |-> NullV, i |-> 0]
Open == [st |-> "any", v |-> NullV, i |-> 0]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 256          \* 256: the end
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF IsWs(At(s, i)) THEN SkipWs(s, i + 1) ELSE i
RECURSIVE Run(_, _)
Run(s, i) == IF At(s, i) \in 48..57 \cup {43, 45, 46, 69, 101} THEN Run(s, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(s, i) == IF IsDigit(At(s, i)) THEN Digits(s, i + 1) ELSE i
Vals(s, a, b) == [k \in 1..(b - a) |-> s[a + k - 1] - 48]
\* [-] digits [. digits] [e [+-] digits], no zeroes in front
Number(s, i) ==
  LET e == Run(s, i) neg == At(s, i) = 45 a == IF neg THEN i + 1 ELSE i b == Digits(s, a)
      dot == At(s, b) = 46 c == IF dot THEN b + 1 ELSE b d == IF dot THEN Digits(s, c) ELSE b
      ex == At(s, d) \in {69, 101} f == IF ex /\ At(s, d + 1) \in {43, 45} THEN d + 2 ELSE IF ex THEN d + 1 ELSE d g == IF ex THEN Digits(s, f) ELSE d
      xv == IF ~ex THEN 0 ELSE LET n == IntOf(Lead(Vals(s, f, g))) IN IF At(s, d + 1) = 45 THEN 0 - n ELSE n
      good == g = e /\ b > a /\ (At(s, a) = 48 => b = a + 1) /\ (dot => d > c) /\ (ex => g > f)
  IN IF ~good THEN [Open EXCEPT !.i = e]
     ELSE IF g - f > 4 \/ xv + b - a \notin (0 - 290)..290 THEN Open
     ELSE IF At(s, e) \in {256, 44, 93, 125, 32, 9, 10, 13} THEN Ok([NumV(neg, Vals(s, a, b) \o Vals(s, c, d), xv - (d - c)) EXCEPT !.plain = (e = b)], e) ELSE Bad
Hex4(s, i) == IF i + 3 > Len(s) \/ \E k \in 0..3 : HexVal(s[i + k]) = 16 THEN 0 - 1 ELSE HexVal(s[i]) * 4096 + HexVal(s[i + 1]) * 256 + HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])
RECURSIVE StringAt(_, _, _, _)
StringAt(s, i, acc, sure) ==
  LET c == At(s, i) n == At(s, i + 1) Go(b, k) == StringAt(s, i + k, acc \o b, sure) IN
  IF c = 256 THEN Bad
  ELSE IF c = 34 THEN IF sure THEN Ok(StrV(acc), i + 1) ELSE [Open EXCEPT !.i = i + 1]
  ELSE IF c < 32 THEN StringAt(s, i + 1, acc, FALSE)
  ELSE IF c # 92 THEN Go(<<c>>, 1)
  ELSE CASE n \in {34, 92, 47} -> Go(<<n>>, 2) [] n = 98 -> Go(<<8>>, 2) [] n = 102 -> Go(<<12>>, 2) [] n = 110 -> Go(<<10>>, 2) [] n = 114 -> Go(<<13>>, 2) [] n = 116 -> Go(<<9>>, 2)
         [] n = 117 -> LET h == Hex4(s, i + 2) l == IF At(s, i + 6) = 92 /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE 0 IN
                       IF h < 0 THEN Bad
                       ELSE IF h \notin 55296..57343 THEN Go(Utf8(h), 6)
                       ELSE IF h < 56320 /\ l \in 56320..57343 THEN Go(Utf8(65536 + (h - 55296) * 1024 + l - 56320), 12)
                       ELSE StringAt(s, i + 6, acc, FALSE)
         [] OTHER -> Bad
Word(s, i, w, v) == IF i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w THEN Ok(v, i + Len(w)) ELSE Bad
TrueW == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW == <<110, 117, 108, 108>>
\* inserts a member at its place
Put(o, k, v) == LET n == Cardinality({j \in 1..Len(o.k) : Less(o.k[j], k)}) IN
   ObjV(SubSeq(o.k, 1, n) \o <<k>> \o SubSeq(o.k, n + 1, Len(o.k)), SubSeq(o.v, 1, n) \o <<v>> \o SubSeq(o.v, n + 1, Len(o.v)))
HasKey(o, k) == \E j \in 1..Len(o.k) : o.k[j] = k
RECURSIVE ValueAt(_, _)
RECURSIVE ItemsAt(_, _, _)
RECURSIVE MembersAt(_, _, _)
ValueAt(s, j) ==
  LET i == SkipWs(s, j) c == At(s, i) IN
  CASE c = 34 -> StringAt(s, i + 1, <<>>, TRUE)
    [] c = 91 -> LET k == SkipWs(s, i + 1) IN IF At(s, k) = 93 THEN Ok(ArrV(<<>>), k + 1) ELSE ItemsAt(s, i + 1, <<>>)
    [] c = 123 -> LET k == SkipWs(s, i + 1) IN IF At(s, k) = 125 THEN Ok(ObjV(<<>>, <<>>), k + 1) ELSE MembersAt(s, i + 1, ObjV(<<>>, <<>>))
    [] c = 116 -> Word(s, i, TrueW, BoolV(TRUE)) [] c = 102 -> Word(s, i, FalseW, BoolV(FALSE)) [] c = 110 -> Word(s, i, NullW, NullV)
    [] c \in 48..57 \cup {45, 43, 46} -> Number(s, i)
    [] c < 32 -> Open
    [] OTHER -> Bad
ItemsAt(s, i, acc) == LET r == ValueAt(s, i) k == SkipWs(s, r.i) c == At(s, k) IN
  IF r.st # "ok" THEN r
  ELSE IF c = 44 THEN ItemsAt(s, k + 1, Append(acc, r.v)) ELSE IF c = 93 THEN Ok(ArrV(Append(acc, r.v)), k + 1) ELSE IF c < 32 THEN Open ELSE Bad
MembersAt(s, j, acc) == LET i == SkipWs(s, j) n == StringAt(s, i + 1, <<>>, TRUE) m == SkipWs(s, n.i) IN
  IF At(s, i) # 34 THEN IF At(s, i) < 32 THEN Open ELSE Bad
  ELSE IF n.st # "ok" THEN n
  ELSE IF At(s, m) # 58 THEN IF At(s, m) < 32 THEN Open ELSE Bad
  ELSE LET r == ValueAt(s, m + 1) k == SkipWs(s, r.i) c == At(s, k) IN
    IF r.st # "ok" THEN r
    ELSE IF HasKey(acc, n.v.s) THEN Open
    ELSE LET o == Put(acc, n.v.s, r.v) IN IF c = 44 THEN MembersAt(s, k + 1, o) ELSE IF c = 125 THEN Ok(o, k + 1) ELSE IF c < 32 THEN Open ELSE Bad
\* a text is one value; what follows it is not looked at by everybody
Parse(s) == LET r == ValueAt(s, 1) IN IF r.st = "ok" /\ SkipWs(s, r.i) <= Len(s) THEN Open ELSE r

\* ---- writing, in one of the possible ways
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
U4(c) == <<92, 117, HexD(c \div 4096), HexD((c \div 256) % 16), HexD((c \div 16) % 16), HexD(c % 16)>>
Char(c, e) == IF c = 34 \/ c = 92 THEN <<92, c>> ELSE IF c < 32 THEN U4(c) ELSE IF c < 128 \/ ~e THEN Utf8(c)
              ELSE IF c < 65536 THEN U4(c) ELSE U4(55296 + (c - 65536) \div 1024) \o U4(56320 + ((c - 65536) % 1024))
SerStr(s, e) == LET p == Points(s) IN <<34>> \o Flat([i \in 1..Len(p) |-> Char(p[i], e)]) \o <<34>>
SerNat(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<44>> \o Join(Tail(ss))
RECURSIVE Ser(_, _)
Ser(v, e) == CASE v.t = "null" -> NullW [] v.t = "bool" -> (IF v.b THEN TrueW ELSE FalseW) [] v.t = "str" -> SerStr(v.s, e)
  [] v.t = "num" -> IF v.d = <<>> THEN <<48>> ELSE (IF v.neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(v.d) |-> v.d[i] + 48] \o (IF v.x = 0 THEN <<>> ELSE <<101>> \o (IF v.x < 0 THEN <<45>> ELSE <<>>) \o SerNat(IF v.x < 0 THEN 0 - v.x ELSE v.x))
  [] v.t = "arr" -> <<91>> \o Join([i \in 1..Len(v.v) |-> Ser(v.v[i], e)]) \o <<93>>
  [] v.t = "obj" -> <<123>> \o Join([i \in 1..Len(v.v) |-> SerStr(v.k[i], e) \o <<58>> \o Ser(v.v[i], e)]) \o <<125>>

\* ---- the machine: a document is written, the text read back; cut or changed text
Chars == {97, 34, 92, 10, 233, 8364} \cup Wide
Strings == {<<>>} \cup {Utf8(c) : c \in Chars} \cup {Utf8(c) \o <<98>> : c \in Chars}
Leaves == {NullV, BoolV(TRUE), BoolV(FALSE)} \cup {StrV(s) : s \in Strings}
          \cup {NumV(n, d, x) : n \in BOOLEAN, d \in {<<>>, <<7>>, <<1, 0, 5>>}, x \in {0, 12, 0 - 3}}
RECURSIVE Docs(_)
Docs(n) == IF n = 0 THEN Leaves ELSE LET D == Docs(n - 1) S == IF n = 1 THEN {NullV, StrV(<<34>>), NumV(TRUE, <<7>>, 0)} ELSE {v \in D : v.t \in {"arr", "obj"} /\ Len(v.v) < 2 /\ \A i \in 1..Len(v.v) : v.v[i].t # "str"} IN
   D \cup {ArrV(<<>>), ObjV(<<>>, <<>>)} \cup {ArrV(<<a>>) : a \in D} \cup {ArrV(<<a, b>>) : a \in S, b \in S} \cup {ObjV(<<k>>, <<a>>) : k \in Keys, a \in D}
     \cup {ObjV(kk, <<a, b>>) : kk \in {q \in Keys \X Keys : Less(q[1], q[2])}, a \in S, b \in S}
Init == doc = NullV /\ text = <<>> /\ esc = FALSE /\ res = "none"
Write(v, e) == res = "none" /\ text = <<>> /\ doc' = v /\ esc' = e /\ text' = Ser(v, e) /\ UNCHANGED res
Read == res = "none" /\ text # <<>> /\ res' = (LET r == Parse(text) IN IF r.st = "ok" THEN IF Same(r.v, doc) THEN "same" ELSE "other" ELSE r.st) /\ UNCHANGED <<doc, text, esc>>
Cut == res = "same" /\ Len(text) > 1 /\ text' = SubSeq(text, 1, Len(text) - 1) /\ res' = (LET r == Parse(text') IN IF r.st = "ok" THEN "other" ELSE r.st) /\ UNCHANGED <<doc, esc>>
Next == (\E v \in Docs(Depth), e \in BOOLEAN : Write(v, e)) \/ Read \/ Cut
Spec == Init /\ [][Next]_vars
\* what was written reads back
RoundTrip == res = "none" \/ (text = Ser(doc, esc) => res = "same")
\* a text which was cut is refused, unless a number was cut
CutSeen == res = "other" => doc.t = "num"
Ascii == (esc /\ text # <<>>) => \A i \in 1..Len(text) : text[i] \in 32..126
=============================================================================
