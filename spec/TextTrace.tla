------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, TraceBase
\* a reader over a source which can be read once: what remains, what commit() would throw away, what was thrown away
VARIABLES rest, pend, cnt, nl, ws
v == <<rest, pend, cnt, nl, ws>>
TInit == TBInit /\ rest = <<>> /\ pend = 0 /\ cnt = 0 /\ nl = <<10>> /\ ws = <<>>
Opt(e) == [ws |-> e.ws, nl |-> e.nl, ci |-> e.ci]
Mine == [ws |-> ws, nl |-> nl, ci |-> FALSE]
Eat(n) == rest' = From(rest, n + 1) /\ cnt' = cnt + n /\ pend' = 0 /\ UNCHANGED <<nl, ws>>
Hold(n) == pend' = n /\ UNCHANGED <<rest, cnt, nl, ws>>
Rd == LET m == Parse(E.pat, rest, Mine) IN
      /\ ReadText(E.pat) = E.text /\ E.r = m.ok /\ (m.ok => Fields(m, E.f))
      /\ IF E.op = "peek" THEN Hold(IF m.ok THEN m.end - 1 ELSE 0) ELSE IF m.ok THEN Eat(m.end - 1) ELSE Hold(0)
In == CASE E.op \in {"read", "peek"} -> Rd
        [] E.op = "commit" -> Eat(pend)
        [] E.op = "get" -> IF rest = <<>> THEN E.x /\ Hold(pend) ELSE ~E.x /\ E.c = rest[1] /\ Eat(1)
        [] E.op = "look" -> (IF rest = <<>> THEN E.x ELSE ~E.x /\ E.c = rest[1]) /\ Hold(pend)
        [] E.op = "has" -> E.r = (rest # <<>>) /\ Hold(pend)
        [] E.op = "count" -> E.n = cnt /\ Hold(pend)
        [] E.op = "line" -> LET k == Line(rest, nl) IN E.r = (rest # <<>>) /\ E.y = k[1] /\ Eat(k[2])
        [] E.op = "peekline" -> LET k == Line(rest, nl) IN E.r = (rest # <<>>) /\ E.y = k[1] /\ Hold(k[2])
        \* the reader of lines
        [] E.op = "nextline" -> LET k == Line(rest, nl) IN IF rest = <<>> THEN E.x /\ Hold(0) ELSE ~E.x /\ E.y = k[1] /\ Eat(k[2])
        [] E.op = "lookline" -> LET k == Line(rest, nl) IN (IF rest = <<>> THEN E.x ELSE ~E.x /\ E.y = k[1]) /\ Hold(0)
Top == 2147483647
Fits(s, neg, n, m) == LET r == Real(s) a == IF r.x >= 0 THEN Pow(10, r.x) * Pow(2, m) ELSE Pow(2, m) b == IF r.x >= 0 THEN 1 ELSE Pow(10, -r.x) IN
  r.ok /\ (n = 0 \/ r.neg = neg) /\ m <= 12 /\ r.d <= Top \div a /\ n <= Top \div b /\ n * b = r.d * a
Prefix1(s, b, signed) == LET g == IF signed /\ HasSign(s) THEN 1 ELSE 0 IN <<g, Prefix(From(s, g + 1), LAMBDA c : IsBase(c, b))>>
Do == CASE E.e = "fmt" -> PatternText(E.pat) = E.text /\ E.out = Render(E.pat, [i \in 1..Len(E.args) |-> ArgText(E.args[i], E.wide)], E.nl)
        [] E.e = "tos" -> E.out = NumText(E.neg, E.mag, E.base, E.up) /\ E.z = 0
        [] E.e = "tor" -> E.z = 0 /\ E.out = (CASE E.st = "f" -> Fixed(E.neg, E.n, E.m, E.p) [] E.st = "E" -> Sci(E.neg, E.n, E.m, E.p) [] E.st = "g" -> General(E.neg, E.n, E.m, E.p))
        [] E.e = "parse" -> LET m == Parse(E.pat, E.src, Opt(E)) IN ReadText(E.pat) = E.text /\ E.r = m.ok /\ (m.ok => Fields(m, E.f))
        [] E.e = "conv" -> IF IsNumber(E.s, E.base, E.signed) THEN E.r /\ SameNumber(E.s, E.base, E.neg, E.mag) ELSE ~E.r
        [] E.e = "convr" -> IF Real(E.s).ok THEN E.r /\ Fits(E.s, E.neg, E.n, E.m) ELSE ~E.r
        [] E.e = "convc" -> IF Len(E.s) = 1 THEN E.r /\ E.c = E.s[1] ELSE ~E.r
        \* a number at the beginning of a text
        [] E.e = "iter" -> LET p == Prefix1(E.s, E.base, E.signed) IN
              E.r = (p[2] > 0) /\ (E.r => E.left = Len(E.s) - p[1] - p[2] /\ SameNumber(SubSeq(E.s, 1, p[1] + p[2]), E.base, E.neg, E.mag))
        [] OTHER -> FALSE
TNext == More /\ Step /\ CASE E.e = "open" -> rest' = E.src /\ nl' = E.nl /\ ws' = E.ws /\ pend' = 0 /\ cnt' = 0
                           [] E.e = "in" -> In
                           [] OTHER -> Do /\ UNCHANGED v
TSpec == TInit /\ [][TNext]_<<v, tvars>>
=============================================================================
