--------------------------- MODULE ArrayExprTrace ---------------------------
EXTENDS ArrayExpr, TraceBase
TInit == TBInit /\ x = Cfg.x /\ y = Cfg.y /\ v = <<>> /\ d = 0 /\ last = ""
RECURSIVE Eval_(_)
Eval_(e) == CASE e.k = "x" -> x [] e.k = "y" -> y
  [] e.k = "mid" -> Mid(Eval_(e.a), e.p, e.q)
  [] e.k = "head" -> Head_(Eval_(e.a), e.p)
  [] e.k = "offset" -> Offset(Eval_(e.a), e.p)
  [] e.k = "tail" -> Tail_(Eval_(e.a), e.p)
  [] e.k = "roffset" -> ROffset(Eval_(e.a), e.p)
  [] e.k = "crop" -> Crop(Eval_(e.a), e.p, e.q)
  [] e.k = "trim" -> Trim(Eval_(e.a), RangeOf(e.b), e.d)
  [] e.k = "rev" -> Rev(Eval_(e.a))
  [] e.k = "rep" -> Rep(Eval_(e.a), e.p)
  [] e.k = "cat" -> Eval_(e.a) \o Eval_(e.b)
  [] OTHER -> Assert(FALSE, e)
\* where position i of the view lies: <<1, i>> in x, <<2, i>> in y
RECURSIVE Place(_, _)
Place(e, i) == CASE e.k = "x" -> <<1, i>> [] e.k = "y" -> <<2, i>>
  [] e.k = "mid" -> Place(e.a, e.p + i)
  [] e.k = "rev" -> Place(e.a, Len(Eval_(e.a)) - 1 - i)
  [] e.k = "cat" -> IF i < Len(Eval_(e.a)) THEN Place(e.a, i) ELSE Place(e.b, i - Len(Eval_(e.a)))
Al == 0..Cfg.alpha
P == Cfg.pats
NP == Len(P)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* one value per item / pattern and position, in the order of the harness
PerItem(f(_)) == [i \in 1..(Cfg.alpha + 1) |-> f(i - 1)]
PerItemP(f(_, _), L) == [k \in 1..((Cfg.alpha + 1) * (L + 2)) |-> f((k - 1) \div (L + 2), (k - 1) % (L + 2))]
PerPat(f(_)) == [i \in 1..NP |-> f(P[i])]
PerPatP(f(_, _), L) == [k \in 1..(NP * (L + 2)) |-> f(P[1 + ((k - 1) \div (L + 2))], (k - 1) % (L + 2))]
Part(s, f, c) == SubSeq(s, f + 1, Min(Len(s), f + c))
Counts(L) == IF E.full THEN [i \in 1..(L + 2) |-> i - 1] ELSE
             LET n == {c \in 0..(L + 1) : c < 3 \/ c % 2 = 0} IN [i \in 1..Cardinality(n) |-> CHOOSE c \in n : Cardinality({z \in n : z < c}) = i - 1]
Sub(s, L) == LET cs == Counts(L) K == Len(cs) IN [k \in 1..((L + 2) * K) |-> Part(s, (k - 1) \div K, cs[1 + ((k - 1) % K)])]
Stp(s, L) == [k \in 1..(L + 1) |-> IF k <= L THEN SubSeq(s, 1, k) \o <<-9>> ELSE s]
SeekOk(L, sk) == \A k \in 0..((Len(sk) \div 6) - 1) :
   LET b == sk[6 * k + 1] dir == sk[6 * k + 2] o == sk[6 * k + 3] cs == sk[6 * k + 4] r == sk[6 * k + 5] a == sk[6 * k + 6] IN
   CASE dir = 0 -> r = Min(o, L - b) /\ a = b + r /\ cs = (IF b < L THEN 1 ELSE 0)
     [] dir = 1 -> r = Min(o, b + 1) /\ a = b - r /\ cs = 1
     [] OTHER -> r = Min(o, L) /\ a = r /\ cs = 1
ViewBase(s, L) == E.len = L /\ E.empty = (L = 0) /\ E.at = s /\ E.each = s /\ (L > 0 => E.st = FALSE)
ViewFull(s, L) ==
  /\ E.sub = Sub(s, L) /\ E.stp = Stp(s, L)
  /\ E.f = PerItem(LAMBDA it : Find(s, it)) /\ E.l = PerItem(LAMBDA it : FindLast(s, it))
  /\ E.fp = PerItemP(LAMBDA it, p : FindP(s, it, p), L) /\ E.lp = PerItemP(LAMBDA it, p : FindLastP(s, it, p), L)
  /\ E.pf = PerPat(LAMBDA q : FindA(s, q)) /\ E.pl = PerPat(LAMBDA q : FindLastA(s, q)) /\ E.pl2 = E.pl
  /\ E.pfp = PerPatP(LAMBDA q, p : FindAP(s, q, p), L) /\ E.plp = PerPatP(LAMBDA q, p : FindLastAP(s, q, p), L)
  /\ E.po = PerPat(LAMBDA q : FindOne(s, q)) /\ E.pol = PerPat(LAMBDA q : FindLastOne(s, q))
  /\ E.pop = PerPatP(LAMBDA q, p : FindOneP(s, q, p), L) /\ E.polp = PerPatP(LAMBDA q, p : FindLastOneP(s, q, p), L)
  /\ E.cmp = Flat([i \in 1..NP |-> LET c == Cmp(s, P[i]) IN <<c, -c, Rel(c)>>])
  /\ E.rn = L /\ E.r = s /\ E.cp = s
  /\ E.sp = Flat([i \in 1..(Cfg.alpha + 1) |-> <<<<-1>>>> \o Split(s, i - 1)])
  /\ E.rest = [i \in 1..(Cfg.alpha + 1) |-> IF Find(s, i - 1) < 0 THEN <<-1>> ELSE Offset(s, Find(s, i - 1) + 1)]
  /\ E.fw = s /\ E.bk = Rev(s) /\ SeekOk(L, E.sk)
View == LET s == Eval_(E.x) L == Len(s) IN ViewBase(s, L) /\ (IF L > 20 THEN TRUE ELSE ViewFull(s, L)) /\ UNCHANGED <<x, y>>
Write == LET p == Place(E.x, E.i) IN
  /\ x' = (IF p[1] = 1 THEN [x EXCEPT ![p[2] + 1] = E.v] ELSE x)
  /\ y' = (IF p[1] = 2 THEN [y EXCEPT ![p[2] + 1] = E.v] ELSE y)
  /\ E.nx = x' /\ E.ny = y'
Rel2(c) == Rel(c)
Str == /\ E.mid = Mid(x, E.p, E.q) /\ E.head = Head_(x, E.p) /\ E.offset = Offset(x, E.p) /\ E.tail = Tail_(x, E.p)
       /\ E.crop = Crop(x, E.p \div 2, E.q \div 2) /\ E.trim = Trim(x, {0}, "both")
       /\ E.find = FindA(x, y) /\ E.findl = FindLast(x, 1) /\ E.oneof = FindOne(x, y)
       /\ E.rel = Rel(Cmp(x, y)) /\ E.lit = Rel(Cmp(x, <<0, 1>>))
       /\ E.split = Flat([i \in 1..Len(Split(x, 1)) |-> <<-1>> \o Split(x, 1)[i]])
       /\ UNCHANGED <<x, y>>
TNext == /\ More
         /\ CASE E.e = "view" -> View [] E.e = "write" -> Write [] E.e = "str" -> Str [] OTHER -> FALSE
         /\ UNCHANGED <<v, d, last>>
         /\ Step

TSpec == TInit /\ [][TNext]_<<x, y, v, d, last, tvars>>
=============================================================================
