---------------------------- MODULE OrdMapTrace ----------------------------
EXTENDS OrdMap, TraceBase
VARIABLE last   \* what the temporary container of an operator was seen to hold
vars == <<m, kind, desc, last>>
TInit == TBInit /\ m = [s \in {0, 1} |-> Empty] /\ kind = Cfg.kind /\ desc = Cfg.desc /\ last = Empty
O == 1 - E.s
C == m[E.s]
Id == m' = m
Seen(c) == /\ E.f = Content(c, FALSE) /\ E.r = Content(c, TRUE) /\ E.n = Size(c) /\ E.nk = Cardinality(Keys(c))
           /\ E.em = (Keys(c) = {}) /\ E.eq
           /\ MinNodes(E.dep) <= Cardinality(Keys(c))
\* the next event names the operator which made the temporary container seen here
MadeBy(n) == CASE n.e = "plus" -> Union(m[n.s], m[1 - n.s])
              [] n.e = "minus" -> Minus(m[n.s], m[1 - n.s])
              [] n.e = "plusitem" -> Put(m[n.s], n.k, n.v)
              [] n.e = "minusitem" -> Without(m[n.s], n.k)
\* turning round in the middle: n items forward from k, then back over them from the current one
Turned(c, k, n) == LET f == From(c, k, FALSE) IN
                   IF n >= Len(f) THEN f
                   ELSE SubSeq(f, 1, n) \o <<999999>> \o From(c, f[n + 1] \div 1000, TRUE)
HeadOr(s, d) == IF s = <<>> THEN <<d>> ELSE <<s[1]>>
Do == CASE E.e = "ins" -> /\ E.ex = (~Multi /\ E.k \in Keys(C))
                          /\ Insert(E.s, E.k, E.v)
                          /\ E.it = (IF kind = "mmap" \/ kind = "mset"
                                     THEN (IF E.k \in Keys(C) THEN <<Item(E.k, E.v)>> ELSE SubSeq(From(m'[E.s], E.k, FALSE), 1, 1)) \o Drop(From(m'[E.s], E.k, FALSE), Len(m'[E.s][E.k]))
                                     ELSE <<Item(E.k, m'[E.s][E.k][1])>>)
        [] E.e = "rep" -> Replace(E.s, E.k, E.v) /\ E.it = <<Item(E.k, E.v)>>
        [] E.e = "del" -> E.ok = (E.k \in Keys(C)) /\ Erase(E.s, E.k)
        [] E.e = "delat" -> /\ E.ok = (Len(From(C, E.k, E.bk)) > E.sk)
                            /\ EraseIter(E.s, E.k, E.bk, E.sk)
                            /\ E.it = Drop(From(C, E.k, E.bk), E.sk + 1)
        [] E.e = "find" -> Id /\ E.it = (IF E.k \in Keys(C) THEN Flat(C, <<E.k>>) ELSE <<>>)
        [] E.e = "seek" -> Id /\ E.ok = (E.k \in Keys(C)) /\ E.it = From(C, E.k, E.bk)
        [] E.e = "all" /\ E.s \in {0, 1} -> Id /\ Seen(C)
        [] E.e = "all" /\ E.s = 9 -> Id /\ l < Len(Ev) /\ Seen(MadeBy(Ev[l + 1]))
        [] E.e \in {"plus", "minus", "plusitem", "minusitem", "copy", "selfassign"} -> Id
        [] E.e = "clear" -> Clear(E.s)
        [] E.e = "assign" -> Assign(E.s, O)
        [] E.e = "swap" -> Swap(E.s, O)
        [] E.e = "pluseq" -> PlusEq(E.s, O)
        [] E.e = "minuseq" -> MinusEq(E.s, O)
        [] E.e = "pluseqitem" -> Insert(E.s, E.k, E.v)
        [] E.e = "minuseqitem" -> Erase(E.s, E.k)
        [] E.e = "cmp" -> Id /\ E.r = 10 + Compare(C, m[O])
        [] E.e = "each" -> LET f == Content(C, E.bk) IN
                           /\ Id /\ E.ok = (E.st > 0 /\ Len(f) >= E.st)
                           /\ E.it = (IF E.ok THEN SubSeq(f, 1, E.st) ELSE f)
        [] E.e = "index" -> Id /\ E.r = (IF E.k \in Keys(C) THEN C[E.k][1] + 1 ELSE 0)
        [] E.e = "touch" -> /\ Insert(E.s, E.k, IF E.v = 0 THEN 0 ELSE E.v - 1)
                            /\ E.r = m'[E.s][E.k][1]
        [] E.e = "turn" -> Id /\ E.it = Turned(C, E.k, E.m)
        [] E.e = "end" -> Id /\ E.live = 0 /\ E.bad = 0
        [] OTHER -> FALSE
TNext == More /\ Do /\ Step /\ UNCHANGED <<kind, desc, last>>
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
