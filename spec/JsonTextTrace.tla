----------------------------- MODULE JsonTextTrace -----------------------------
EXTENDS JsonText, TraceBase
\* the values of the trace: numbers are given as text, members as they were listed
RECURSIVE Norm(_)
Norm(v) == CASE v.t = "num" -> LET r == Number(v.s, 1) IN r.v
             [] v.t = "arr" -> ArrV([i \in 1..Len(v.v) |-> Norm(v.v[i])])
             [] v.t = "obj" -> LET RECURSIVE F(_) F(n) == IF n = 0 THEN ObjV(<<>>, <<>>) ELSE Put(F(n - 1), v.k[n], Norm(v.v[n])) IN F(Len(v.v))
             [] v.t = "str" -> StrV(v.s)
             [] v.t = "bool" -> BoolV(v.b)
             [] OTHER -> NullV
\* the wide form of a string has the same characters; an integer says it is one and converts
RECURSIVE Views(_)
Views(v) == CASE v.t = "str" -> ("w" \in DOMAIN v => v.w = Points(v.s))
              [] v.t = "num" -> v.txt = v.s
              [] v.t \in {"arr", "obj"} -> \A i \in 1..Len(v.v) : Views(v.v[i])
              [] OTHER -> TRUE
TInit == TBInit /\ Init
Do == CASE E.e = "ser" -> LET r == Parse(E.y) IN r.st = "ok" /\ Same(r.v, Norm(E.v)) /\ (E.esc => \A i \in 1..Len(E.y) : E.y[i] \in 32..127)
        [] E.e = "parse" -> LET r == Parse(E.y) IN CASE r.st = "ok" -> E.ok /\ Same(Norm(E.v), r.v) /\ Views(E.v) [] r.st = "bad" -> ~E.ok [] OTHER -> TRUE
        \* one text after the other from the same stream
        [] E.e = "stream" -> E.ok /\ Len(E.vs) = E.n /\ \A i \in 1..E.n : Same(Norm(E.vs[i]), Parse(E.ys[i]).v)
        [] OTHER -> FALSE
TNext == More /\ Do /\ UNCHANGED vars /\ Step
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
