---------------------------- MODULE LinearTrace ----------------------------
EXTENDS Linear, TraceBase
TInit == TBInit /\ q = [s \in Slots |-> <<>>]
S == E.s
O == 1 - E.s
C == q[S]
N == Len(C)
cap == Cfg.cap
Fits(n) == cap = 0 \/ n <= cap
Id == q' = q
Odd(v) == v % 2 = 1
Even(v) == v % 2 = 0
Res(x) == E.x = "" /\ E.r = x
Ok == E.x = ""
No(x) == E.x = x /\ Id
\* growing by n: done, or refused whole because it does not fit
Grow(n, a) == IF Fits(N + n) THEN Ok /\ a ELSE No("limit")

Deque == CASE E.op = "pushb" -> Grow(1, Insert(S, 0, <<E.v>>))
  [] E.op = "pushf" -> Grow(1, Insert(S, N, <<E.v>>))
  [] E.op = "boompushb" -> IF E.x = "" THEN Fits(N + 1) /\ Insert(S, 0, <<E.v>>) ELSE No("boom") \/ (~Fits(N + 1) /\ No("limit"))
  [] E.op = "boompushf" -> IF E.x = "" THEN Fits(N + 1) /\ Insert(S, N, <<E.v>>) ELSE No("boom") \/ (~Fits(N + 1) /\ No("limit"))
  [] E.op = "popb" -> IF N = 0 THEN No("empty") ELSE Ok /\ Erase(S, 0, 1)
  [] E.op = "popf" -> IF N = 0 THEN No("empty") ELSE Ok /\ Erase(S, N - 1, 1)
  [] E.op = "getb" -> IF N = 0 THEN No("empty") ELSE Res(C[1]) /\ Id
  [] E.op = "getf" -> IF N = 0 THEN No("empty") ELSE Res(C[N]) /\ Id
  [] E.op = "at" -> IF E.i >= N THEN No("range") ELSE Res(C[E.i + 1]) /\ Id
  [] E.op \in {"set", "mut"} -> IF E.i >= N THEN No("range") ELSE Ok /\ SetAt(S, E.i, E.v)
  [] E.op = "clear" -> Ok /\ Becomes(S, <<>>)
  [] E.op = "reserve" -> IF Fits(E.i) \/ E.i <= N THEN Ok /\ Id ELSE No("limit")
  [] E.op = "swap" -> Ok /\ Swap
  [] E.op = "copy" -> Ok /\ Copy(S, O)
  [] E.op = "drain" -> Ok /\ E.w = Rev(Drop(C, 1)) /\ Becomes(S, Take(C, Min(N, 1)))
  [] E.op = "iter" -> Ok /\ Id /\ E.w = (IF E.i = 1 THEN C ELSE Rev(C))
  [] OTHER -> FALSE

\* a stack: the top is the last item of the sequence; a queue: the first
Blind(top) == CASE E.op = "push" -> Ok /\ Insert(S, N, <<E.v>>)
  [] E.op = "pop" -> IF N = 0 THEN No("empty") ELSE Ok /\ Erase(S, top - 1, 1)
  [] E.op = "top" -> IF N = 0 THEN No("empty") ELSE Res(C[top]) /\ Id
  [] E.op = "len" -> Res(N) /\ Id
  [] E.op = "clear" -> Ok /\ Becomes(S, <<>>)
  [] E.op = "swap" -> Ok /\ Swap
  [] E.op = "copy" -> Ok /\ Copy(S, O)
  [] OTHER -> FALSE

List == CASE E.op = "add" -> Ok /\ Insert(S, N, <<E.v>>) /\ E.w = <<E.v>>
  [] E.op = "addit" -> Ok /\ Insert(S, N, <<E.v, E.v + 1>>) /\ E.w = <<E.v, E.v + 1>>
  [] E.op = "insfirst" -> Ok /\ Insert(S, 0, <<E.v>>) /\ E.w = q'[S]
  [] E.op = "insafter" -> IF E.i >= N THEN No("end")
                          ELSE /\ Ok
                               /\ IF E.n % 2 = 1 THEN Insert(S, E.i + 1, <<E.v>>) /\ E.w = <<E.v>> \o Drop(C, E.i + 1)
                                  ELSE Id /\ E.w = Drop(C, E.i + 1) \* inserted, and erased through the iterator returned
  [] E.op = "insbefore" -> IF E.i >= N THEN No("end")
                           ELSE /\ Ok
                                /\ CASE E.n = 1 -> Insert(S, E.i, <<E.v>>) /\ E.w = <<E.v>> \o Drop(C, E.i)
                                     [] E.n = 2 -> Id /\ E.w = Drop(C, E.i)   \* erased through the iterator returned
                                     \* erased through the iterator given, which still stands at its item
                                     [] OTHER -> Becomes(S, Splice(C, E.i, 1, <<E.v>>)) /\ E.w = Drop(C, E.i + 1)
  [] E.op = "eraseat" -> IF E.i >= N THEN E.r = 999999 /\ Id ELSE Ok /\ Erase(S, E.i, 1) /\ E.w = Drop(C, E.i + 1)
  [] E.op = "eraseadd" -> Ok /\ Id /\ E.w = <<>>
  [] E.op = "eraseall" -> Ok /\ Becomes(S, SelectSeq(C, Even))
  [] E.op = "erasefirst" -> Ok /\ Becomes(S, Drop(C, 1))
  [] E.op = "getfirst" -> IF N = 0 THEN No("end") ELSE Res(C[1]) /\ Id
  [] E.op = "getlast" -> IF N = 0 THEN No("end") ELSE Res(C[N]) /\ Id
  [] E.op = "clear" -> Ok /\ Becomes(S, <<>>)
  [] E.op = "copy" -> Ok /\ Copy(S, O)
  [] E.op = "assign" -> Ok /\ Copy(O, S)
  [] E.op = "selfassign" -> Ok /\ Id
  [] E.op = "swap" -> Ok /\ Swap
  [] E.op = "boomadd" -> No("boom")
  [] OTHER -> FALSE

Array == CASE E.op = "add" -> Grow(1, Insert(S, N, <<E.v>>))
  [] E.op = "addn" -> Grow(E.n, Insert(S, N, Rep(E.v, E.n)))
  [] E.op = "ins" -> IF E.i > N THEN No("range") ELSE Grow(1, Insert(S, E.i, <<E.v>>))
  [] E.op = "insn" -> IF E.i > N THEN No("range") ELSE Grow(E.n, Insert(S, E.i, Rep(E.v, E.n)))
  [] E.op = "insarr" -> IF E.i > N THEN No("range") ELSE Grow(Len(q[O]), Insert(S, E.i, q[O]))
  [] E.op = "erase" -> IF E.i > N THEN No("range") ELSE Ok /\ Erase(S, E.i, Min(1, N - E.i))
  [] E.op = "erasen" -> IF E.i > N THEN No("range") ELSE Ok /\ Erase(S, E.i, Min(E.n, N - E.i))
  [] E.op = "eraseit" -> IF E.i >= N THEN E.r = 999999 /\ Id ELSE Ok /\ Erase(S, E.i, 1)
  [] E.op = "trunc" -> Ok /\ Becomes(S, Take(C, N - Min(E.n, N)))
  [] E.op = "resize" -> IF Fits(E.i) THEN Ok /\ Resize(S, E.i, 0) ELSE No("limit")
  [] E.op = "resizev" -> IF Fits(E.i) THEN Ok /\ Resize(S, E.i, E.v) ELSE No("limit")
  [] E.op = "append" -> Grow(Len(q[O]), Insert(S, N, q[O]))
  [] E.op = "appendit" -> IF Fits(N + Len(q[O])) THEN Ok /\ Insert(S, N, q[O])
                          ELSE E.x = "limit" /\ Insert(S, N, Take(q[O], cap - N))
  [] E.op = "appendlim" -> LET k == Min(E.n, Len(q[O])) IN
                           IF Fits(N + k) THEN Ok /\ Insert(S, N, Take(q[O], k)) /\ E.w = Drop(q[O], k)
                           ELSE E.x = "limit" /\ Insert(S, N, Take(q[O], cap - N))
  [] E.op = "clear" -> Ok /\ Becomes(S, <<>>)
  [] E.op = "assign" -> Ok /\ Copy(O, S)
  [] E.op = "selfassign" -> Ok /\ Id
  [] E.op = "copy" -> Ok /\ Copy(S, O)
  [] E.op = "swap" -> Ok /\ Swap
  [] E.op = "reserve" -> IF Fits(E.i) THEN Ok /\ Id ELSE No("limit")
  [] E.op = "freeextra" -> Ok /\ Id
  [] E.op = "write" -> IF Fits(N + E.n) THEN /\ Ok /\ E.r = (IF Len(E.w) < E.n THEN 1 ELSE 0)
                                            /\ Len(E.w) = Min(E.n, E.i) /\ Insert(S, N, E.w)
                       ELSE No("limit")
  [] E.op = "insiter" -> IF E.i > N THEN No("range")
                         ELSE IF Fits(N + E.n) THEN /\ Ok /\ E.r = (IF Len(E.w) < E.n THEN 1 ELSE 0)
                                                    /\ Len(E.w) = Min(E.n, E.v % 4) /\ Insert(S, E.i, E.w)
                         ELSE No("limit")
  [] E.op = "at" -> IF E.i >= N THEN E.r = 999999 /\ Id ELSE Res(C[E.i + 1]) /\ Id
  [] E.op \in {"set", "mut"} -> IF E.i >= N THEN E.r = 999999 /\ Id ELSE Ok /\ SetAt(S, E.i, E.v)
  [] E.op = "boomadd" -> IF Fits(N + 1) THEN No("boom") ELSE No("limit")
  [] E.op = "boomins" -> IF ~Fits(N + 4) THEN No("limit") ELSE IF E.i > N THEN No("range") ELSE No("boom")
  [] OTHER -> FALSE

Do == CASE E.e = "op" -> /\ CASE Cfg.kind = "deque" -> Deque
                               [] Cfg.kind = "stack" -> Blind(N)
                               [] Cfg.kind = "queue" -> Blind(1)
                               [] Cfg.kind = "list" -> List
                               [] OTHER -> Array
                         /\ (~Cfg.blind) => E.c = q'[S] /\ E.d = q'[O]
        [] E.e = "end" -> Id /\ E.live = 0 /\ E.bad = 0
        [] OTHER -> FALSE
TNext == More /\ Do /\ Step
TSpec == TInit /\ [][TNext]_<<q, tvars>>
=============================================================================
