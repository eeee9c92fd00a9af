------------------------------ MODULE HeapTrace ------------------------------
EXTENDS Heap, TraceBase
\* kind heap: b[0] the heap, b[1] the items of the array which are not in it
VARIABLES b
TInit == TBInit /\ b = [s \in {0, 1} |-> Nil] /\ bag = Nil /\ arr = <<>> /\ tagc = 0 /\ taken = 0
S == E.s
O == 1 - E.s
BestOf(s, v) == Best(b[s], v, Cfg.rev)
Rest == Bag(E.rest)
RECURSIVE SortedBag(_, _)
SortedBag(w, bb) == IF w = <<>> THEN bb = Nil ELSE Best(bb, Head(w), Cfg.rev) /\ SortedBag(Tail(w), Del(bb, Head(w)))
Union(p, q) == [v \in DOMAIN p \cup DOMAIN q |-> (IF v \in DOMAIN p THEN p[v] ELSE 0) + (IF v \in DOMAIN q THEN q[v] ELSE 0)]
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
Logged == Bag(E.heap) = b'[0] /\ Bag(E.rest) = b'[1] /\ E.size = Size(b'[0]) /\ E.size = Len(E.heap)
           /\ (E.heap # <<>> => Best(b'[0], E.heap[1], Cfg.rev))
HeapOp == 
  CASE E.op = "append" -> b' = [b EXCEPT ![1] = Put(@, E.v)] /\ Logged
    \* takes the next item of the array
    [] E.op = "push" -> /\ E.r
                        /\ \E w \in DOMAIN Put(b[1], E.v) : b' = [s \in {0, 1} |-> IF s = 0 THEN Put(b[0], w) ELSE Del(Put(b[1], E.v), w)]
                        /\ Logged
    [] E.op = "pop" -> /\ E.r = (b[0] # Nil)
                       /\ IF b[0] = Nil THEN b' = b ELSE BestOf(0, E.v) /\ b' = [s \in {0, 1} |-> IF s = 0 THEN Del(b[0], E.v) ELSE Put(b[1], E.v)]
                       /\ Logged
    [] E.op = "popat" -> /\ E.r = (E.at < Size(b[0]))
                         /\ IF ~E.r THEN b' = b ELSE Has(b[0], E.v) /\ b' = [s \in {0, 1} |-> IF s = 0 THEN Del(b[0], E.v) ELSE Put(b[1], E.v)]
                         /\ Logged
    [] E.op = "top" -> BestOf(0, E.v) /\ b' = b /\ Logged
    [] E.op = "retop" -> BestOf(0, E.at) /\ b' = [b EXCEPT ![0] = Put(Del(@, E.at), E.v)] /\ Logged
    [] E.op = "better" -> E.r = (\A w \in DOMAIN b[0] : Better(E.v, w, Cfg.rev)) /\ b' = b /\ Logged
    [] E.op \in {"make", "remake"} -> b' = [s \in {0, 1} |-> IF s = 0 THEN Union(b[0], b[1]) ELSE Nil] /\ Logged
    \* ascending: the best is the last
    [] E.op = "sort" -> E.size = 0 /\ SortedBag(RevSeq(E.heap), Union(b[0], b[1])) /\ b' = [s \in {0, 1} |-> Nil]
    [] OTHER -> FALSE
Full == Cfg.cap > 0 /\ Size(b[S]) >= Cfg.cap
QueueOp == 
  /\ CASE E.op = "push" -> IF E.x = "" THEN ~Full /\ b' = [b EXCEPT ![S] = Put(@, E.v)] ELSE b' = b /\ (E.x = "boom" \/ (E.x = "limit" /\ Full))
       [] E.op = "pop" -> BestOf(S, E.r) /\ b' = [b EXCEPT ![S] = Del(@, E.r)]
       [] E.op = "top" -> BestOf(S, E.r) /\ b' = b
       [] E.op \in {"copy", "assign"} -> b' = [b EXCEPT ![O] = b[S]]
       [] E.op = "selfassign" -> b' = b
       [] E.op = "clear" -> b' = [b EXCEPT ![S] = Nil]
       [] E.op = "drain" -> SortedBag(E.w, b[S]) /\ b' = [b EXCEPT ![S] = Nil]
       [] OTHER -> FALSE
  /\ E.n0 = Size(b'[S]) /\ E.n1 = Size(b'[O]) /\ E.e0 = (E.n0 = 0)
\* the filter keeps one more item than its buffer can hold; while it does it needs no other one
FilterOp == 
  LET Lim == IF Cfg.cap = 0 THEN 9999 ELSE Cfg.cap + 1 IN
  /\ CASE E.op = "in" -> IF Size(b[S]) >= Lim THEN E.x = "nospace" /\ b' = b ELSE E.x = "" /\ b' = [b EXCEPT ![S] = Put(@, E.v)]
       \* the sorter gives the best one first
       [] E.op = "out" -> IF b[S] = Nil THEN E.x = "nomore" /\ b' = b ELSE E.x = "" /\ BestOf(S, E.r) /\ b' = [b EXCEPT ![S] = Del(@, E.r)]
       [] E.op \in {"copy", "assign"} -> b' = [b EXCEPT ![O] = b[S]]
       [] E.op = "selfassign" -> b' = b
       [] E.op = "clear" -> b' = [b EXCEPT ![S] = Nil]
       [] E.op = "drain" -> SortedBag(E.w, b[S]) /\ b' = [b EXCEPT ![S] = Nil]
       [] OTHER -> FALSE
  /\ E.need = (Size(b'[S]) < Lim) /\ E.has = (b'[S] # Nil) /\ E.has1 = (b'[O] # Nil)
Do == CASE E.e = "op" -> CASE Cfg.kind = "heap" -> HeapOp [] Cfg.kind = "queue" -> QueueOp [] OTHER -> FilterOp
        [] E.e = "end" -> E.live = 0 /\ E.bad = 0 /\ b' = b
        [] OTHER -> FALSE
TNext == More /\ Do /\ UNCHANGED vars /\ Step
TSpec == TInit /\ [][TNext]_<<b, vars, tvars>>
=============================================================================
