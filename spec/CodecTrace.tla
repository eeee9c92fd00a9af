------------------------------ MODULE CodecTrace ------------------------------
EXTENDS Codec, TraceBase
\* want: the whole output of the block, n: how much of it was given out
VARIABLES want, bad, n
TInit == TBInit /\ want = <<>> /\ bad = FALSE /\ n = 0 /\ kind = "" /\ inp = <<>> /\ outp = <<>> /\ closed = FALSE
NextAre(y) == n + Len(y) <= Len(want) /\ y = SubSeq(want, n + 1, n + Len(y)) /\ n' = n + Len(y) /\ UNCHANGED <<want, bad>>
Keeps == UNCHANGED <<want, bad, n>>
Do == CASE E.e = "block" -> want' = Result(E.kind, E.src) /\ bad' = Refused(E.kind, E.src) /\ n' = 0
        [] E.e = "out" -> E.peek /\ NextAre(E.y)
        \* a read of a block stops short only at the end
        [] E.e = "blk" -> E.k = Len(E.y) /\ NextAre(E.y) /\ (E.k = 0 => n = Len(want) /\ ~bad)
        [] E.e = "nomore" -> E.n > Len(want) - n /\ Keeps
        \* all items of a block are taken when it was asked for, unless the end mark was met
        [] E.e = "wrote" -> E.k \in 0..E.n /\ ((E.k = 0 \/ (E.all /\ E.k < E.n)) => n = Len(want)) /\ Keeps
        [] E.e = "refused" -> bad /\ Keeps
        [] E.e = "close" -> ~bad /\ n = Len(want) /\ Keeps
        [] OTHER -> FALSE
TNext == More /\ Do /\ UNCHANGED vars /\ Step
TSpec == TInit /\ [][TNext]_<<want, bad, n, vars, tvars>>
=============================================================================
