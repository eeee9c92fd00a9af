------------------------------ MODULE LzwTrace ------------------------------
EXTENDS Lzw, TraceBase
ByteBits(y) == [i \in 1..(8 * Len(y)) |-> (y[(i - 1) \div 8 + 1] \div Pow(7 - ((i - 1) % 8))) % 2]
RECURSIVE Feed(_, _)
Feed(e, s) == IF s = <<>> THEN e ELSE Feed(EncByte(Cfg.kind, Cfg.max, e, Head(s)), Tail(s))
RECURSIVE Eat(_, _)
Eat(d, s) == IF s = <<>> \/ d.bad THEN d ELSE Eat(DecTake(Cfg.kind, [d EXCEPT !.in = @ \o ByteBits(<<Head(s)>>)]), Tail(s))
Whole(o) == SubSeq(o, 1, 8 * (Len(o) \div 8))
Rest(o) == SubSeq(o, 8 * (Len(o) \div 8) + 1, Len(o))
TInit == TBInit /\ enc = Enc0 /\ dec = Dec0 /\ inp = <<>> /\ outp = <<>> /\ wire = <<>> /\ closed = FALSE
Quiet == UNCHANGED <<inp, outp, wire, closed>>
Do == CASE E.e = "c" -> LET e == Feed(enc, E.in) IN ByteBits(E.y) = Whole(e.out) /\ enc' = [e EXCEPT !.out = Rest(@)] /\ dec' = dec
        [] E.e = "cf" -> LET e == EncFlush(enc, 8) IN ByteBits(E.y) = e.out /\ enc' = Enc0 /\ dec' = dec
        [] E.e = "d" -> LET d == Eat(dec, E.in) IN ~d.bad /\ E.y = d.out /\ dec' = [d EXCEPT !.out = <<>>] /\ enc' = enc
        \* through the iterators, in pieces of any size
        [] E.e = "rt" -> E.y = E.src /\ UNCHANGED <<enc, dec>>
        [] OTHER -> FALSE
TNext == More /\ Do /\ Quiet /\ Step
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
