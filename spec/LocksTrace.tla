---------------------------- MODULE LocksTrace ----------------------------
EXTENDS Locks, TraceBase

TInit == Init /\ TBInit
rec == Cfg.rec
fifo == Cfg.fifo

TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, IF "dl" \in DOMAIN E THEN E.dl ELSE 0, IF "n" \in DOMAIN E THEN E.n ELSE 1) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res, IF "now" \in DOMAIN E THEN E.now ELSE 0, IF "n" \in DOMAIN E THEN E.n ELSE 0) /\ Step
TBlock == /\ More /\ E.e = "Block" /\ Block(E.t) /\ Step
TStuck == /\ More /\ E.e = "Stuck" /\ StuckOK(rec) /\ UNCHANGED lvars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t, rec, fifo) /\ Silent
TNext == TCall \/ TRet \/ TBlock \/ TStuck \/ TLin
TSpec == TInit /\ [][TNext]_<<lvars, tvars>>
=============================================================================
