---------------------------- MODULE RefCntTrace ----------------------------
EXTENDS RefCnt, TraceBase
TInit == Init /\ TBInit
D(f) == IF f \in DOMAIN E THEN E[f] ELSE 0
TStart == /\ More /\ E.e = "init" /\ alive' = {1} /\ UNCHANGED <<killer, pend>> /\ Step
          /\ hold' = [t \in Threads \cup {0} |-> [s \in Slots |-> IF s = 0 /\ t <= E.n /\ (t > 0 \/ E.keep) THEN 1 ELSE 0]]
TCall == /\ More /\ E.e = "call" /\ Call(E.t, Rec(E.op, D("ft"), D("fs"), D("to"), D("o"))) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res) /\ Step
TDied == /\ More /\ E.e = "died" /\ Died(E.t, E.o) /\ Step
TLeft == /\ More /\ E.e = "left" /\ hold[E.t][E.s] = E.o /\ E.o \in alive /\ UNCHANGED rvars /\ Step
TEnd == /\ More /\ E.e = "end" /\ alive = {o \in Objs : Holders(hold, o) # {}} /\ UNCHANGED rvars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TDied \/ TLeft \/ TEnd \/ TLin
TSpec == TInit /\ [][TNext]_<<rvars, tvars>>
=============================================================================
