----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, TraceBase
TInit == Init /\ TBInit
D(f) == IF f \in DOMAIN E THEN E[f] ELSE 0
\* who holds which nodes at the beginning, and what is in the list (first: the top)
TStart == /\ More /\ E.e = "init" /\ list' = E.list /\ hand' = [t \in Threads |-> IF t <= Len(E.hand) THEN Ran(E.hand[t]) ELSE {}] /\ UNCHANGED <<own, pend>> /\ Step
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, D("o")) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res) /\ Step
\* what is in the list at the end and in the lists of the threads
TEnd == /\ More /\ E.e = "end" /\ list = E.list /\ (\A t \in 1..Len(E.own) : own[t] = E.own[t]) /\ UNCHANGED svars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TEnd \/ TLin
TSpec == TInit /\ [][TNext]_<<svars, tvars>>
=============================================================================
