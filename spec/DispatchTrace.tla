-------------------------- MODULE DispatchTrace --------------------------
EXTENDS Dispatch, TraceBase
TInit == Init /\ TBInit
TCall == More /\ E.e = "call" /\ Call(E.t, E.op) /\ Step
TRet == More /\ E.e = "ret" /\ Ret(E.t, E.op, E.r) /\ Step
TPut == More /\ E.e = "put" /\ Put(E.t, E.a, IF E.k = "f" THEN "v" ELSE E.k, 0) /\ Step
TSch == More /\ E.e = "sch" /\ Put(E.t, E.a, "S", E.tm) /\ Step
TPuted == More /\ E.e = "puted" /\ Puted(E.t, E.a) /\ Step
TBegin == More /\ E.e = "begin" /\ Begin(E.t, E.a) /\ Step
TEnd == More /\ E.e = "end" /\ End(E.t, E.a) /\ Step
TVal == More /\ E.e = "val" /\ (kind[E.a] = "S" => E.now >= due[E.a]) /\ Val(E.t, E.a) /\ Step
TRej == More /\ E.e = "rej" /\ Rej(E.t, E.a) /\ Step
TExc == More /\ E.e = "exc" /\ Exc(E.t, E.a) /\ Step
TDel == More /\ E.e = "del" /\ Del(E.t, E.a) /\ Step
TQuiet == More /\ E.e = "quiet" /\ Quiet(E.now) /\ Step
TStuck == More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED dvars /\ Step
TLin == More /\ ((\E t \in Threads : Lin(t)) \/ Take \/ RejL \/ (\E a \in Acts : Queue(a))) /\ Silent
TTakeSch == More /\ (\E a \in sch : TakeSch(a, due[a])) /\ Silent
TQuitIn == More /\ E.e = "qin" /\ QuitIn(E.a) /\ Step
TNext == TCall \/ TRet \/ TPut \/ TSch \/ TPuted \/ TBegin \/ TEnd \/ TVal \/ TRej \/ TExc \/ TDel \/ TQuiet \/ TStuck \/ TLin \/ TTakeSch \/ TQuitIn
TSpec == TInit /\ [][TNext]_<<dvars, tvars>>
=============================================================================
