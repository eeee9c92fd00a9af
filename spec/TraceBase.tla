----------------------------- MODULE TraceBase -----------------------------
(* Validation of many recorded traces in one run of TLC.  The file is ndjson,*)
(* one trace per line: [scn, cfg, ev].  Register i holds how far trace i got.*)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTr == Len(Traces)

VARIABLES tid, l
tvars == <<tid, l>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
E == Ev[l]
More == l <= Len(Ev)
Step == l' = l + 1 /\ UNCHANGED tid
Silent == UNCHANGED tvars
TBInit == tid \in 1..NTr /\ l = 1

ASSUME \A i \in 1..NTr : TLCSet(i, 0)
Finished == TLCGet(tid) = Len(Ev) + 1
\* remember the furthest position; a trace that was explained is left alone
Track == /\ IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE
         /\ (Finished => l = Len(Ev) + 1)
Report == JsonSerialize(IOEnv.OUT, [i \in 1..NTr |-> TLCGet(i)])
=============================================================================
