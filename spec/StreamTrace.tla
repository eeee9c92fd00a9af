---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, TraceBase
TInit == TBInit /\ Init /\ auto = Cfg.auto /\ caps = <<Cfg.cap, Cfg.cap1>>
Do == CASE E.e = "call" -> Call(E.op, E.b, E.n, E.w)
        [] E.e = "pull" -> Pull(E.n, E.y, E.rd)
        [] E.e = "pullerr" -> PullErr(E.rd)
        [] E.e = "push" -> Push(E.b, E.y, E.k)
        [] E.e = "tflush" -> TFlush(E.b)
        [] E.e = "tclose" -> TClose(E.b)
        [] E.e = "ret" -> Ret(E.r, E.y, E.x)
        [] E.e = "end" -> op.op = "none" /\ UNCHANGED svars
        [] OTHER -> FALSE
TNext == More /\ Do /\ Step
TSpec == TInit /\ [][TNext]_<<svars, tvars>>
=============================================================================
