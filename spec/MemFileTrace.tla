---------------------------- MODULE MemFileTrace ----------------------------
EXTENDS MemFile, TraceBase
TInit == TBInit /\ Init /\ c = Cfg.text /\ rpos = 0 /\ wpos = 0 /\ cap = Cfg.cap /\ fixed = Cfg.fixed
Same == UNCHANGED fvars
Act == CASE E.op = "read" -> Read(E.n, E.y) /\ E.r = Len(E.y)
         [] E.op = "peek" -> E.y = At(c, pos, E.n) /\ Same
         [] E.op = "canread" -> E.r = (IF pos < Len(c) THEN 1 ELSE 0) /\ Same
         [] E.op = "rread" -> E.y = At(c, E.at, E.n) /\ Same
         [] E.op = "size" -> E.r = Len(c) /\ Same
         [] E.op = "setpos" -> Set(E.at, rpos, wpos, app, shut, wshut)
         [] E.op = "rdread" -> RdRead(E.n, E.y) /\ E.r = Len(E.y)
         [] E.op = "rdpeek" -> E.y = At(c, rpos, E.n) /\ Same
         [] E.op = "rdset" -> Set(pos, E.at, wpos, app, shut, wshut)
         [] E.op = "rdcan" -> E.r = (IF rpos < Len(c) THEN 1 ELSE 0) /\ Same
         [] E.op = "canwrite" -> E.r = (IF shut \/ fixed THEN 0 ELSE 1) /\ Same
         [] E.op = "write" -> Write(E.w, E.x) /\ (E.x = "" => E.r = Len(E.w))
         [] E.op = "rwrite" -> RWrite(E.at, E.w, E.x) /\ (E.x = "" => E.r = Len(E.w))
         [] E.op = "setsize" -> SetSize(E.at, E.x)
         [] E.op = "wrwrite" -> WrWrite(E.w, E.x) /\ (E.x = "" => E.r = Len(E.w))
         [] E.op = "wrset" -> Set(pos, rpos, E.at, app, shut, wshut)
         [] E.op = "wrcan" -> E.r = (IF wshut THEN 0 ELSE 1) /\ Same
         [] E.op = "append" -> E.n \in {0, 1} /\ Set(pos, rpos, wpos, E.n = 1, shut, wshut)
         [] E.op = "clear" -> Clear
         [] E.op = "close" -> Set(pos, rpos, wpos, app, TRUE, wshut)
         [] E.op = "wrclose" -> Set(pos, rpos, wpos, app, shut, TRUE)
         [] E.op = "nop" -> Same
         [] OTHER -> FALSE
Seen == Len(E.c) = Len(c') /\ \A i \in 1..Len(c') : E.c[i] = c'[i]
Do == CASE E.e = "offsets" -> Set(pos, E.r, E.w, app, shut, wshut)
        [] E.e = "op" -> Act /\ Seen
        [] OTHER -> FALSE
TNext == More /\ Do /\ Step
TSpec == TInit /\ [][TNext]_<<fvars, tvars>>
=============================================================================
