----------------------------- MODULE PtrsTrace -----------------------------
EXTENDS Ptrs, TraceBase
S(v) == {v[i] : i \in 1..Len(v)}
TInit == TBInit /\ Init("")
Same == UNCHANGED <<grp, obj, live, loose, cnt>> /\ UNCHANGED <<kind, keep>>
Act == CASE E.op = "new" -> New(E.a + 1, E.o)
         [] E.op = "set" -> Set(E.a + 1, E.b + 1)
         [] E.op = "copy" -> Copy(E.a + 1, E.b + 1)
         [] E.op = "reset" -> Reset(E.a + 1)
         [] E.op = "move" -> Move(E.a + 1, E.b + 1)
         [] E.op = "redirect" -> Redirect(E.a + 1, E.o)
         [] E.op = "static" -> Redirect(E.a + 1, E.o)
         [] E.op = "unstatic" -> LET o2 == [obj EXCEPT ![grp[E.a + 1]] = 0] x == Alone(E.a + 1) IN Upd([grp EXCEPT ![E.a + 1] = x], [o2 EXCEPT ![x] = 0], live, loose) /\ UNCHANGED cnt
         [] E.op = "clone" -> Clone(E.a + 1, E.b + 1, E.o)
         [] E.op = "detach" -> Detach(E.a + 1, E.r)
         [] E.op = "back" -> Back(E.a + 1, E.o)
         [] E.op = "merge" -> Merge(E.a + 1, E.b + 1)
         [] E.op = "swap" -> Swap(E.a + 1, E.b + 1)
         [] E.op = "count" -> E.r = Count(E.a + 1) /\ Same
         [] E.op = "isshared" -> (E.r = 1 <=> IsShared(E.a + 1)) /\ Same
         [] E.op = "nop" -> Same
         [] OTHER -> FALSE
Seen == /\ \A h \in Handles : E.h[h] = obj'[grp'[h]]
        /\ S(E.live) = live' /\ E.twice = 0
Do == CASE E.e = "start" -> kind' = E.kind /\ grp' = [h \in Handles |-> h] /\ obj' = [h \in Handles |-> 0] /\ live' = {} /\ keep' = {} /\ cnt' = 0 /\ loose' = {} [] E.e = "statics" -> keep' = S(E.o) /\ live' = S(E.o) /\ cnt' = 2 /\ UNCHANGED <<kind, grp, obj, loose>>
        [] E.e = "op" -> Act /\ Seen
        [] E.e = "end" -> S(E.live) = {} /\ E.twice = 0 /\ UNCHANGED pvars
        [] OTHER -> FALSE
TNext == More /\ Do /\ Step
TSpec == TInit /\ [][TNext]_<<pvars, tvars>>
=============================================================================
