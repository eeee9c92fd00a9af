-------------------------------- MODULE Pool --------------------------------
(* Memory shared by threads.  Taken: by whom a block is held.  A block is given to nobody *)
(* while somebody holds it.  What waits in the pool may be given out again or returned.   *)
EXTENDS Naturals
CONSTANTS Threads, Blocks
VARIABLES holder, pooled, pend
pvars == <<holder, pooled, pend>>
Init == holder = [b \in {} |-> 0] /\ pooled = {} /\ pend = [t \in Threads |-> "none"]
Held(b) == b \in DOMAIN holder
Give(h, b, t) == [c \in DOMAIN h \cup {b} |-> IF c = b THEN t ELSE h[c]]
Drop(h, b) == [c \in DOMAIN h \ {b} |-> h[c]]
Call(t, op) == pend[t] = "none" /\ pend' = [pend EXCEPT ![t] = op] /\ UNCHANGED <<holder, pooled>>
\* a pooled block or a new one
Got(t, b) == pend[t] = "alloc" /\ ~Held(b) /\ holder' = Give(holder, b, t) /\ pooled' = pooled \ {b} /\ pend' = [pend EXCEPT ![t] = "none"]
\* from the call on the block is not the thread's
CallPut(t, b) == /\ pend[t] = "none" /\ Held(b) /\ holder[b] = t /\ holder' = Drop(holder, b) /\ pooled' = pooled \cup {b} /\ pend' = [pend EXCEPT ![t] = "dealloc"]
Ret(t, op) == pend[t] = op /\ pend' = [pend EXCEPT ![t] = "none"] /\ UNCHANGED <<holder, pooled>>
MFree(t) == pend[t] = "free" /\ pooled' = {} /\ pend' = [pend EXCEPT ![t] = "none"] /\ UNCHANGED holder
MAlloc == \E t \in Threads : Call(t, "alloc")
MCallFree == \E t \in Threads : Call(t, "free")
MGot == \E t \in Threads, b \in Blocks : Got(t, b)
MPut == \E t \in Threads, b \in Blocks : CallPut(t, b)
MRet == \E t \in Threads : Ret(t, "dealloc") \/ MFree(t)
MSpec == Init /\ [][MAlloc \/ MCallFree \/ MGot \/ MPut \/ MRet]_pvars
Apart == DOMAIN holder \cap pooled = {}
\* nobody loses a block except by giving it back
Keeps == [][\A b \in DOMAIN holder : b \in DOMAIN holder' => holder'[b] = holder[b]]_pvars
=============================================================================
