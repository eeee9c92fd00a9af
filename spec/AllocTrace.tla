------------------------------ MODULE AllocTrace ------------------------------
EXTENDS Alloc, TraceBase
TInit == Init /\ TBInit
\* the rounded size of a block: to whole words; shorter ones to the greatest power of two not above them
Floor2(n) == IF n >= 8 THEN 8 ELSE IF n >= 4 THEN 4 ELSE IF n >= 2 THEN 2 ELSE 1
Round(n) == LET m == IF n = 0 THEN 1 ELSE n f == Floor2(m) IN ((m + f - 1) \div f) * f
Same == UNCHANGED avars
\* kind "cluster": blocks of a class; kind "stack": one buffer, the block on its end can be given back
Cl == Cfg.kind = "cluster"
End == IF live = {} THEN 0 ELSE CHOOSE e \in {b.off + b.n : b \in live} : \A b \in live : b.off + b.n <= e
TEv == /\ More /\ Step
       /\ CASE E.e = "grow" -> Grow(E.a, E.n, Round(E.want))
            [] E.e = "shrink" -> Shrink(E.a)
            [] E.e = "alloc" ->
                 /\ \E x \in arena : x.id = E.a
                 /\ E.al % Floor2(IF E.n = 0 THEN 1 ELSE E.n) = 0
                 /\ Get(E.k, E.a, E.off, E.n, Round(E.n))
            \* the allocator below had nothing
            [] E.e = "nomem" -> Same
            \* the content is that of the owner until the block is given back
            [] E.e = "dealloc" -> E.whole /\ Put(E.k)
            \* an object which could not be built leaves nothing
            [] E.e = "unbuilt" -> Same
            [] E.e = "refused" -> E.r /\ Same
            \* the list of what was not given back
            [] E.e = "clearing" -> live' = {} /\ UNCHANGED <<arena, cells, used>>
            [] E.e = "cleared" -> /\ {<<x[1], x[2], x[3]>> : x \in {E.leaks[i] : i \in 1..Len(E.leaks)}} = {<<x[1], x[2], Round(x[3])>> : x \in {E.left[i] : i \in 1..Len(E.left)}}
                                  /\ Len(E.leaks) = Len(E.left)
                                  /\ arena = {} /\ Same
            [] E.e = "full" -> End + E.n > Cfg.cap /\ Same
            [] E.e = "lone" -> arena' = {[id |-> 1, size |-> Cfg.cap]} /\ UNCHANGED <<live, cells, used>>
            \* memory held from the system by a pool
            [] E.e = "held" -> E.n = 0 /\ Same
            [] OTHER -> FALSE
TNext == TEv
TSpec == TInit /\ [][TNext]_<<avars, tvars>>
=============================================================================
