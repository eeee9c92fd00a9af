-------------------------------- MODULE Alloc --------------------------------
(* Blocks of memory cut from larger pieces (arenas) taken from an allocator below.        *)
(* Every block lies in one arena, apart from the others.  Blocks are grouped by class     *)
(* (rounded size); a place once used for a class is used for it again before the          *)
(* allocator takes more from below; an arena goes back only without blocks in it.         *)
EXTENDS Naturals, FiniteSets
CONSTANTS Sizes, MaxArena, MaxLive
VARIABLES arena, live, cells, used
avars == <<arena, live, cells, used>>
Init == arena = {} /\ live = {} /\ cells = {} /\ used = {}
Overlap(o1, n1, o2, n2) == o1 < o2 + n2 /\ o2 < o1 + n1
Size(a) == (CHOOSE x \in arena : x.id = a).size
Busy(x) == \E b \in live : b.a = x.a /\ b.off = x.off
Spare(c) == \E x \in cells : x.c = c /\ ~Busy(x)
\* a new piece from below, wanted for class c
Grow(i, n, c) == /\ \A x \in arena : x.id # i
                 /\ ~Spare(c)
                 /\ arena' = arena \cup {[id |-> i, size |-> n]} /\ UNCHANGED <<live, cells, used>>
\* a piece is given back
Shrink(i) == /\ \E x \in arena : x.id = i
             /\ \A b \in live : b.a # i
             /\ arena' = {x \in arena : x.id # i} /\ cells' = {x \in cells : x.a # i} /\ UNCHANGED <<live, used>>
\* c: the rounded size
Get(k, a, o, n, c) == /\ n <= c
                      /\ \E x \in arena : x.id = a /\ o + n <= x.size
                      /\ \A b \in live : b.a = a => ~Overlap(o, n, b.off, b.n)
                      /\ live' = live \cup {[k |-> k, a |-> a, off |-> o, n |-> n, c |-> c]}
                      /\ cells' = cells \cup {[a |-> a, off |-> o, c |-> c]} /\ used' = used \cup {k} /\ UNCHANGED arena
Put(k) == /\ \E b \in live : b.k = k
          /\ live' = {b \in live : b.k # k} /\ UNCHANGED <<arena, cells, used>>
----
\* a small allocator of this kind: an arena of class c holds two blocks behind a header
MGrow == \E i \in 1..MaxArena, c \in Sizes : (\A x \in arena : x.id # i) /\ (\A x \in arena : \E y \in cells : y.a = x.id) /\ Grow(i, 1 + 2 * c, c)
MShrink == \E x \in arena : Shrink(x.id)
MGet == \E k \in 1..MaxLive, x \in arena, c \in Sizes, j \in {0, 1} :
          (\A b \in live : b.k # k) /\ x.size = 1 + 2 * c /\ Get(k, x.id, 1 + j * c, c, c)
MPut == \E b \in live : Put(b.k)
MSpec == Init /\ [][MGrow \/ MShrink \/ MGet \/ MPut]_avars
Apart == \A b1, b2 \in live : b1.k # b2.k /\ b1.a = b2.a => ~Overlap(b1.off, b1.n, b2.off, b2.n)
Inside == \A b \in live : \E x \in arena : x.id = b.a /\ b.off + b.n <= x.size
\* more is taken only when everything is used; a block stays where it is
Used == [][Cardinality(arena') > Cardinality(arena) => \E c \in Sizes : \A x \in cells : x.c = c => \E b \in live : b.a = x.a /\ b.off = x.off]_avars
Steady == [][\A b \in live : b \in live' \/ \A d \in live' : d.k # b.k]_avars
=============================================================================
