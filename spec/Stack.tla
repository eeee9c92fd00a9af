-------------------------------- MODULE Stack --------------------------------
(* A list shared by several threads: every thread puts nodes on its top and takes them    *)
(* from there, each at one instant.  A thread may also exchange the whole list for one of *)
(* its own, or do so only when the given node is on the top.                              *)
EXTENDS Naturals, Sequences
CONSTANTS Threads, Nodes
VARIABLES list, own, hand, pend
svars == <<list, own, hand, pend>>
Idle == [op |-> "none", o |-> 0, done |-> FALSE, res |-> 0]
Ran(s) == {s[i] : i \in 1..Len(s)}
Top(s) == IF s = <<>> THEN 0 ELSE Head(s)
Init == list = <<>> /\ own = [t \in Threads |-> <<>>] /\ hand = [t \in Threads |-> {}] /\ pend = [t \in Threads |-> Idle]
Call(t, op, o) == /\ pend[t].op = "none" /\ pend' = [pend EXCEPT ![t] = [op |-> op, o |-> o, done |-> FALSE, res |-> 0]] /\ UNCHANGED <<list, own, hand>>
P(t, op) == pend[t].op = op /\ ~pend[t].done
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
Push(t) == /\ P(t, "push") /\ pend[t].o \in hand[t]
           /\ list' = <<pend[t].o>> \o list /\ hand' = [hand EXCEPT ![t] = @ \ {pend[t].o}] /\ Done(t, 0) /\ UNCHANGED own
Pop(t) == /\ P(t, "pop") /\ Done(t, Top(list)) /\ UNCHANGED own
          /\ IF list = <<>> THEN UNCHANGED <<list, hand>> ELSE list' = Tail(list) /\ hand' = [hand EXCEPT ![t] = @ \cup {Head(list)}]
Take(t) == P(t, "take") /\ list' = own[t] /\ own' = [own EXCEPT ![t] = list] /\ Done(t, 0) /\ UNCHANGED hand
TakeIf(t) == /\ P(t, "takeif") /\ UNCHANGED hand
             /\ IF Top(list) = pend[t].o THEN list' = own[t] /\ own' = [own EXCEPT ![t] = list] /\ Done(t, 1)
                ELSE Done(t, 0) /\ UNCHANGED <<list, own>>
Look(t) == P(t, "top") /\ Done(t, Top(list)) /\ UNCHANGED <<list, own, hand>>
IsEmpty(t) == P(t, "empty") /\ Done(t, IF list = <<>> THEN 1 ELSE 0) /\ UNCHANGED <<list, own, hand>>
\* the list of the thread itself
LPush(t) == /\ P(t, "lpush") /\ pend[t].o \in hand[t] /\ own' = [own EXCEPT ![t] = <<pend[t].o>> \o @]
            /\ hand' = [hand EXCEPT ![t] = @ \ {pend[t].o}] /\ Done(t, 0) /\ UNCHANGED list
LPop(t) == /\ P(t, "lpop") /\ Done(t, Top(own[t])) /\ UNCHANGED list
           /\ IF own[t] = <<>> THEN UNCHANGED <<own, hand>> ELSE own' = [own EXCEPT ![t] = Tail(@)] /\ hand' = [hand EXCEPT ![t] = @ \cup {Head(own[t])}]
LRev(t) == /\ P(t, "lrev") /\ own' = [own EXCEPT ![t] = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]] /\ Done(t, 0) /\ UNCHANGED <<list, hand>>
Lin(t) == Push(t) \/ Pop(t) \/ Take(t) \/ TakeIf(t) \/ Look(t) \/ IsEmpty(t) \/ LPush(t) \/ LPop(t) \/ LRev(t)
Ret(t, op, r) == /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<list, own, hand>>
----
MInit == /\ list = <<>> /\ own = [t \in Threads |-> <<>>] /\ hand = [t \in Threads |-> {n \in Nodes : n % 2 = t % 2}] /\ pend = [t \in Threads |-> Idle]
MCall == \E t \in Threads : \/ \E o \in hand[t] : \E op \in {"push", "lpush"} : Call(t, op, o)
                            \/ \E op \in {"pop", "take", "top", "empty", "lpop", "lrev"} : Call(t, op, 0)
                            \/ \E o \in Nodes \cup {0} : Call(t, "takeif", o)
MPush == \E t \in Threads : Push(t)
MPop == \E t \in Threads : Pop(t)
MTake == \E t \in Threads : Take(t) \/ TakeIf(t)
MOther == \E t \in Threads : Look(t) \/ IsEmpty(t) \/ LPush(t) \/ LPop(t) \/ LRev(t)
MRet == \E t \in Threads : pend[t].op # "none" /\ Ret(t, pend[t].op, pend[t].res)
MNext == MCall \/ MPush \/ MPop \/ MTake \/ MOther \/ MRet
MSpec == MInit /\ [][MNext]_svars
\* every node is in exactly one place
OnceOnly == \A n \in Nodes :
  LET inhand == {t \in Threads : n \in hand[t]}
      inown == {t \in Threads : n \in Ran(own[t])} IN
  /\ Len(SelectSeq(list, LAMBDA x : x = n)) <= 1
  /\ \A t \in Threads : Len(SelectSeq(own[t], LAMBDA x : x = n)) <= 1
  /\ \/ n \in Ran(list) /\ inhand = {} /\ inown = {}
     \/ n \notin Ran(list) /\ ((\E t \in Threads : inhand = {t} /\ inown = {}) \/ (\E t \in Threads : inhand = {} /\ inown = {t}))
\* what a pop gives belongs to who asked
Given == \A t \in Threads : pend[t].op = "pop" /\ pend[t].done /\ pend[t].res # 0 => pend[t].res \in hand[t]
=============================================================================
