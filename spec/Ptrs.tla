-------------------------------- MODULE Ptrs --------------------------------
(* Smart pointers which share or own objects.  grp[h] is the group handle h  *)
(* belongs to, obj[g] the object of the group (0 none); an object of a group *)
(* which nobody belongs to is destroyed, unless it is not owned (keep).      *)
EXTENDS Naturals, FiniteSets
CONSTANTS Handles, MaxObj
\* groups are named by numbers, one for each handle is always enough
VARIABLES kind, grp, obj, live, keep, cnt, loose
pvars == <<kind, grp, obj, live, keep, cnt, loose>>
Members(g, x) == {h \in Handles : g[h] = x}
Free(g, h) == CHOOSE x \in Handles : Members(g, x) \subseteq {h}
\* ob: object of each group
Alive(g, ob, l, k, lo) == {o \in l : o \in k \/ o \in lo \/ \E h \in Handles : ob[g[h]] = o}
Init(k) == /\ kind = k /\ grp = [h \in Handles |-> h] /\ obj = [h \in Handles |-> 0] /\ live = {} /\ keep = {} /\ cnt = 0 /\ loose = {}
Upd(g, ob, l, lo) == /\ grp' = g /\ obj' = [x \in Handles |-> IF Members(g, x) = {} THEN 0 ELSE ob[x]] /\ live' = Alive(g, ob, l, keep, lo) /\ loose' = lo /\ UNCHANGED <<kind, keep>>
Alone(a) == LET x == Free(grp, a) IN x
New(a, o) == LET x == Alone(a) IN o \notin live /\ Upd([grp EXCEPT ![a] = x], [obj EXCEPT ![x] = o], live \cup {o}, loose) /\ cnt' = o
Reset(a) == LET x == Alone(a) IN Upd([grp EXCEPT ![a] = x], [obj EXCEPT ![x] = 0], live, loose) /\ UNCHANGED cnt
\* counted handles without an object do not form groups; two groups of no object merge
Set(a, b) == (IF kind \in {"shared", "static"} /\ obj[grp[a]] = obj[grp[b]]
                THEN Upd([h \in Handles |-> IF grp[h] = grp[a] THEN grp[b] ELSE grp[h]], obj, live, loose)
                ELSE Upd([grp EXCEPT ![a] = grp[b]], obj, live, loose)) /\ UNCHANGED cnt
Copy(a, b) == Upd([grp EXCEPT ![a] = grp[b]], obj, live, loose) /\ UNCHANGED cnt
Move(a, b) == (IF a = b THEN Upd(grp, obj, live, loose)
                ELSE LET g1 == [grp EXCEPT ![a] = grp[b]] x == Free(g1, b) IN
                     \* b gets a group of its own with nothing
                     Upd([g1 EXCEPT ![b] = IF Members(g1, x) = {b} THEN CHOOSE y \in Handles : Members(g1, y) = {} ELSE x], [obj EXCEPT ![IF Members(g1, x) = {b} THEN CHOOSE y \in Handles : Members(g1, y) = {} ELSE x] = 0], live, loose)) /\ UNCHANGED cnt
Redirect(a, o) == Upd(grp, [obj EXCEPT ![grp[a]] = o], live \cup {o}, loose) /\ cnt' = IF o > cnt THEN o ELSE cnt
Clone(a, b, o) == LET x == Alone(a) IN Upd([grp EXCEPT ![a] = x], [obj EXCEPT ![x] = o], IF o = 0 THEN live ELSE live \cup {o}, loose) /\ (o = 0 <=> obj[grp[b]] = 0) /\ cnt' = IF o = 0 THEN cnt ELSE o
Detach(a, o) == LET x == Alone(a) IN obj[grp[a]] = o /\ Upd([grp EXCEPT ![a] = x], [obj EXCEPT ![x] = 0], live, {o}) /\ UNCHANGED cnt
Back(a, o) == LET x == Alone(a) IN loose = {o} /\ Upd([grp EXCEPT ![a] = x], [obj EXCEPT ![x] = o], live, {}) /\ UNCHANGED cnt
Swap(a, b) == Upd([grp EXCEPT ![a] = grp[b], ![b] = grp[a]], obj, live, loose) /\ UNCHANGED cnt
Merge(a, b) == Upd([h \in Handles |-> IF grp[h] = grp[a] THEN grp[b] ELSE grp[h]], obj, live, loose) /\ UNCHANGED cnt
Count(a) == Cardinality(Members(grp, grp[a]))
IsShared(a) == IF kind = "counted" THEN obj[grp[a]] # 0 /\ Count(a) > 1 ELSE Count(a) > 1

Fresh == CHOOSE o \in 1..MaxObj : o > cnt /\ \A p \in 1..MaxObj : p > cnt => o <= p
Next == \E a, b \in Handles :
   \/ loose = {} /\ kind # "ring" /\ cnt < MaxObj /\ New(a, Fresh)
   \/ loose = {} /\ Reset(a)
   \/ loose = {} /\ kind \in {"shared", "counted"} /\ Set(a, b)
   \/ loose = {} /\ kind \in {"shared", "ring"} /\ a # b /\ Copy(a, b)
   \/ loose = {} /\ kind = "ring" /\ grp[a] # grp[b] /\ Merge(a, b)
   \/ loose = {} /\ kind = "counted" /\ Move(a, b)
   \/ loose = {} /\ kind = "shared" /\ cnt < MaxObj /\ Redirect(a, Fresh)
   \/ loose = {} /\ kind = "owned" /\ a # b /\ cnt < MaxObj /\ Clone(a, b, IF obj[grp[b]] = 0 THEN 0 ELSE Fresh)
   \/ loose = {} /\ kind \in {"owned", "counted"} /\ obj[grp[a]] # 0 /\ ~IsShared(a) /\ Detach(a, obj[grp[a]])
   \/ \E o \in loose : Back(a, o)
   \/ loose = {} /\ kind = "owned" /\ Swap(a, b)
Spec == (\E k \in {"shared", "counted", "owned", "ring"} : Init(k)) /\ [][Next]_pvars
\* no handle refers to a dead object, nothing lives without a handle
Exact == live = ({obj[grp[h]] : h \in Handles} \ {0}) \cup loose \cup keep
\* an object belongs to one group
OneGroup == \A g, h \in Handles : obj[grp[g]] = obj[grp[h]] /\ obj[grp[g]] # 0 => grp[g] = grp[h]
Single == kind = "owned" => \A h \in Handles : Count(h) = 1
=============================================================================
