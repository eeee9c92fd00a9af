------------------------------ MODULE JsonTree ------------------------------
(* JSON values in memory: containers have an identity and are shared by everybody who
   holds them, leaves are plain values.  Names are numbers in the order of the names. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vars, Names, Leaves, MaxId
VARIABLES heap, var
tvar == <<heap, var>>

Nil == [t |-> "nil"]
Ref(id) == [t |-> "ref", id |-> id]
Leaf(x) == [t |-> "leaf", x |-> x]
Arr(v) == [t |-> "arr", v |-> v]
Obj(f) == [t |-> "obj", f |-> f]
NoF == [n \in {} |-> Nil]

IsCont(r) == r.t = "ref"
IsObj(h, r) == r.t = "ref" /\ h[r.id].t = "obj"
IsArr(h, r) == r.t = "ref" /\ h[r.id].t = "arr"
Range(s) == {s[i] : i \in DOMAIN s}
Kids(c) == IF c.t = "arr" THEN Range(c.v) ELSE {c.f[n] : n \in DOMAIN c.f}
RECURSIVE Reach(_, _)
Reach(h, r) == IF r.t # "ref" THEN {} ELSE {r.id} \cup UNION {Reach(h, k) : k \in Kids(h[r.id])}
\* the whole of a value
RECURSIVE Tree(_, _)
Tree(h, r) == IF r.t # "ref" THEN r ELSE LET c == h[r.id] IN IF c.t = "arr" THEN Arr([i \in 1..Len(c.v) |-> Tree(h, c.v[i])]) ELSE Obj([n \in DOMAIN c.f |-> Tree(h, c.f[n])])
RECURSIVE SortSet(_)
SortSet(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SortSet(s \ {m})
\* the items in the order of iteration
Items(h, r) == IF r.t # "ref" THEN <<>> ELSE LET c == h[r.id] IN IF c.t = "arr" THEN c.v ELSE LET k == SortSet(DOMAIN c.f) IN [i \in 1..Len(k) |-> c.f[k[i]]]
NamesOf(h, r) == IF IsObj(h, r) THEN SortSet(DOMAIN h[r.id].f) ELSE <<>>
Length(h, r) == Len(Items(h, r))

Fresh(h) == 1 + Cardinality(DOMAIN h)
Alloc(h, c) == h @@ (Fresh(h) :> c)
Remove(f, n) == [m \in DOMAIN f \ {n} |-> f[m]]
With(f, n, r) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN r ELSE f[m]]
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* what the operations make of the heap; items are counted from 1
\* an array stands for its first item when a member is asked for
RECURSIVE Get(_, _, _)
Get(h, r, n) == IF IsObj(h, r) THEN IF n \in DOMAIN h[r.id].f THEN h[r.id].f[n] ELSE Nil
                ELSE IF IsArr(h, r) /\ h[r.id].v # <<>> THEN Get(h, h[r.id].v[1], n) ELSE Nil
Own(h, r, n) == IF IsObj(h, r) THEN Get(h, r, n) ELSE Nil
SetH(h, r, n, w) == IF ~IsObj(h, r) THEN h ELSE [h EXCEPT ![r.id] = Obj(IF w = Nil THEN Remove(@.f, n) ELSE With(@.f, n, w))]
EraseH(h, r, n) == SetH(h, r, n, Nil)
\* a name which is there keeps its value; an array does not look at names
AddH(h, r, n, w) == IF IsObj(h, r) THEN IF w = Nil THEN EraseH(h, r, n) ELSE IF n \in DOMAIN h[r.id].f THEN h ELSE SetH(h, r, n, w)
                    ELSE IF w = Nil THEN h ELSE [h EXCEPT ![r.id] = Arr(Append(@.v, w))]
\* an object makes a name of its length
Unnamed(l) == 6 + l
PushH(h, r, w) == IF w = Nil THEN h ELSE IF IsObj(h, r) THEN AddH(h, r, Unnamed(Length(h, r)), w) ELSE [h EXCEPT ![r.id] = Arr(Append(@.v, w))]
SetIdxH(h, r, i, w) == IF ~IsArr(h, r) THEN h ELSE [h EXCEPT ![r.id] = Arr(IF w = Nil THEN Cut(@.v, i) ELSE [@.v EXCEPT ![i] = w])]
EraseIdxH(h, r, i) == SetIdxH(h, r, i, Nil)
ClearH(h, r) == IF ~IsCont(r) THEN h ELSE [h EXCEPT ![r.id] = IF @.t = "arr" THEN Arr(<<>>) ELSE Obj(NoF)]
\* merges the members, or appends the items
RECURSIVE LoadO(_, _, _, _, _)
LoadO(h, r, ns, vs, over) == IF ns = <<>> THEN h ELSE LoadO(IF over THEN SetH(h, r, Head(ns), Head(vs)) ELSE AddH(h, r, Head(ns), Head(vs)), r, Tail(ns), Tail(vs), over)
LoadH(h, r, w, over) == IF IsObj(h, r) THEN LoadO(h, r, NamesOf(h, w), Items(h, w), over) ELSE [h EXCEPT ![r.id] = Arr(@.v \o Items(h, w))]
\* copy of the containers down to some depth
RECURSIVE CopyH(_, _, _)
RECURSIVE CopyAll(_, _, _)
CopyAll(h, s, d) == IF s = <<>> THEN [h |-> h, s |-> <<>>] ELSE LET a == CopyH(h, Head(s), d) b == CopyAll(a.h, Tail(s), d) IN [h |-> b.h, s |-> <<a.r>> \o b.s]
CopyH(h, r, d) == IF ~IsCont(r) THEN [h |-> h, r |-> r]
   ELSE LET k == IF d = 0 THEN [h |-> h, s |-> Items(h, r)] ELSE CopyAll(h, Items(h, r), d - 1)
            n == NamesOf(h, r)
            c == IF IsArr(h, r) THEN Arr(k.s) ELSE Obj([m \in Range(n) |-> k.s[CHOOSE i \in 1..Len(n) : n[i] = m]])
        IN [h |-> Alloc(k.h, c), r |-> Ref(Fresh(k.h))]
\* a path: steps <<"n", name>> or <<"i", index>>; no item: nothing; items of leaves are left open
RECURSIVE Walk(_, _, _)
Open == [t |-> "open"]
Walk(h, r, p) == IF p = <<>> THEN r ELSE IF r.t = "leaf" /\ ~Head(p).n THEN Open ELSE LET s == Head(p) x == IF s.n THEN Get(h, r, s.k) ELSE IF IsArr(h, r) /\ s.k <= Length(h, r) THEN h[r.id].v[s.k] ELSE Nil IN IF x = Nil THEN Nil ELSE Walk(h, x, Tail(p))

Deep == 99
NoCycle(h, r, w) == ~IsCont(w) \/ r.id \notin Reach(h, w)
Put(v, r) == var' = [var EXCEPT ![v] = r]
New(v, c) == heap' = Alloc(heap, c) /\ Put(v, Ref(Fresh(heap)))
SetLeaf(v, x) == Put(v, Leaf(x)) /\ UNCHANGED heap
Copy(v, w, d) == LET c == CopyH(heap, var[w], d) IN heap' = c.h /\ Put(v, c.r)
Mutate(h2) == heap' = h2 /\ UNCHANGED var
Init == heap = <<>> /\ var = [v \in Vars |-> Nil]
Next == \E v, w \in Vars : 
   \/ Cardinality(DOMAIN heap) < MaxId /\ \E c \in {Arr(<<>>), Obj(NoF)} : New(v, c)
   \/ \E x \in Leaves : SetLeaf(v, x)
   \/ Put(v, var[w]) /\ UNCHANGED heap
   \/ \E n \in Names : IsObj(heap, var[v]) /\ NoCycle(heap, var[v], var[w]) /\ Mutate(SetH(heap, var[v], n, var[w]))
   \/ \E n \in Names : IsObj(heap, var[v]) /\ NoCycle(heap, var[v], var[w]) /\ Mutate(AddH(heap, var[v], n, var[w]))
   \/ IsArr(heap, var[v]) /\ NoCycle(heap, var[v], var[w]) /\ Length(heap, var[v]) < 2 /\ Mutate(PushH(heap, var[v], var[w]))
   \/ \E i \in 1..Length(heap, var[v]) : IsArr(heap, var[v]) /\ NoCycle(heap, var[v], var[w]) /\ Mutate(SetIdxH(heap, var[v], i, var[w]))
   \/ IsCont(var[v]) /\ Mutate(ClearH(heap, var[v]))
   \/ \E d \in {0, Deep} : Cardinality(DOMAIN CopyH(heap, var[w], d).h) <= MaxId /\ Copy(v, w, d)
   \/ IsCont(var[v]) /\ (\A k \in Kids(IF IsCont(var[w]) THEN heap[var[w].id] ELSE Arr(<<>>)) : NoCycle(heap, var[v], k)) /\ (IsArr(heap, var[v]) => Length(heap, var[v]) + Length(heap, var[w]) < 3) /\ Mutate(LoadH(heap, var[v], var[w], TRUE))
   \/ \E n \in Names : Get(heap, var[w], n) # Nil /\ Put(v, Get(heap, var[w], n)) /\ UNCHANGED heap
Spec == Init /\ [][Next]_tvar
Refs(h) == UNION {Kids(h[i]) : i \in DOMAIN h} \cup Range(var)
\* how many hold a container: the variables and what they reach
Live(h) == UNION {Reach(h, var[v]) : v \in Vars}
Holders(h, id) == Cardinality({v \in Vars : var[v] = Ref(id)}) + Cardinality({p \in Live(h) \X (1..20) : LET s == Items(h, Ref(p[1])) IN p[2] <= Len(s) /\ s[p[2]] = Ref(id)})
Sound == /\ \A r \in Refs(heap) : r.t = "ref" => r.id \in DOMAIN heap
         /\ \A i \in DOMAIN heap : Nil \notin Kids(heap[i]) /\ \A k \in Kids(heap[i]) : i \notin Reach(heap, k)
\* a step changes at most one container which was there before
OneAtATime == [][Cardinality({i \in DOMAIN heap : heap'[i] # heap[i]}) <= 1]_tvar
\* whoever does not reach the container does not see it change
Isolated == [][\A v \in Vars : var'[v] = var[v] => (Tree(heap', var[v]) # Tree(heap, var[v]) => \E i \in Reach(heap, var[v]) : heap'[i] # heap[i])]_tvar
\* a deep copy has the same value and shares no container
Copies == [][\A v, w \in Vars : (v # w /\ IsCont(var[w]) /\ var'[v] # var[v] /\ var'[v].t = "ref" /\ var'[v].id \notin DOMAIN heap /\ heap'[var'[v].id] # Arr(<<>>) /\ heap'[var'[v].id] # Obj(NoF))
                => (\E u \in Vars : Tree(heap', var'[v]) = Tree(heap, var[u]))]_tvar
=============================================================================
