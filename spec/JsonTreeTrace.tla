--------------------------- MODULE JsonTreeTrace ---------------------------
EXTENDS JsonTree, TraceBase
\* the values which were seen
RECURSIVE Val(_)
Val(d) == CASE d.t = "arr" -> Arr([i \in 1..Len(d.v) |-> Val(d.v[i])])
            [] d.t = "obj" -> Obj([n \in {d.k[i] : i \in 1..Len(d.k)} |-> Val(d.v[CHOOSE i \in 1..Len(d.k) : d.k[i] = n])])
            [] d.t = "nil" -> Nil
            [] OTHER -> Leaf(d.x)
RECURSIVE Sorted(_)
Sorted(d) == d.t \in {"arr", "obj"} => /\ \A i \in 1..Len(d.v) : Sorted(d.v[i])
                                       /\ d.t = "obj" => \A i \in 1..(Len(d.k) - 1) : d.k[i] < d.k[i + 1]
X(i) == var[i]
TInit == TBInit /\ Init
Keep == UNCHANGED tvar
Fails == E.exc /\ Keep
Fine == ~E.exc
InRange == IsArr(heap, X(E.a)) /\ E.i <= Length(heap, X(E.a))
Self == IsCont(X(E.b)) /\ X(E.b) = X(E.a)
Do == CASE E.op = "obj" -> Fine /\ New(E.a, Obj(NoF))
        [] E.op = "arr" -> Fine /\ New(E.a, Arr(<<>>))
        [] E.op = "arrof" -> Fine /\ New(E.a, Arr([i \in 1..Len(E.vs) |-> X(E.vs[i])]))
        [] E.op = "leaf" -> Fine /\ SetLeaf(E.a, E.x)
        [] E.op = "let" -> Fine /\ Put(E.a, X(E.b)) /\ UNCHANGED heap
        [] E.op = "drop" -> Fine /\ Put(E.a, Nil) /\ UNCHANGED heap
        [] E.op = "set" -> IF Self /\ IsObj(heap, X(E.a)) THEN Fails ELSE Fine /\ Mutate(SetH(heap, X(E.a), E.n, X(E.b)))
        [] E.op = "replace" -> Fine /\ Mutate(SetH(heap, X(E.a), E.n, X(E.b))) /\ Val(E.r) = Tree(heap, Own(heap, X(E.a), E.n))
        [] E.op = "add" -> IF ~IsCont(X(E.a)) THEN Fails ELSE IF Self THEN Fails ELSE Fine /\ Mutate(AddH(heap, X(E.a), E.n, X(E.b)))
        [] E.op = "push" -> IF ~IsCont(X(E.a)) THEN Fails ELSE IF Self THEN Fails ELSE Fine /\ Mutate(PushH(heap, X(E.a), X(E.b)))
        [] E.op = "seti" -> IF ~IsArr(heap, X(E.a)) THEN Fine /\ Keep ELSE IF InRange THEN Fine /\ Mutate(SetIdxH(heap, X(E.a), E.i, X(E.b))) ELSE Fails
        [] E.op = "erase" -> Fine /\ Mutate(EraseH(heap, X(E.a), E.n))
        [] E.op = "erasei" -> IF ~IsArr(heap, X(E.a)) THEN Fine /\ Keep ELSE IF InRange THEN Fine /\ Mutate(EraseIdxH(heap, X(E.a), E.i)) ELSE Keep
        [] E.op = "clear" -> Fine /\ Mutate(ClearH(heap, X(E.a)))
        [] E.op = "get" -> Fine /\ Put(E.a, Get(heap, X(E.b), E.n)) /\ UNCHANGED heap
        [] E.op = "need" -> IF Get(heap, X(E.a), E.n) = Nil THEN Fails ELSE Fine /\ Keep /\ Val(E.r) = Tree(heap, Get(heap, X(E.a), E.n))
        [] E.op = "or" -> Fine /\ Keep /\ Val(E.r) = Tree(heap, LET g == Get(heap, X(E.a), E.n) IN IF g = Nil THEN X(E.b) ELSE g)
        [] E.op = "iso" -> Keep /\ (E.exc <=> Holders(heap, X(E.a).id) > 1)
        [] E.op = "geti" -> IF IsArr(heap, X(E.b)) /\ E.i <= Length(heap, X(E.b)) THEN Fine /\ Put(E.a, heap[X(E.b).id].v[E.i]) /\ UNCHANGED heap ELSE IF IsArr(heap, X(E.b)) \/ ~IsCont(X(E.b)) THEN Fails ELSE Val(E.r) = Nil /\ UNCHANGED heap /\ IF E.exc THEN UNCHANGED var ELSE Put(E.a, Nil)
        [] E.op = "load" -> Fine /\ Mutate(LoadH(heap, X(E.a), X(E.b), TRUE))
        [] E.op = "merge" -> Fine /\ Mutate(LoadH(heap, X(E.a), X(E.b), FALSE))
        [] E.op = "copy" -> Fine /\ Copy(E.a, E.b, IF E.i < 0 THEN Deep ELSE E.i)
        [] E.op = "eq" -> Fine /\ Keep /\ (E.y <=> (Tree(heap, X(E.a)) = Tree(heap, X(E.b))))
        [] E.op = "len" -> Fine /\ Keep /\ E.i = Length(heap, X(E.a)) /\ (E.y <=> (IsCont(X(E.a)) /\ E.i = 0))
        [] E.op = "snap" -> Fine /\ Mutate(ClearH(heap, X(E.a))) /\ LET s == Items(heap, X(E.a)) IN Len(E.vs) = Len(s) /\ \A i \in 1..Len(s) : Val(E.vs[i]) = Tree(heap', s[i])
        [] E.op = "path" -> Keep /\ LET r == Walk(heap, X(E.a), E.p) IN IF r = Nil THEN E.exc \/ Val(E.r) = Nil ELSE IF r = Open THEN TRUE ELSE Fine /\ Val(E.r) = Tree(heap, r)
        [] E.op = "see" -> Fine /\ Keep
        [] OTHER -> FALSE
Seen == "h" \in DOMAIN E => \A v \in Vars : Sorted(E.h[v]) /\ Val(E.h[v]) = Tree(heap', var'[v])
\* paths are ordered by length, then step by step; indices precede names
PCmp(a, b) == LET RECURSIVE F(_) F(i) == IF i > Len(a) THEN 0
                    ELSE IF a[i] = b[i] THEN F(i + 1) ELSE IF a[i].n # b[i].n THEN IF b[i].n THEN 0 - 1 ELSE 1 ELSE IF a[i].k < b[i].k THEN 0 - 1 ELSE 1
              IN IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN 0 - 1 ELSE 1 ELSE F(1)
TNext == More /\ Step /\ IF E.e = "op" THEN Do /\ Seen ELSE IF E.e = "pcmp" THEN Keep /\ E.r = PCmp(E.p, E.q) /\ E.len = Len(E.p) ELSE FALSE
TSpec == TInit /\ [][TNext]_<<tvar, tvars>>
=============================================================================
