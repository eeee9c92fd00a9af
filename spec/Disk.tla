-------------------------------- MODULE Disk --------------------------------
(* A tree of folders, files and symbolic links, reached by the file services. *)
(* A path is a sequence of names; a file is an inode with bytes, so that what *)
(* is open lives on when its name goes away.  The operators Xxx(...) say when *)
(* an operation succeeds and what it leaves.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tree, data, hs, tmps, priv
dvars == <<tree, data, hs, tmps, priv>>
None == <<"!">>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
At(s, p, n) == SubSeq(s, p + 1, Min(p + n, Len(s)))
Put(s, p, w) == IF w = <<>> THEN s ELSE [i \in 1..Max(Len(s), p + Len(w)) |-> IF i > p /\ i <= p + Len(w) THEN w[i - p] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
Size(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
Folder == [t |-> "d", ino |-> 0, to |-> <<>>]
File(i) == [t |-> "f", ino |-> i, to |-> <<>>]
Link(p) == [t |-> "l", ino |-> 0, to |-> p]
Init == tree = (<<>> :> Folder) /\ data = <<>> /\ hs = <<>> /\ tmps = <<>>
Has(tr, p) == p \in DOMAIN tr
IsDir(tr, p) == Has(tr, p) /\ tr[p].t = "d"
IsFile(tr, p) == Has(tr, p) /\ tr[p].t = "f"
\* ---- where a path leads: links on the way are followed, the last one when asked
RECURSIVE Walk(_, _, _, _, _)
Walk(tr, done, rest, follow, fuel) ==
  IF rest = <<>> THEN done
  ELSE IF ~IsDir(tr, done) THEN None
  ELSE LET q == Append(done, Head(rest))
       IN IF Has(tr, q) /\ tr[q].t = "l" /\ (Len(rest) > 1 \/ follow)
          THEN IF fuel = 0 THEN None ELSE Walk(tr, <<>>, tr[q].to \o Tail(rest), follow, fuel - 1)
          ELSE Walk(tr, q, Tail(rest), follow, fuel)
Where(tr, p, follow) == Walk(tr, <<>>, p, follow, 40)
Exists(tr, p) == Has(tr, Where(tr, p, TRUE))
Kids(tr, p) == {q \in DOMAIN tr : Len(q) = Len(p) + 1 /\ Prefix(p, q)}
Below(tr, p) == {q \in DOMAIN tr : Prefix(p, q)}
Without(tr, ps) == [q \in DOMAIN tr \ ps |-> tr[q]]
With(tr, p, n) == (p :> n) @@ tr
Locked(i) == data[i].ro /\ ~priv
NewIno == Len(data) + 1
\* an outcome: ok, the tree and the files after it
Out(ok, tr, da) == [ok |-> ok, tree |-> tr, data |-> da]
Fail == Out(FALSE, tree, data)
\* ---- folders
RECURSIVE Parents(_, _)
Parents(tr, p) == IF p = <<>> THEN [ok |-> TRUE, tree |-> tr]
  ELSE LET d == Front(p) IN
       IF Exists(tr, d) THEN [ok |-> TRUE, tree |-> tr]
       ELSE LET r == Parents(tr, d) q == Where(r.tree, d, FALSE)
            IN IF ~r.ok \/ q = None \/ Has(r.tree, q) THEN [ok |-> FALSE, tree |-> r.tree] ELSE [ok |-> TRUE, tree |-> With(r.tree, q, Folder)]
MkDir(p, parents) ==
  LET r == IF parents THEN Parents(tree, p) ELSE [ok |-> TRUE, tree |-> tree]
      q == Where(r.tree, p, FALSE)
  IN IF ~r.ok \/ q = None THEN Out(FALSE, r.tree, data)
     ELSE IF Has(r.tree, q) THEN Out(parents /\ IsDir(r.tree, Where(r.tree, p, TRUE)), r.tree, data)
     ELSE Out(TRUE, With(r.tree, q, Folder), data)
RmDir(p, all) == LET q == Where(tree, p, FALSE) IN
  IF ~IsDir(tree, q) \/ q = <<>> \/ (~all /\ Kids(tree, q) # {}) THEN Fail ELSE Out(TRUE, Without(tree, Below(tree, q)), data)
\* ---- names
Gone(tr, p) == LET q == Where(tr, p, FALSE) IN IF ~Has(tr, q) \/ q = <<>> \/ Kids(tr, q) # {} THEN [ok |-> FALSE, tree |-> tr] ELSE [ok |-> TRUE, tree |-> Without(tr, {q})]
Remove(p) == LET r == Gone(tree, p) IN Out(r.ok, r.tree, data)
\* an entry of a folder, whatever it is
Erase(p, all) == IF IsDir(tree, Where(tree, p, FALSE)) THEN RmDir(p, all) ELSE Remove(p)
Moved(tr, from, to) == LET a == Where(tr, from, FALSE) b == Where(tr, to, FALSE) IN
  IF from = to \/ (a = b /\ Has(tr, a)) THEN [ok |-> TRUE, tree |-> tr]
  ELSE IF ~Has(tr, a) \/ b = None \/ Prefix(a, b) \/ Prefix(b, a) THEN [ok |-> FALSE, tree |-> tr]
  ELSE IF Has(tr, b) /\ (IF tr[a].t = "d" THEN tr[b].t # "d" \/ Kids(tr, b) # {} ELSE tr[b].t = "d") THEN [ok |-> FALSE, tree |-> tr]
  ELSE LET rest == Without(tr, Below(tr, a) \cup {b})
       IN [ok |-> TRUE, tree |-> [q \in {b \o SubSeq(x, Len(a) + 1, Len(x)) : x \in Below(tr, a)} |-> tr[a \o SubSeq(q, Len(b) + 1, Len(q))]] @@ rest]
Move(from, to, over) == IF from # to /\ ~over /\ Exists(tree, to) THEN Fail ELSE LET r == Moved(tree, from, to) IN Out(r.ok, r.tree, data)
Copy(from, to, over) ==
  LET a == Where(tree, from, TRUE) b == Where(tree, to, over) IN
  IF ~IsFile(tree, a) \/ b = None THEN Fail
  ELSE LET d == data[tree[a].ino] IN
  IF ~Has(tree, b) THEN Out(TRUE, With(tree, b, File(NewIno)), Append(data, d))
  ELSE IF ~over \/ ~IsFile(tree, b) \/ Locked(tree[b].ino) THEN Fail
  ELSE Out(TRUE, tree, [data EXCEPT ![tree[b].ino].c = d.c])
MkLink(p, to, over) ==
  LET b == Where(tree, p, FALSE) IN
  IF b = None \/ b = <<>> \/ (Has(tree, b) /\ (~over \/ Kids(tree, b) # {})) THEN Fail ELSE Out(TRUE, With(tree, b, Link(to)), data)
Can(p, m) == LET a == Where(tree, p, TRUE) IN
  /\ Has(tree, a)
  /\ CASE m \in {"w", "rw"} -> IsDir(tree, a) \/ ~Locked(tree[a].ino)
       [] m = "x" -> IsDir(tree, a)
       [] OTHER -> TRUE
\* what is told about a path: its type, link, size, what may be opened
Allowed(p) == IF Can(p, "rw") THEN "rw" ELSE "r"
About(p, name) == LET q == Where(tree, p, FALSE) a == Where(tree, p, TRUE) IN
  [t |-> (IF ~Has(tree, a) THEN "u" ELSE tree[a].t), link |-> tree[q].t = "l", hidden |-> SubSeq(name, 1, 1) = ".",
   size |-> (IF IsFile(tree, a) THEN Len(data[tree[a].ino].c) ELSE 0), mode |-> (IF ~Has(tree, a) THEN "" ELSE Allowed(p)),
   sub |-> (IF IsDir(tree, a) THEN Cardinality(Kids(tree, a)) ELSE 0 - 1)]
Listing(p) == LET q == Where(tree, p, TRUE) IN {<<Last(k), About(p \o <<Last(k)>>, Last(k))>> : k \in Kids(tree, q)}
\* ---- open files
NewName(p) == Append(Front(p), Last(p) \o ".new")
Open(p, m, fl0) ==
  LET com == "commit" \in fl0 /\ m # "r"
      fl == IF com THEN (fl0 \ {"del"}) \cup {"trunc", "create"} ELSE fl0
      p2 == IF com THEN NewName(p) ELSE p
      par == IF {"create", "mkdirs"} \subseteq fl THEN Parents(tree, p2) ELSE [ok |-> TRUE, tree |-> tree]
      excl == {"create", "excl"} \subseteq fl
      q == Where(par.tree, p2, ~excl)
      bad == [ok |-> FALSE, tree |-> par.tree, data |-> data, h |-> <<>>]
      good(tr, da, i) == [ok |-> TRUE, tree |-> tr, data |-> da, h |-> [ino |-> i, mode |-> m, pos |-> 0, app |-> "append" \in fl, open |-> TRUE, fgn |-> FALSE, com |-> com, tp |-> p, np |-> p2, del |-> IF "del" \in fl THEN p2 ELSE None]]
  IN IF ~par.ok \/ q = None THEN bad
     ELSE IF Has(par.tree, q)
          THEN IF excl THEN bad
               ELSE IF ~IsFile(par.tree, q) THEN IF m = "r" /\ "create" \notin fl /\ IsDir(par.tree, q) THEN good(par.tree, data, 0) ELSE bad
               ELSE LET i == par.tree[q].ino IN IF m # "r" /\ Locked(i) THEN bad ELSE good(par.tree, IF "trunc" \in fl THEN [data EXCEPT ![i].c = <<>>] ELSE data, i)
          ELSE IF "create" \in fl THEN good(With(par.tree, q, File(NewIno)), Append(data, [c |-> <<>>, ro |-> FALSE]), NewIno) ELSE bad
\* others notice that what they remember of the file may be old
Foreign(h0, da) == [h \in DOMAIN h0 |-> IF h0[h].ino > 0 /\ h0[h].ino <= Len(data) /\ Len(da[h0[h].ino].c) # Len(data[h0[h].ino].c) THEN [h0[h] EXCEPT !.fgn = TRUE] ELSE h0[h]]
Apply(r, x) == x = (IF r.ok THEN "" ELSE "err") /\ tree' = r.tree /\ data' = r.data /\ hs' = Foreign(hs, r.data) /\ UNCHANGED <<tmps, priv>>
OpenDo(h, p, m, fl, x) == LET r == Open(p, m, fl) IN
  /\ x = (IF r.ok THEN "" ELSE "err") /\ tree' = r.tree /\ data' = r.data
  /\ hs' = (IF r.ok THEN (h :> r.h) @@ Foreign(hs, r.data) ELSE Foreign(hs, r.data)) /\ UNCHANGED <<tmps, priv>>
H(h) == hs[h]
Reads(h) == H(h).open /\ H(h).mode # "w" /\ H(h).ino > 0
Writes(h) == H(h).open /\ H(h).mode # "r"
Bytes(h) == data[H(h).ino].c
Same == UNCHANGED dvars
\* bytes from a position: at least one of those which are there
Gives(s, p, n, y) == /\ Len(y) <= n /\ Prefix(y, At(s, p, n)) /\ (y = <<>> => At(s, p, n) = <<>>)
Read(h, n, y, x) == IF Reads(h) THEN x = "" /\ Gives(Bytes(h), H(h).pos, n, y) /\ hs' = [hs EXCEPT ![h].pos = @ + Len(y)] /\ UNCHANGED <<tree, data, tmps, priv>>
                    ELSE x = "err" /\ Same
Peek(h, n, y, x) == Same /\ IF Reads(h) THEN x = "" /\ Gives(Bytes(h), H(h).pos, n, y) ELSE x = "err"
ReadAt(h, n, at, y, x) == Same /\ IF Reads(h) THEN x = "" /\ Gives(Bytes(h), at, n, y) ELSE x = "err"
CanRead(h, r) == Same /\ (IF H(h).mode = "w" THEN r = 0 ELSE IF Len(Bytes(h)) > H(h).pos THEN r = 1 ELSE H(h).fgn \/ r = 0)
CanWrite(h, r) == Same /\ r = (IF Writes(h) THEN 1 ELSE 0)
Changed(h, da) == [Foreign(hs, da) EXCEPT ![h].fgn = hs[h].fgn]
WriteAt(h, w, p, seq, r, x) ==
  IF ~Writes(h) THEN x = "err" /\ Same
  ELSE LET at == IF H(h).app THEN Len(Bytes(h)) ELSE p
           da == [data EXCEPT ![H(h).ino].c = Put(@, at, SubSeq(w, 1, r))]
       IN /\ x = "" /\ r \in 1..Len(w) /\ data' = da
          /\ hs' = LET c == Changed(h, da) IN IF seq THEN [c EXCEPT ![h].pos = at + r] ELSE c
          /\ UNCHANGED <<tree, tmps, priv>>
SetSize(h, n, x) == IF ~Writes(h) THEN x = "err" /\ Same
  ELSE LET da == [data EXCEPT ![H(h).ino].c = Size(@, n)] IN x = "" /\ data' = da /\ hs' = Changed(h, da) /\ UNCHANGED <<tree, tmps, priv>>
TellSize(h, r, x) == Same /\ (H(h).open => (x = "" /\ (H(h).fgn \/ r = Len(Bytes(h)))))
Close(h, x) ==
  IF ~H(h).open \/ H(h).mode = "r" THEN Same
  ELSE LET r == IF H(h).com THEN Moved(tree, H(h).np, H(h).tp) ELSE [ok |-> TRUE, tree |-> tree]
       IN x = (IF r.ok THEN "" ELSE "err") /\ tree' = r.tree /\ hs' = [hs EXCEPT ![h].open = FALSE] /\ UNCHANGED <<data, tmps, priv>>
\* the last reference goes away; unw: because of an exception
Dropped(tr, rec, unw) == LET c == IF rec.com /\ rec.open /\ ~unw THEN Moved(tr, rec.np, rec.tp).tree ELSE tr
                         IN IF rec.del # None THEN Gone(c, rec.del).tree ELSE c
Drop(h, unw) == tree' = Dropped(tree, H(h), unw) /\ hs' = [g \in DOMAIN hs \ {h} |-> hs[g]] /\ UNCHANGED <<data, tmps, priv>>
\* ---- temporary files: t names the object, h its stream
Tmp(t, h, p, fixed, r, x) == LET o == Open(p, "w", IF fixed THEN {"create", "excl"} ELSE {"create", "trunc"}) IN
  IF o.ok THEN x = "" /\ r = 1 /\ tree' = o.tree /\ data' = o.data /\ hs' = (h :> o.h) @@ hs /\ tmps' = (t :> p) @@ tmps /\ UNCHANGED priv
  ELSE IF fixed /\ Has(tree, Where(tree, p, FALSE)) THEN x = "" /\ r = 0 /\ tmps' = (t :> p) @@ tmps /\ UNCHANGED <<tree, data, hs, priv>>
  ELSE x = "err" /\ Same
Closed(h) == [g \in DOMAIN hs \ {h} |-> hs[g]]
TmpClose(h) == hs' = Closed(h) /\ UNCHANGED <<tree, data, tmps, priv>>
TmpRename(t, h, p, over, x) == LET r == Move(tmps[t], p, over) IN
  x = (IF r.ok THEN "" ELSE "err") /\ tree' = r.tree /\ hs' = Closed(h) /\ tmps' = (IF r.ok THEN [tmps EXCEPT ![t] = p] ELSE tmps) /\ UNCHANGED <<data, priv>>
TmpDetach(t) == tmps' = [tmps EXCEPT ![t] = None] /\ UNCHANGED <<tree, data, hs, priv>>
TmpDrop(t, h) == tree' = (IF tmps[t] = None THEN tree ELSE Gone(tree, tmps[t]).tree) /\ hs' = Closed(h) /\ tmps' = [g \in DOMAIN tmps \ {t} |-> tmps[g]] /\ UNCHANGED <<data, priv>>
\* ---- mapping of a part of a file: bytes seen, bytes written at k through it
MapOk(p, fm, rm, cow, n) == LET a == Where(tree, p, TRUE) IN
  /\ IsFile(tree, a) /\ (fm = "r" \/ ~Locked(tree[a].ino)) /\ ((fm = "r" /\ n > 0) => (rm = "r" \/ cow))
Map(p, fm, rm, cow, off, n, k, w, y, y2, x) ==
  IF ~MapOk(p, fm, rm, cow, n) THEN x = "err" /\ Same
  ELSE LET i == tree[Where(tree, p, TRUE)].ino s == At(data[i].c, off, n) t == Put(s, k, w) da == IF cow \/ w = <<>> THEN data ELSE [data EXCEPT ![i].c = Put(@, off + k, w)]
       IN /\ x = "" /\ (rm # "w" => (y = s /\ y2 = t)) /\ data' = da /\ hs' = Foreign(hs, da) /\ UNCHANGED <<tree, tmps, priv>>
Find(name, dirs, pos) == LET M == {i \in 1..Len(dirs) : Exists(tree, dirs[i] \o <<name>>)}
                             N == {i \in M : Cardinality({j \in M : j <= i}) = Max(pos, 1)}
                         IN IF N = {} THEN 0 ELSE CHOOSE i \in N : TRUE
Chmod(p, ro) == LET a == Where(tree, p, TRUE) IN
  (IF IsFile(tree, a) THEN data' = [data EXCEPT ![tree[a].ino].ro = ro] ELSE data' = data) /\ UNCHANGED <<tree, hs, tmps, priv>>
WellFormed == /\ IsDir(tree, <<>>) /\ \A p \in DOMAIN tree : p = <<>> \/ IsDir(tree, Front(p))
              /\ \A p \in DOMAIN tree : tree[p].t = "f" => tree[p].ino \in 1..Len(data)
=============================================================================
