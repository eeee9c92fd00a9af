-------------------------------- MODULE DiskM --------------------------------
(* A small disk: every way of using two names, one of them also below the     *)
(* other, and one open file.                                                  *)
EXTENDS Disk
CONSTANTS MaxFiles, MaxLen, Deep
VARIABLES act, done
mvars == <<dvars, act, done>>
Paths == {<<"a">>, <<"b">>} \cup (IF Deep THEN {<<"a", "b">>} ELSE {})
X == {"", "err"}
MInit == Init /\ priv = FALSE /\ act = <<"init">> /\ done = ""
Do(a, x) == act' = a /\ done' = x
Some == Len(data) < MaxFiles
MMkDir == \E p \in Paths, all \in BOOLEAN, x \in X : Apply(MkDir(p, all), x) /\ Do(<<"mkdir", p>>, x)
MRmDir == \E p \in Paths, all \in BOOLEAN, x \in X : Apply(RmDir(p, all), x) /\ Do(<<"rmdir", p>>, x)
MRemove == \E p \in Paths, x \in X : Apply(Remove(p), x) /\ Do(<<"remove", p>>, x)
MMove == \E p, q \in Paths, over \in BOOLEAN, x \in X : Apply(Move(p, q, over), x) /\ Do(<<"move", p, q, over>>, x)
MCopy == (Some \/ (Deep /\ Len(data) = MaxFiles)) /\ \E p, q \in Paths, over \in BOOLEAN, x \in X : Apply(Copy(p, q, over), x) /\ Do(<<"copy", p, q, over>>, x)
MLink == \E p, q \in Paths, over \in BOOLEAN, x \in X : p # q /\ Apply(MkLink(p, q, over), x) /\ Do(<<"link", p, q>>, x)
MLock == (~Deep \/ data = <<>>) /\ \E p \in Paths, ro \in BOOLEAN : Chmod(p, ro) /\ Do(<<"chmod", p>>, "")
MOpen == Some /\ hs = <<>> /\ \E p \in Paths, m \in {"r", "w"}, fl \in {{}, {"create"}, {"create", "trunc"}, {"create", "excl"}, {"create", "mkdirs"}, {"commit"}, {"create", "del"}}, x \in X :
  OpenDo(1, p, m, fl, x) /\ Do(<<"open", p, m, fl>>, x)
MWrite == \E h \in DOMAIN hs, v \in {1, 2}, x \in X : hs[h].ino > 0 /\ Len(Bytes(h)) < MaxLen /\ WriteAt(h, <<v>>, H(h).pos, TRUE, 1, x) /\ Do(<<"write", h>>, x)
MClose == \E h \in DOMAIN hs, x \in X : Close(h, x) /\ Do(<<"close", h>>, x)
MDrop == \E h \in DOMAIN hs, unw \in BOOLEAN : Drop(h, unw) /\ Do(<<"drop", h, unw>>, "")
MNext == MMkDir \/ MRmDir \/ MRemove \/ MMove \/ MCopy \/ MLink \/ MLock \/ MOpen \/ MWrite \/ MClose \/ MDrop
MSpec == MInit /\ [][MNext]_mvars
Small == Deep => Cardinality({p \in DOMAIN tree : tree[p].t = "l"}) <= 2 /\ Cardinality(DOMAIN tree) <= 5
Inos(tr) == {tr[p].ino : p \in {q \in DOMAIN tr : tr[q].t = "f"}}
Con(tr, da, p) == da[tr[p].ino].c
\* what fails changes nothing that was there
FailsClean == [][done' = "err" => (\A p \in DOMAIN tree : p \in DOMAIN tree' /\ tree'[p] = tree[p]) /\ \A i \in DOMAIN data : data'[i] = data[i]]_mvars
\* removing of a folder takes what is in it and nothing else
OnlyBelow == [][act'[1] = "rmdir" /\ done' = "" => LET a == Where(tree, act'[2], FALSE) IN DOMAIN tree' = {q \in DOMAIN tree : ~Prefix(a, q)} /\ \A q \in DOMAIN tree' : tree'[q] = tree[q]]_mvars
\* moving without permission to overwrite loses no file; no move changes bytes of a file
MoveKeeps == [][act'[1] = "move" => data' = data /\ (~act'[4] => Inos(tree) = Inos(tree'))]_mvars
\* until it is closed, a file being replaced keeps its old bytes
Whole == [][\A p \in Paths : (IsFile(tree, p) /\ \E h \in DOMAIN hs : hs[h].com /\ act' = <<"write", h>>) => IsFile(tree', p) /\ Con(tree', data', p) = Con(tree, data, p)]_mvars
\* when it is closed, the target is what has been written; unwinding does not replace it
Replaced == [][/\ (act' = <<"close", 1>> /\ done' = "" /\ hs[1].com /\ hs[1].open /\ Has(tree, hs[1].np) /\ tree[hs[1].np].t = "f") => LET q == Where(tree', hs[1].tp, FALSE) IN IsFile(tree', q) /\ ~Has(tree', hs[1].np)
               /\ act' = <<"drop", 1, TRUE>> => \A p \in Paths : (Has(tree, p) /\ hs[1].del = None) => Has(tree', p) /\ tree'[p] = tree[p]]_mvars
\* a new file is asked for: it is not one which was there
New == [][(act'[1] = "open" /\ done' = "" /\ "excl" \in act'[4]) => hs'[1].ino \notin Inos(tree)]_mvars
=============================================================================
