----------------------------- MODULE DiskTrace -----------------------------
EXTENDS Disk, TraceBase
ToSet(s) == {s[i] : i \in 1..Len(s)}
TInit == TBInit /\ Init /\ priv = Cfg.priv
Info(e) == [t |-> e.t, link |-> e.link, hidden |-> e.hidden, size |-> e.size, mode |-> e.mode, sub |-> e.sub]
Act == CASE E.op = "mkdir" -> Apply(MkDir(E.p, E.b), E.x)
         [] E.op = "rmdir" -> Apply(RmDir(E.p, E.b), E.x)
         [] E.op = "remove" -> Apply(Remove(E.p), E.x)
         [] E.op = "erase" -> Apply(Erase(E.p, E.b), E.x)
         [] E.op = "copy" -> Apply(Copy(E.p, E.q, E.b), E.x)
         [] E.op = "move" -> Apply(Move(E.p, E.q, E.b), E.x)
         [] E.op = "link" -> Apply(MkLink(E.p, E.q, E.b), E.x)
         [] E.op = "chmod" -> Chmod(E.p, E.b)
         [] E.op = "can" -> Same /\ E.x = "" /\ E.r = (IF Can(E.p, E.m) THEN 1 ELSE 0)
         [] E.op = "find" -> Same /\ LET i == Find(E.m, E.dirs, E.n) IN IF i = 0 THEN E.r = 0 ELSE E.r > 0 /\ E.dirs[E.r] = E.dirs[i]
         [] E.op = "info" -> Same /\ IF Exists(tree, E.p) THEN E.x = "" /\ E.b /\ Info(E.i) = About(E.p, Last(E.p)) ELSE E.x = "err"
         [] E.op = "list" -> Same /\ IF IsDir(tree, Where(tree, E.p, TRUE)) THEN E.x = "" /\ E.b /\ Len(E.is) = Cardinality(Listing(E.p)) /\ {<<E.is[i].name, Info(E.is[i])>> : i \in 1..Len(E.is)} = Listing(E.p)
                                     ELSE E.x = "err"
         [] E.op = "open" -> IF E.kind = "seq" /\ E.m = "rw" THEN E.x = "err" /\ Same ELSE OpenDo(E.h, E.p, E.m, ToSet(E.fl), E.x)
         [] E.op = "read" -> Read(E.h, E.n, E.y, E.x)
         [] E.op = "peek" -> Peek(E.h, E.n, E.y, E.x)
         [] E.op = "readat" -> ReadAt(E.h, E.n, E.at, E.y, E.x)
         [] E.op = "canread" -> CanRead(E.h, E.r)
         [] E.op = "canwrite" -> CanWrite(E.h, E.r)
         [] E.op = "write" -> WriteAt(E.h, E.w, H(E.h).pos, TRUE, E.r, E.x)
         [] E.op = "writeat" -> WriteAt(E.h, E.w, E.at, FALSE, E.r, E.x)
         [] E.op = "setsize" -> SetSize(E.h, E.n, E.x)
         [] E.op = "size" -> TellSize(E.h, E.r, E.x)
         [] E.op = "flush" -> Same
         [] E.op = "close" -> Close(E.h, E.x)
         [] E.op = "drop" -> Drop(E.h, E.b)
         [] E.op = "map" -> Map(E.p, E.m, E.rm, E.b, E.at, E.n, E.k, E.w, E.y, E.y2, E.x)
         [] E.op = "tmp" -> Tmp(E.t, E.h, E.p, E.b, E.r, E.x)
         [] E.op = "tmpclose" -> TmpClose(E.h)
         [] E.op = "tmprename" -> TmpRename(E.t, E.h, E.p, E.b, E.x)
         [] E.op = "tmpdetach" -> TmpDetach(E.t)
         [] E.op = "tmpdrop" -> TmpDrop(E.t, E.h)
         [] OTHER -> FALSE
\* what the disk looks like after it
Seen == /\ {<<s.p, s.t, s.to, s.y>> : s \in ToSet(E.snap)} = {<<p, tree'[p].t, tree'[p].to, IF tree'[p].t = "f" THEN data'[tree'[p].ino].c ELSE <<>>>> : p \in DOMAIN tree' \ {<<>>}}
        /\ E.fds = Cardinality({h \in DOMAIN hs' : hs'[h].open})
TNext == More /\ E.e = "op" /\ Act /\ Seen /\ Step
TSpec == TInit /\ [][TNext]_<<dvars, tvars>>
=============================================================================
