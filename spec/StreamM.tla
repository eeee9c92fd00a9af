------------------------------ MODULE StreamM ------------------------------
(* Closed model: the source gives 1, 2, 3, ...; 101, 102, ... are written.    *)
(* What was given to the reader and what is still buffered is the source; what*)
(* was passed on and what waits is what was written.                          *)
EXTENDS Stream
CONSTANTS Cap, MaxSrc, MaxOut
VARIABLES got, sent, nsrc, nw
mvars == <<got, sent, nsrc, nw>>
MInit == Init /\ caps = <<Cap, Cap>> /\ auto \in BOOLEAN /\ got = <<>> /\ sent = [b \in {0, 1} |-> <<>>] /\ nsrc = 0 /\ nw = [b \in {0, 1} |-> 0]
Nums(from, n) == [i \in 1..n |-> from + i]
MCall == \E b \in {0, 1} : /\ UNCHANGED mvars
            /\ \/ b = 0 /\ \E o \in Pulling, n \in 1..2 : Call(o, b, n, <<>>)
               \/ \E o \in {"write", "writeall"}, n \in 1..2 : nw[b] + n <= MaxOut /\ b \notin closed \cup dead /\ Call(o, b, n, Nums(100 + nw[b], n))
               \/ \E o \in {"flush", "close", "destroy"} : b \notin closed \cup dead /\ Call(o, b, 0, <<>>)
               \/ b = 0 /\ \E n \in 1..Min(2, Len(got)) : Call("putback", 0, n, SubSeq(got, Len(got) - n + 1, Len(got)))
               \/ b = 0 /\ Call("discardin", 0, 1, <<>>)
MPull == \E k \in 0..2, rd \in {0, 1} : /\ nsrc + k <= MaxSrc /\ (k > 0 \/ nsrc = MaxSrc) /\ Len(in) + k <= Cap /\ Pull(2, Nums(nsrc, k), rd) /\ nsrc' = nsrc + k /\ UNCHANGED <<got, sent, nw>>
MPullErr == PullErr(1) /\ UNCHANGED mvars
MPush == \E b \in {0, 1} : LET all == out[b] \o (IF op.b = b /\ op.op \in {"write", "writeall"} THEN op.w ELSE <<>>)
            IN \E n \in 1..Len(all) : \E k \in {0 - 1} \cup 0..n : Push(b, SubSeq(all, 1, n), k) /\ sent' = [sent EXCEPT ![b] = @ \o SubSeq(all, 1, Max(k, 0))] /\ UNCHANGED <<got, nsrc, nw>>
MTFlush == \E b \in {0, 1} : ~op.tf /\ TFlush(b) /\ UNCHANGED mvars
MTClose == \E b \in {0, 1} : TClose(b) /\ UNCHANGED mvars
MRet == \E r \in 0..3, n \in 0..2, x \in {"", "err", "nospace"} : /\ n <= Len(in)
           /\ Ret(r, SubSeq(in, 1, n), x) /\ nsrc' = nsrc
           /\ got' = (IF op.op \in {"read", "readall"} /\ x = "" THEN got \o SubSeq(in, 1, n) ELSE IF op.op = "discardin" THEN got \o Head_(in, op.n) ELSE IF op.op = "putback" /\ x = "" THEN SubSeq(got, 1, Len(got) - op.n) ELSE got)
           /\ nw' = [nw EXCEPT ![op.b] = IF op.op \in {"write", "writeall"} THEN (@ + op.dw + Len(out'[op.b]) - Len(out[op.b])) ELSE @] /\ sent' = sent
MNext == MCall \/ MPull \/ MPullErr \/ MPush \/ MTFlush \/ MTClose \/ MRet
MSpec == MInit /\ [][MNext]_<<svars, mvars>>
ReadRight == got \o in = Nums(0, nsrc)
WriteRight == op.op = "none" => \A b \in {0, 1} : b \notin dead => sent[b] \o out[b] = Nums(100, nw[b])
SentRight == \A b \in {0, 1} : sent[b] = Nums(100, Len(sent[b]))
Bounded == Len(got) <= MaxSrc
\* nobody waits for the other side while it may be waiting for what was written
NoDeadlock == [][nsrc' # nsrc => (Flushed(0) /\ (auto => Flushed(1)))]_<<svars, mvars>>
=============================================================================
