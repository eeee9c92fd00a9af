---------------------------------- MODULE NetM ---------------------------------
(* A small network: one listening source, a few connections, an observer;     *)
(* every byte sent by an end is numbered.                                     *)
EXTENDS Dgram
CONSTANTS MaxConn, MaxSent, WithWatch, WithDgram
VARIABLES sent, got, \* end -> bytes written and read there so far
          came,      \* order of connecting, and of being accepted
          act
mvars == <<nvars, dgvars, sent, got, came, act>>
view == <<nvars, dgvars, sent, got, came>>
Ends == 1..(2 * MaxConn)
MInit == /\ ls = (1 :> [lim |-> MaxConn, q |-> <<>>]) /\ es = <<>> /\ regs = <<>> /\ DInit
         /\ sent = [x \in Ends |-> 0] /\ got = [x \in Ends |-> <<>>] /\ came = <<<<>>, <<>>>> /\ act = <<"init">>
Keep == UNCHANGED <<sent, got, came>>
ND == UNCHANGED dgvars
RECURSIVE Flat(_)
Flat(b) == IF b = <<>> THEN <<>> ELSE [i \in 1..b[1][2] |-> b[1][1]] \o Flat(Tail(b))
MConnect == /\ Cardinality(DOMAIN es) < 2 * MaxConn /\ LET x == Cardinality(DOMAIN es) + 1 IN \E li \in {0} \cup DOMAIN ls, r \in {"ok", "refused"} : LET c == IF r = "ok" THEN x ELSE 0 IN Connect(li, r, c) /\ act' = <<"connect", li, r>> /\ came' = [came EXCEPT ![1] = IF c = 0 THEN @ ELSE Append(@, c)]
            /\ UNCHANGED <<sent, got>> /\ ND
MAccept == \E li \in DOMAIN ls, r \in {"ok", "timeout", "end"}, x \in {0} \cup Ends, has \in BOOLEAN, peer \in BOOLEAN : Accept(li, r, x, has, peer) /\ act' = <<"accept", li, r, x>> /\ came' = [came EXCEPT ![2] = IF r = "ok" THEN Append(@, Other(x)) ELSE @] /\ UNCHANGED <<sent, got>> /\ ND
MCloseL == \E li \in DOMAIN ls : CloseL(li) /\ act' = <<"closel">> /\ (regs = <<>> \/ \A o \in DOMAIN regs : regs[o].x < 100) /\ Keep /\ ND
MWrite == \E x \in DOMAIN es, r \in {"ok", "timeout", "error"}, k \in 0..1 : sent[x] < MaxSent /\ Write(x, sent[x] + 1, 1, k, r) /\ act' = <<"write", x, r>> /\ sent' = [sent EXCEPT ![x] = @ + k] /\ UNCHANGED <<got, came>> /\ ND
MRead == \E x \in DOMAIN es, n \in 0..2, pk \in BOOLEAN, k \in 0..2, r \in {"data", "eof", "none", "timeout", "error"} : LET d == Front(es[x].buf, k) IN Size(d) = k /\ Read(x, n, pk, d, r) /\ act' = <<"read", x, n, pk, r>> /\ got' = [got EXCEPT ![x] = IF pk THEN @ ELSE @ \o Flat(d)] /\ UNCHANGED <<sent, came>> /\ ND
MWait == \E x \in DOMAIN es \cup {101}, m \in 1..3, v \in 0..3 : (x = 101 => 1 \in DOMAIN ls /\ m = 1) /\ Wait(x, m, v, TRUE, TRUE) /\ act' = <<"wait", x, m, v>> /\ Keep /\ ND
MCloseOut == \E x \in DOMAIN es : CloseOut(x, "ok") /\ act' = <<"closeout", x>> /\ Keep /\ ND
MDrop == \E x \in DOMAIN es : (\A o \in DOMAIN regs : regs[o].x # x) /\ Drop(x) /\ act' = <<"drop", x>> /\ Keep /\ ND
MWatch == WithWatch /\ \E x \in DOMAIN es \cup {101}, m \in 1..3, tm \in {-1, 5} : (x = 101 => 1 \in DOMAIN ls /\ m = 1) /\ 1 \notin DOMAIN regs /\ Watch(1, x, m, tm) /\ act' = <<"watch", x, m, tm>> /\ Keep /\ ND
MSig == \E ev \in 0..3 : Sig(1, ev, 5) /\ act' = <<"sig", ev, regs[1]>> /\ Keep /\ ND
MUnwatch == Unwatch(1) /\ act' = <<"unwatch">> /\ Keep /\ ND
NS == UNCHANGED <<nvars, sent, got, came>>
MDNew == WithDgram /\ Cardinality(DOMAIN ds) < 2 /\ \E s \in 1..2, to \in 0..2 : DNew(Cardinality(DOMAIN ds) + 1, s, to) /\ act' = <<"dnew">> /\ NS
MDWrite == \E d \in DOMAIN ds : Size(ds[d].out) < MaxSent /\ DWrite(d, d, 1, 1, Add(ds[d].out, d, 1)) /\ act' = <<"dwrite", d>> /\ NS
MDSend == \E d \in DOMAIN ds, to \in 0..2, r \in {"ok", "other"} : ds[d].out # <<>> /\ Len(dq[1]) + Len(dq[2]) < 2 /\ DSend(d, to, r) /\ act' = <<"dsend", d, to, r>> /\ NS
MDRecv == \E s \in 1..2, r \in {"ok", "timeout"}, from \in 0..2, n \in 0..MaxSent : WithDgram /\ Cardinality(DOMAIN ds) < 3 /\ DRecv(s, IF r = "ok" THEN Cardinality(DOMAIN ds) + 1 ELSE 0, r, from, n) /\ act' = <<"drecv", s, r>> /\ NS
MDRead == \E d \in DOMAIN ds, pk \in BOOLEAN : DRead(d, 1, pk, Front(Rest(ds[d].in, ds[d].pos), 1)) /\ act' = <<"dread", d>> /\ NS
MDOp == \E d \in DOMAIN ds, op \in {"rewind", "clear", "reset"} : DOp(d, op) /\ act' = <<op, d>> /\ NS
MNext == MConnect \/ MAccept \/ MCloseL \/ MWrite \/ MRead \/ MWait \/ MCloseOut \/ MDrop \/ MWatch \/ MSig \/ MUnwatch \/ MDNew \/ MDWrite \/ MDSend \/ MDRecv \/ MDRead \/ MDOp
MSpec == MInit /\ [][MNext]_mvars
NTcp == MConnect \/ MAccept \/ MCloseL \/ MWrite \/ MRead \/ MWait \/ MCloseOut \/ MDrop
SpecConn == MInit /\ [][MConnect \/ MAccept \/ MCloseL \/ MDrop \/ MCloseOut]_mvars
SpecTcp == MInit /\ [][NTcp]_mvars
SpecTell == MInit /\ [][NTcp \/ MWatch \/ MSig \/ MUnwatch]_mvars
SpecDg == MInit /\ [][MDNew \/ MDWrite \/ MDSend \/ MDRecv \/ MDRead \/ MDOp]_mvars
\* bytes come in order; unless the connection was cut, all of them
Upto(n) == [i \in 1..n |-> i]
InOrder == \A x \in DOMAIN es : LET all == got[x] \o Flat(es[x].buf) IN Len(all) <= sent[Other(x)] /\ all = Upto(Len(all))
Complete == \A x \in DOMAIN es : ~es[x].broken /\ ~es[Other(x)].broken /\ es[x].st # "gone" => Len(got[x]) + Size(es[x].buf) = sent[Other(x)]
EndIsEnd == \A x \in DOMAIN es : es[x].eof /\ ~es[x].broken => es[x].fin /\ es[x].buf = <<>> /\ (es[Other(x)].out \/ es[Other(x)].st = "gone")
\* accepted in the order of connecting, no more than the limit
Fifo == came[2] = SubSeq(came[1], 1, Len(came[2])) /\ (1 \in DOMAIN ls => ls[1].lim >= 0 /\ ls[1].lim + Len(came[2]) = MaxConn)
\* an end nobody closed or cut is never told to be at its end, and no wait elapses while something is there
OnlyThen == [][/\ (act'[1] = "read" /\ act'[5] = "timeout") => ~In(act'[2]) /\ ~es[act'[2]].broken
               /\ (act'[1] = "read" /\ act'[5] = "eof") => es[act'[2]].fin \/ es[act'[2]].broken
               /\ (act'[1] = "sig" /\ act'[2] # 0) => Bits(act'[2]) \subseteq (Ready(act'[3].x) \cap Bits(act'[3].m))
               /\ (act'[1] = "sig" /\ act'[2] = 0) => act'[3].tm >= 0
               /\ (act'[1] = "write" /\ act'[3] = "timeout") => Full(act'[2])]_mvars
Sent == \A s \in 1..2 : \A i \in 1..Len(dq[s]) : dq[s][i].data # <<>>
Once == \A d \in DOMAIN ds : ds[d].pos <= Size(ds[d].in)
================================================================================
