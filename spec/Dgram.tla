--------------------------------- MODULE Dgram ---------------------------------
(* Datagrams between two sources (1 and 2): every one has what was received,  *)
(* what is to be sent, and where (0: nowhere).                                *)
EXTENDS Net
VARIABLES dq,  \* what comes to each source
          ds   \* datagrams
dgvars == <<dq, ds>>
DInit == dq = <<<<>>, <<>>>> /\ ds = <<>>
NewD(s, to, in) == [s |-> s, to |-> to, in |-> in, pos |-> 0, out |-> <<>>, uid |-> -1]
DNew(d, s, to) == d \notin DOMAIN ds /\ ds' = (d :> NewD(s, to, <<>>)) @@ ds /\ UNCHANGED dq
\* in the order in which they were sent, whole, from whom
DRecv(s, d, r, from, n) == IF dq[s] = <<>> THEN r = "timeout" /\ d = 0 /\ UNCHANGED dgvars
                           ELSE LET h == Head(dq[s]) IN
                                /\ r = "ok" /\ from = h.from /\ n = Size(h.data) /\ d \notin DOMAIN ds
                                /\ ds' = (d :> NewD(s, h.from, h.data)) @@ ds /\ dq' = [dq EXCEPT ![s] = Tail(@)]
DWrite(d, v, n, got, out) == got = n /\ ds' = [ds EXCEPT ![d].out = Add(@, v, n)] /\ out = ds'[d].out /\ UNCHANGED dq
DRead(d, n, pk, y) == LET w == Front(Rest(ds[d].in, ds[d].pos), n) IN
                      y = w /\ ds' = [ds EXCEPT ![d].pos = IF pk THEN @ ELSE @ + Size(w)] /\ UNCHANGED dq
DOp(d, op) == /\ CASE op = "rewind" -> ds' = [ds EXCEPT ![d].pos = 0]
                   [] op = "clear" -> ds' = [ds EXCEPT ![d].out = <<>>]
                   [] op = "reset" -> ds' = [ds EXCEPT ![d].to = 0]
              /\ UNCHANGED dq
\* numbers of datagrams of one source grow
DUid(d, u, u2) == /\ u = u2 /\ u >= 0
                  /\ IF ds[d].uid >= 0 THEN u = ds[d].uid ELSE \A k \in DOMAIN ds : ds[k].s = ds[d].s => ds[k].uid < u
                  /\ ds' = [ds EXCEPT ![d].uid = u] /\ UNCHANGED dq
DTo(d, to, c1, c2) == to = ds[d].to /\ c1 = (to = 1) /\ c2 = (to = 2) /\ UNCHANGED dgvars
\* sent once: it has no target then
DSend(d, to, r) == LET t == IF to > 0 THEN to ELSE ds[d].to IN
                   IF t = 0 THEN r # "ok" /\ UNCHANGED dgvars
                   ELSE r = "ok" /\ dq' = [dq EXCEPT ![t] = Append(@, [from |-> ds[d].s, data |-> ds[d].out])] /\ ds' = [ds EXCEPT ![d].to = 0]
DDrop(d) == ds' = [k \in DOMAIN ds \ {d} |-> ds[k]] /\ UNCHANGED dq
================================================================================
