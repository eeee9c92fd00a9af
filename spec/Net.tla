---------------------------------- MODULE Net ----------------------------------
(* Network streams: sources of streams which listen or connect, the two ends  *)
(* of every connection, waiting with and without a time limit, and observers  *)
(* told by a listener of events.  End 2c-1 has connected, end 2c has been     *)
(* accepted.  Bytes on their way are runs <<byte, how many>>.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ls,   \* listening sources: how many may still be accepted (-1: any number), who waits for it
          es,   \* ends of connections
          regs  \* observer -> what it waits for
nvars == <<ls, es, regs>>
CONSTANTS Room  \* this many bytes may always be on their way
Other(x) == IF x % 2 = 1 THEN x + 1 ELSE x - 1
RECURSIVE Size(_), Front(_, _), Rest(_, _)
Size(b) == IF b = <<>> THEN 0 ELSE b[1][2] + Size(Tail(b))
Front(b, k) == IF k = 0 \/ b = <<>> THEN <<>> ELSE IF b[1][2] >= k THEN <<<<b[1][1], k>>>> ELSE <<b[1]>> \o Front(Tail(b), k - b[1][2])
Rest(b, k) == IF k = 0 \/ b = <<>> THEN b ELSE IF b[1][2] > k THEN <<<<b[1][1], b[1][2] - k>>>> \o Tail(b) ELSE Rest(Tail(b), k - b[1][2])
Add(b, v, n) == IF n = 0 THEN b ELSE IF b # <<>> /\ b[Len(b)][1] = v THEN [b EXCEPT ![Len(b)] = <<v, @[2] + n>>] ELSE Append(b, <<v, n>>)
IsFront(d, b) == LET k == Size(d) IN k <= Size(b) /\ d = Front(b, k)

Init == ls = <<>> /\ es = <<>> /\ regs = <<>>
\* st: "coming" connected, not yet accepted; "open"; "gone"
\* buf: waits to be read here, fin: nothing follows, broken: the connection was cut, eof: the end has been read here, out: closed for writing
NewEnd(st) == [st |-> st, buf |-> <<>>, fin |-> FALSE, broken |-> FALSE, eof |-> FALSE, out |-> FALSE]
Opened(x) == x \in DOMAIN es /\ es[x].st = "open"
In(x) == es[x].buf # <<>> \/ es[x].fin
Full(x) == Size(es[Other(x)].buf) >= Room
\* what is ready: 1 for reading, 2 for writing
Ready(x) == IF x > 100 THEN (IF ls[x - 100].q # <<>> THEN {1} ELSE {}) ELSE (IF In(x) THEN {1} ELSE {}) \cup {2}
Sure(x) == x > 100 \/ ~Full(x)
Bits(v) == (IF v % 2 = 1 THEN {1} ELSE {}) \cup (IF (v \div 2) % 2 = 1 THEN {2} ELSE {}) \cup (IF v > 3 \/ v < 0 THEN {4} ELSE {})
Told(x, m, v) == /\ Bits(v) \subseteq Ready(x)
                 /\ Ready(x) \cap Bits(m) = {} => v = 0
                 /\ Ready(x) \cap Bits(m) # {} => (Bits(v) \cap Bits(m) # {} \/ (v = 0 /\ ~Sure(x) /\ Ready(x) \cap Bits(m) = {2}))
Exists(x) == IF x > 100 THEN (x - 100) \in DOMAIN ls ELSE Opened(x)
Count == Cardinality(DOMAIN ls) + Cardinality({x \in DOMAIN es : es[x].st = "open"})

Listen(li, lim) == li \notin DOMAIN ls /\ ls' = (li :> [lim |-> lim, q |-> <<>>]) @@ ls /\ UNCHANGED <<es, regs>>
\* nobody listens there: refused; a source may connect as many times as it was told
Connect(li, r, x) == IF li = 0 THEN r = "refused" /\ x = 0 /\ UNCHANGED nvars
                    ELSE /\ r = "ok" /\ x % 2 = 1 /\ x \notin DOMAIN es
                         /\ es' = (x :> NewEnd("open")) @@ (Other(x) :> NewEnd("coming")) @@ es
                         /\ ls' = [ls EXCEPT ![li].q = Append(@, x)] /\ UNCHANGED regs
\* in the order in which they have connected
Accept(li, r, x, has, peer) ==
  /\ has = (ls[li].lim # 0)
  /\ IF ls[li].lim = 0 THEN r = "end" /\ x = 0 /\ UNCHANGED nvars
     ELSE IF ls[li].q = <<>> THEN r = "timeout" /\ x = 0 /\ UNCHANGED nvars
     ELSE LET y == Other(Head(ls[li].q)) IN
          /\ r = "ok" /\ x = y /\ (peer \/ es[y].broken)
          /\ es' = [es EXCEPT ![y].st = "open"]
          /\ ls' = [ls EXCEPT ![li].q = Tail(@), ![li].lim = IF @ > 0 THEN @ - 1 ELSE @] /\ UNCHANGED regs
\* those who wait for it are cut
CloseL(li) == /\ LET Q == {ls[li].q[i] : i \in 1..Len(ls[li].q)} IN
                es' = [x \in DOMAIN es |-> IF x \in Q THEN [es[x] EXCEPT !.broken = TRUE, !.fin = TRUE] ELSE IF Other(x) \in Q THEN [es[x] EXCEPT !.st = "gone"] ELSE es[x]]
             /\ ls' = [k \in DOMAIN ls \ {li} |-> ls[k]] /\ UNCHANGED regs
\* nothing is taken unless it is told how much; what is taken comes to the other end
Write(x, v, n, got, r) ==
  LET e == es[x] y == Other(x) IN
  /\ Opened(x)
  /\ IF e.out THEN r = "error"
     ELSE IF e.eof \/ e.broken \/ es[y].st = "gone" THEN r \in {"ok", "error"}
     ELSE r = "ok" \/ (r = "timeout" /\ Size(es[y].buf) + n > Room)
  /\ (r = "ok") = (got > 0) /\ got <= n
  /\ es' = IF r # "ok" THEN es ELSE IF es[y].st = "gone" THEN [es EXCEPT ![x].broken = TRUE] ELSE [es EXCEPT ![y].buf = Add(@, v, got)]
  /\ UNCHANGED <<ls, regs>>
\* in order, nothing lost, nothing made up, the end only after everything; waiting only when nothing is there
Read(x, n, pk, d, r) ==
  LET e == es[x] k == Size(d) IN
  /\ Opened(x) /\ (r = "data") = (k > 0) /\ k <= n /\ IsFront(d, e.buf)
  /\ IF n = 0 THEN r = "none"
     ELSE IF e.eof THEN r = "eof"
     ELSE IF e.broken THEN r \in {"data", "eof", "error"}
     ELSE IF e.buf # <<>> THEN r = "data"
     ELSE IF e.fin THEN r = "eof"
     ELSE r = "timeout"
  /\ es' = [es EXCEPT ![x].buf = IF pk THEN @ ELSE Rest(@, k), ![x].eof = @ \/ r = "eof"]
  /\ UNCHANGED <<ls, regs>>
CanRead(x, v, r) == /\ Opened(x) /\ UNCHANGED nvars
                    /\ es[x].broken \/ IF es[x].eof THEN ~v /\ r = "ok" ELSE IF es[x].buf # <<>> THEN v /\ r = "ok" ELSE IF es[x].fin THEN ~v /\ r = "ok" ELSE r = "timeout"
CanWrite(x, v) == Opened(x) /\ UNCHANGED nvars /\ v = ~es[x].out
\* bytes which can be read without waiting, at least one when the end can be read
Waits(x, n) == /\ Opened(x) /\ UNCHANGED nvars
               /\ es[x].broken \/ IF es[x].buf # <<>> THEN n \in 1..Size(es[x].buf) ELSE IF In(x) \/ es[x].eof THEN n > 0 ELSE n = 0
\* m: 0 is what the resource usually waits for.  A handler is asked instead, and told for what
Wait(x, m, v, asked, pass) == /\ Exists(x) /\ UNCHANGED nvars /\ asked
                              /\ IF ~pass THEN v = 0 ELSE (x < 100 /\ es[x].broken) \/ Told(x, m, v)
CloseOut(x, r) == /\ Opened(x) /\ (r = "ok" \/ es[x].broken)
                  /\ es' = [es EXCEPT ![x].out = TRUE, ![Other(x)].fin = TRUE] /\ UNCHANGED <<ls, regs>>
\* dropped with something not read: the other end is cut
Drop(x) == /\ Opened(x)
           /\ es' = [es EXCEPT ![x].st = "gone", ![Other(x)].fin = TRUE, ![Other(x)].broken = @ \/ es[x].buf # <<>>] /\ UNCHANGED <<ls, regs>>
\* an observer is told once, of what is ready and it waits for, or 0 when its time has elapsed
Watch(o, x, m, tm) == Exists(x) /\ regs' = (o :> [x |-> x, m |-> m, tm |-> tm]) @@ regs /\ UNCHANGED <<ls, es>>
Hit(o) == Ready(regs[o].x) \cap Bits(regs[o].m)
Sig(o, ev, ms) == /\ o \in DOMAIN regs
                  /\ IF ev = 0 THEN regs[o].tm >= 0 /\ ms >= regs[o].tm - 3 ELSE Bits(ev) \subseteq Hit(o)
                  /\ regs' = [k \in DOMAIN regs \ {o} |-> regs[k]] /\ UNCHANGED <<ls, es>>
\* nothing came although it was waited for (slack: how late it may come)
Quiet(o, ms, slack) == UNCHANGED nvars /\ (o \in DOMAIN regs => Hit(o) = {} /\ (regs[o].tm < 0 \/ ms < regs[o].tm + slack))
Unwatch(o) == o \in DOMAIN regs /\ regs' = [k \in DOMAIN regs \ {o} |-> regs[k]] /\ UNCHANGED <<ls, es>>
================================================================================
