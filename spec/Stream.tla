------------------------------- MODULE Stream -------------------------------
(* A buffer over a pair of streams (buffer 0, both directions) and an output  *)
(* buffer (1) which may be connected to it.  in: fetched and not yet read;    *)
(* out[b]: written and not yet passed on.  An operation pulls from the source *)
(* and pushes to the targets between its call and its return.                 *)
EXTENDS Integers, Sequences
VARIABLES in, eof, out, dead, closed, auto, op, safe, room, resv, caps
svars == <<in, eof, out, dead, closed, auto, op, safe, room, resv, caps>>
Head_(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Pulling == {"read", "readall", "peek", "canread", "fetch"}
NoOp == [op |-> "none", b |-> 0, n |-> 0, w |-> <<>>, dw |-> 0, pn |-> 0, np |-> FALSE, tf |-> FALSE, tc |-> FALSE, err |-> FALSE]
Init == /\ in = <<>> /\ eof = FALSE /\ out = [b \in {0, 1} |-> <<>>] /\ dead = {} /\ closed = {}
        /\ op = NoOp /\ safe = 0 /\ room = 0 - 1 /\ resv = 0
Call(o, b, n, w) == /\ op.op = "none" /\ op' = [NoOp EXCEPT !.op = o, !.b = b, !.n = n, !.w = w]
                    /\ UNCHANGED <<in, eof, out, dead, closed, auto, safe, room, resv, caps>>
Flushed(b) == b \in dead \/ out[b] = <<>>
\* the source is asked only when there is a need, nothing waits in the outputs and its end was not seen
MayPull(rd) == /\ op.op \in Pulling /\ ~eof /\ Flushed(0) /\ (auto => Flushed(1)) /\ ~op.err
               /\ CASE op.op \in {"read", "canread"} -> in = <<>>
                    [] op.op = "peek" -> in = <<>> \/ (rd > 0 /\ Len(in) < op.n)
                    [] op.op = "readall" -> Len(in) < op.n
                    [] op.op = "fetch" -> op.pn = 0 /\ Len(in) < caps[1]
Pull(n, y, rd) == /\ MayPull(rd) /\ n > 0 /\ Len(y) <= n
                  /\ in' = in \o y /\ eof' = (y = <<>>)
                  /\ op' = [op EXCEPT !.pn = @ + Len(y)]
                  /\ safe' = CASE op.op \in {"read", "canread"} -> resv [] op.op = "readall" -> resv - Len(in) [] OTHER -> 0
                  /\ UNCHANGED <<out, dead, closed, auto, room, resv, caps>>
PullErr(rd) == /\ MayPull(rd) /\ op' = [op EXCEPT !.err = TRUE] /\ safe' = 0 /\ UNCHANGED <<in, eof, out, dead, closed, auto, room, resv, caps>>
\* what is passed on is the next of what was written; k < 0: the target failed
MayPush(b) == (op.b = b /\ op.op \in Pulling \cup {"write", "writeall", "flush", "close", "destroy", "putback"}) \/ (auto /\ b = 1 /\ op.op \in Pulling)
Push(b, y, k) == /\ MayPush(b) /\ ~op.err /\ y # <<>> /\ (b \notin closed \/ op.op = "destroy") /\ (b \in dead => k = 0)
                 /\ LET rest == IF op.b = b /\ op.op \in {"write", "writeall"} THEN op.w ELSE <<>>
                        d == Max(0, k - Len(out[b]))
                    IN /\ (b \in dead \/ Prefix(y, out[b] \o rest)) /\ k <= Len(y)
                       /\ out' = [out EXCEPT ![b] = IF k = 0 THEN <<>> ELSE Drop(@, Max(k, 0))]
                       /\ op' = [op EXCEPT !.w = Drop(@, d), !.dw = @ + d, !.np = TRUE, !.err = k < 0]
                 /\ dead' = IF k = 0 THEN dead \cup {b} ELSE dead
                 /\ UNCHANGED <<in, eof, closed, auto, safe, room, resv, caps>>
TFlush(b) == /\ op.op \in {"flush"} \cup Pulling /\ Flushed(b) /\ op' = [op EXCEPT !.tf = (@ \/ b = op.b)] /\ UNCHANGED <<in, eof, out, dead, closed, auto, safe, room, resv, caps>>
TClose(b) == /\ op.op = "close" /\ b = op.b /\ (Flushed(b) \/ op.err) /\ ~op.tc /\ op' = [op EXCEPT !.tc = TRUE]
             /\ UNCHANGED <<in, eof, out, dead, closed, auto, safe, room, resv, caps>>
Find(s, p, from) == LET M == {i \in from..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p} IN IF p = <<>> THEN 0 ELSE IF M = {} THEN 0 - 1 ELSE CHOOSE i \in M : \A j \in M : i <= j
Done == op' = NoOp
Keep == UNCHANGED <<in, eof, out, dead, closed, auto, safe, resv, caps>>
NoRoom == room' = 0 - 1
\* the operation ends; r is its number, y its bytes, x its exception
Ret(r, y, x) == /\ op.op # "none" /\ Done
  /\ (IF op.op \in {"avail"} THEN room' = r ELSE NoRoom)
  /\ IF (op.op # "destroy" /\ (x = "err") # op.err) \/ (x = "nospace" /\ op.op \notin {"putback", "discardout"}) THEN FALSE
     ELSE IF op.err /\ op.op \notin {"write", "writeall", "destroy", "close"} THEN Keep
     ELSE CASE op.op \in {"read", "readall"} -> /\ Prefix(y, in) /\ Len(y) <= op.n
                                /\ ((IF op.op = "read" THEN y # <<>> ELSE Len(y) = op.n) \/ (eof /\ y = in))
                                /\ in' = Drop(in, Len(y)) /\ safe' = safe + Len(y) /\ UNCHANGED <<eof, out, dead, closed, auto, resv, caps>>
            [] op.op = "peek" -> /\ y = Head_(in, op.n) /\ (in = <<>> => eof) /\ r = (IF op.n = 0 THEN Len(in) ELSE Len(y)) /\ Keep
            [] op.op = "canread" -> r = (IF in # <<>> THEN 1 ELSE 0) /\ (in = <<>> => eof) /\ Keep
            [] op.op = "canwrite" -> (op.b \in dead \/ r = (IF op.b \in closed THEN 0 ELSE 1)) /\ Keep
            [] op.op = "fetch" -> r = op.pn /\ (r = 0 => (eof \/ Len(in) >= caps[1])) /\ Keep
            [] op.op = "lookup" -> /\ r = Find(in, op.w, IF op.n < 0 THEN 0 ELSE Max(0, Len(in) - (op.n + Len(op.w) - 1))) /\ Keep
            [] op.op = "putback" -> /\ (x = "" \/ (x = "nospace" /\ Len(op.w) > safe))
                                    /\ (IF x = "" THEN in' = op.w \o in /\ safe' = Max(0, safe - Len(op.w)) ELSE UNCHANGED <<in, safe>>)
                                    /\ UNCHANGED <<eof, out, dead, closed, auto, resv, caps>>
            [] op.op = "ilen" -> r = Len(in) /\ y = in /\ Keep
            [] op.op = "discardin" -> in' = Drop(in, op.n) /\ safe' = safe + Min(op.n, Len(in)) /\ UNCHANGED <<eof, out, dead, closed, auto, resv, caps>>
            [] op.op = "olen" -> (op.b \in dead \/ r = Len(out[op.b])) /\ Keep
            [] op.op = "avail" -> r \in 0..caps[op.b + 1] /\ Keep
            [] op.op = "ready" -> (IF in # <<>> THEN r \in 1..Len(in) ELSE eof => r = 1) /\ Keep
            [] op.op = "reserve" -> resv' = Min(op.n, caps[1] \div 2) /\ UNCHANGED <<in, eof, out, dead, closed, auto, safe, caps>>
            [] op.op \in {"write", "writeall"} ->
                  /\ \E a \in 0..Len(op.w) : /\ (IF x = "err" THEN (op.op = "write" => a = 0 /\ op.dw = 0) ELSE r = op.dw + a)
                        /\ (x = "" /\ op.b \notin dead => (IF op.op = "write" THEN r > 0 ELSE a = Len(op.w)))
                        /\ out' = [out EXCEPT ![op.b] = @ \o Head_(op.w, a)]
                  /\ (room >= 0 /\ op.op = "write" /\ op.n < room => ~op.np)
                  /\ UNCHANGED <<in, eof, dead, closed, auto, safe, resv, caps>>
            [] op.op = "discardout" -> /\ IF x = "" THEN op.n <= Len(out[op.b]) /\ out' = [out EXCEPT ![op.b] = Head_(@, Len(@) - op.n)] ELSE op.n > Len(out[op.b]) /\ out' = out
                                       /\ UNCHANGED <<in, eof, dead, closed, auto, safe, resv, caps>>
            [] op.op = "flush" -> op.tf /\ Flushed(op.b) /\ Keep
            [] op.op = "close" -> op.tc /\ (op.err \/ Flushed(op.b)) /\ closed' = closed \cup {op.b} /\ UNCHANGED <<in, eof, out, dead, auto, safe, resv, caps>>
            [] op.op = "destroy" -> (op.err \/ Flushed(op.b)) /\ x = "" /\ Keep
            [] OTHER -> FALSE
=============================================================================
