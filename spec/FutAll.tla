------------------------------- MODULE FutAll -------------------------------
(* f && g: the combined future is decided exactly once: by the pair of both  *)
(* results, or by the first refusal.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads
VARIABLES r,      \* [0..1 -> result], 0 = none, negative = refused
          first,  \* refusals in order
          settled,\* parts whose resolving call has returned
          pend, out
fvars == <<r, first, settled, pend, out>>
Idle == [op |-> "none", i |-> 0, v |-> 0, done |-> FALSE, a |-> 0, b |-> 0]
Init == r = [i \in 0..1 |-> 0] /\ first = <<>> /\ settled = {} /\ pend = [t \in Threads |-> Idle] /\ out = <<0, 0>>
Call(t, op, i, v) == /\ pend[t].op = "none" /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.i = i, !.v = v]] /\ UNCHANGED <<r, first, settled, out>>
Lin(t) == \/ /\ pend[t].op = "res" /\ ~pend[t].done /\ r[pend[t].i] = 0
             /\ r' = [r EXCEPT ![pend[t].i] = pend[t].v]
             /\ first' = IF pend[t].v < 0 THEN Append(first, pend[t].v) ELSE first
             /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<settled, out>>
          \/ /\ pend[t].op \in {"wait", "waitTm"} /\ ~pend[t].done
             /\ \/ \* two refusals at once: different combined futures can be hit in a different order
                   \E k \in 1..Len(first) : pend' = [pend EXCEPT ![t].done = TRUE, ![t].a = first[k], ![t].b = first[k]]
                \/ first = <<>> /\ r[0] # 0 /\ r[1] # 0 /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].a = r[0], ![t].b = r[1]]
                \/ pend[t].op = "waitTm" /\ settled # {0, 1} /\ pend' = [pend EXCEPT ![t].done = TRUE]
             /\ UNCHANGED <<r, first, settled, out>>
Ret(t, op, a, b) == /\ pend[t].op = op /\ pend[t].done
                    /\ op # "res" => pend[t].a = a /\ pend[t].b = b
                    /\ settled' = IF op = "res" THEN settled \cup {pend[t].i} ELSE settled
                    \* one answer for everybody who waits for the same combined future is checked by Same
                    /\ out' = IF op # "res" /\ a # 0 THEN <<a, b>> ELSE out
                    /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<r, first>>
StuckOK == /\ settled # {0, 1} /\ first = <<>>
           /\ \A t \in Threads : pend[t].op # "none" => pend[t].op = "wait" /\ ~pend[t].done
Next == \E t \in Threads :
   \/ \E i \in 0..1, v \in {5, -5} : r[i] = 0 /\ (\A u \in Threads : pend[u].op # "res" \/ pend[u].i # i) /\ Call(t, "res", i, v)
   \/ \E op \in {"wait", "waitTm"} : Call(t, op, 0, 0)
   \/ Lin(t)
   \/ \E op \in {"res", "wait", "waitTm"}, a \in {0, 5, -5}, b \in {0, 5, -5} : Ret(t, op, a, b)
Spec == Init /\ [][Next]_fvars
Pair == out = <<0, 0>> \/ (out[1] = r[0] /\ out[2] = r[1] /\ out[1] > 0 /\ out[2] > 0) \/ (out[1] = out[2] /\ out[1] < 0 /\ \E i \in 0..1 : r[i] = out[1])
=============================================================================
