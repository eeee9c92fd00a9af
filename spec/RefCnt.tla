------------------------------- MODULE RefCnt -------------------------------
(* Counted references: an object lives exactly as long as there is a handle  *)
(* to it; whoever gives up the last handle destroys it before going on.      *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Slots, Objs
\* hold[t][s]: object the handle refers to (0 none); killer[o]: who has to destroy it
VARIABLES hold, alive, killer, pend
rvars == <<hold, alive, killer, pend>>
Idle == [op |-> "none", done |-> FALSE, res |-> FALSE, ft |-> 0, fs |-> 0, to |-> 0, o |-> 0]
Holders(h, o) == {x \in (Threads \cup {0}) \X Slots : h[x[1]][x[2]] = o}
Init == /\ hold = [t \in Threads \cup {0} |-> [s \in Slots |-> 0]] /\ alive = {} /\ killer = [o \in Objs |-> 0]
        /\ pend = [t \in Threads |-> Idle]
Call(t, r) == /\ pend[t].op = "none" /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = r.op, !.ft = r.ft, !.fs = r.fs, !.to = r.to, !.o = r.o]]
              /\ UNCHANGED <<hold, alive, killer>>
\* handles of t change to h2: objects without a handle are up to t
Change(t, h2, al, res) ==
  LET new == [hold EXCEPT ![t] = h2] IN
  /\ hold' = new /\ alive' = al
  /\ killer' = [o \in Objs |-> IF o \in al /\ killer[o] = 0 /\ Holders(new, o) = {} THEN t ELSE killer[o]]
  /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = res]
Lin(t) == LET p == pend[t] IN /\ p.op # "none" /\ ~p.done
  /\ CASE p.op = "copy" -> Change(t, [hold[t] EXCEPT ![p.to] = hold[p.ft][p.fs]], alive, TRUE)
       [] p.op = "move" -> Change(t, [hold[t] EXCEPT ![p.to] = hold[t][p.fs], ![p.fs] = 0], alive, TRUE)
       [] p.op = "swap" -> Change(t, [hold[t] EXCEPT ![0] = hold[t][1], ![1] = hold[t][0]], alive, TRUE)
       [] p.op = "drop" -> Change(t, [hold[t] EXCEPT ![p.to] = 0], alive, TRUE)
       [] p.op = "fresh" -> Change(t, [hold[t] EXCEPT ![0] = p.o], alive \cup {p.o}, TRUE)
       [] p.op = "shared" -> Change(t, hold[t], alive, hold[t][0] # 0 /\ Cardinality(Holders(hold, hold[t][0])) > 1)
Died(t, o) == /\ o \in alive /\ killer[o] = t /\ alive' = alive \ {o} /\ killer' = [killer EXCEPT ![o] = 0] /\ UNCHANGED <<hold, pend>>
Ret(t, op, r) == /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r /\ \A o \in alive : killer[o] # t
                 /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<hold, alive, killer>>
Rec(op, ft, fs, to, o) == [op |-> op, ft |-> ft, fs |-> fs, to |-> to, o |-> o]
Next == \E t \in Threads :
   \/ \E ft \in {0, t}, fs, to \in Slots : Call(t, Rec("copy", ft, fs, to, 0))
   \/ \E fs, to \in Slots : fs # to /\ Call(t, Rec("move", t, fs, to, 0))
   \/ \E to \in Slots : Call(t, Rec("drop", 0, 0, to, 0))
   \/ \E op \in {"swap", "shared"} : Call(t, Rec(op, 0, 0, 0, 0))
   \/ \E o \in Objs \ alive : Holders(hold, o) = {} /\ killer[o] = 0 /\ (\A u \in Threads : pend[u].o # o) /\ Call(t, Rec("fresh", 0, 0, 0, o))
   \/ Lin(t) \/ \E o \in Objs : Died(t, o)
   \/ \E r \in BOOLEAN : pend[t].op # "none" /\ Ret(t, pend[t].op, r)
Spec == Init /\ [][Next]_rvars
\* nobody ever sees a dead object
Safe == \A o \in Objs : Holders(hold, o) # {} => o \in alive
\* an object without handles is just being destroyed by somebody
NoLeak == \A o \in alive : Holders(hold, o) = {} => killer[o] # 0 /\ pend[killer[o]].done
=============================================================================
