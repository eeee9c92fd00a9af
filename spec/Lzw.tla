--------------------------------- MODULE Lzw ---------------------------------
(* LZW with codes of growing width, and its variant which keeps the used part of the
   dictionary when it is full.  The two ends share nothing but the bits on the wire. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS A, InitBits, MaxCode, Space, Kind, MaxLen
VARIABLES enc, dec, inp, outp, wire, closed
vars == <<enc, dec, inp, outp, wire, closed>>
ClearCode == A
EndCode == A + 1
First == A + 2
None == -1
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
BitsOf(x, n) == [i \in 1..n |-> (x \div Pow(n - i)) % 2]
RECURSIVE NumOf(_)
NumOf(bs) == IF bs = <<>> THEN 0 ELSE 2 * NumOf(SubSeq(bs, 1, Len(bs) - 1)) + bs[Len(bs)]
\* width of codes after the code n was made
Grow(bits, n) == IF n = Pow(bits) THEN bits + 1 ELSE bits
Nil == [x \in {} |-> 0]
Rank(c, M) == First + Cardinality({x \in M : x < c})
RECURSIVE WidthFor(_, _)
WidthFor(n, bits) == IF n <= Pow(bits) THEN bits ELSE WidthFor(n, bits + 1)

(* --- encoder: map <<code, letter>> -> code --- *)
Enc0 == [map |-> Nil, mark |-> {}, cur |-> None, next |-> First, bits |-> InitBits, out |-> <<>>]
Emit(e, code) == [e EXCEPT !.out = @ \o BitsOf(code, e.bits)]
Reset(e) == [Enc0 EXCEPT !.out = e.out]
\* keeps the codes which were used and are old enough for the other side to know the same
Renew(e) == LET M == {c \in e.mark : c < e.next - (Space + 1)}
                keys == {k \in DOMAIN e.map : e.map[k] \in M}
                To(c) == IF c < First THEN c ELSE Rank(c, M)
                n == First + Cardinality(M)
            IN [Enc0 EXCEPT !.out = e.out, !.map = [k \in {<<To(q[1]), q[2]>> : q \in keys} |-> To(e.map[CHOOSE q \in keys : To(q[1]) = k[1] /\ q[2] = k[2]])], !.next = n, !.bits = WidthFor(n, InitBits)]
EncByte(kd, max, e, b) == 
  IF e.cur = None THEN [e EXCEPT !.cur = b]
  ELSE IF <<e.cur, b>> \in DOMAIN e.map THEN LET c == e.map[<<e.cur, b>>] IN [e EXCEPT !.cur = c, !.mark = @ \cup {c}]
  ELSE LET n == e.next
           e1 == [Emit(e, e.cur) EXCEPT !.map = (<<e.cur, b>> :> n) @@ @, !.next = n + 1, !.bits = Grow(e.bits, n)]
           e2 == IF n # max THEN e1 ELSE IF kd = "plain" THEN Reset(Emit(e1, ClearCode)) ELSE Renew(Emit(e1, ClearCode))
       IN [e2 EXCEPT !.cur = b]
EncFlush(e, align) == IF e.cur = None THEN e ELSE 
  LET e1 == [Emit(e, e.cur) EXCEPT !.bits = Grow(e.bits, e.next)] o == Emit(e1, EndCode).out
  IN [Enc0 EXCEPT !.out = o \o [i \in 1..((align - (Len(o) % align)) % align) |-> 0]]

(* --- decoder: dict a sequence of entries --- *)
Dec0 == [dict |-> <<>>, prev |-> None, bits |-> InitBits, in |-> <<>>, out |-> <<>>, end |-> FALSE, bad |-> FALSE]
RECURSIVE Expand(_, _)
Expand(d, c) == IF c < First THEN <<c>> ELSE Append(Expand(d, d[c - First + 1].p), d[c - First + 1].b)
RECURSIVE Chain(_, _)
Chain(d, c) == IF c < First THEN {} ELSE {c} \cup Chain(d, d[c - First + 1].p)
Marked(d, S) == [i \in 1..Len(d) |-> IF First + i - 1 \in S THEN [d[i] EXCEPT !.m = TRUE] ELSE d[i]]
RenewD(d) == LET M == {c \in First..(First + Len(d.dict) - Space - 1) : d.dict[c - First + 1].m}
                 To(c) == IF c < First THEN c ELSE Rank(c, M)
                 Old(n) == CHOOSE c \in M : Rank(c, M) = n
             IN [d EXCEPT !.dict = [i \in 1..Cardinality(M) |-> LET q == d.dict[Old(First + i - 1) - First + 1] IN [p |-> To(q.p), b |-> q.b, m |-> FALSE]], !.prev = None, !.bits = WidthFor(First + Cardinality(M), InitBits)]
Decode(kd, d, code) == 
  LET n == First + Len(d.dict)
      \* the encoder made this code when it wrote the one just read
      theirs == IF d.prev = None THEN n ELSE n + 1
  IN IF code = ClearCode THEN IF kd = "plain" THEN [Dec0 EXCEPT !.in = d.in, !.out = d.out] ELSE RenewD(d)
     ELSE IF code = EndCode THEN [Dec0 EXCEPT !.out = d.out, !.end = TRUE]
     ELSE IF code > n \/ (code = n /\ d.prev = None) THEN [d EXCEPT !.bad = TRUE]
     ELSE LET w == IF code = n THEN LET q == Expand(d.dict, d.prev) IN Append(q, Head(q)) ELSE Expand(d.dict, code)
              d1 == IF d.prev = None THEN d.dict ELSE Append(d.dict, [p |-> d.prev, b |-> Head(w), m |-> FALSE])
          IN [d EXCEPT !.dict = Marked(d1, Chain(d1, code)), !.out = @ \o w, !.prev = code, !.bits = Grow(d.bits, theirs), !.end = FALSE]
\* one code is read when there are enough bits
DecTake(kd, d) == IF Len(d.in) < d.bits THEN d ELSE Decode(kd, [d EXCEPT !.in = SubSeq(@, d.bits + 1, Len(@))], NumOf(SubSeq(d.in, 1, d.bits)))

Init == enc = Enc0 /\ dec = Dec0 /\ inp = <<>> /\ outp = <<>> /\ wire = <<>> /\ closed = FALSE
Write(b) == /\ ~closed /\ wire = <<>> /\ Len(inp) < MaxLen /\ (inp = <<>> => b = 0)
            /\ LET e == EncByte(Kind, MaxCode, enc, b) IN enc' = [e EXCEPT !.out = <<>>] /\ wire' = e.out
            /\ inp' = Append(inp, b) /\ UNCHANGED <<dec, outp, closed>>
Close == /\ ~closed /\ wire = <<>> /\ LET e == EncFlush(enc, 1) IN enc' = [e EXCEPT !.out = <<>>] /\ wire' = e.out
         /\ closed' = TRUE /\ UNCHANGED <<dec, inp, outp>>
RECURSIVE Pump(_, _)
Pump(kd, d) == LET n == DecTake(kd, d) IN IF n = d \/ n.bad THEN n ELSE Pump(kd, n)
Read == /\ wire # <<>> /\ LET d == Pump(Kind, [dec EXCEPT !.in = @ \o wire]) IN dec' = [d EXCEPT !.out = <<>>] /\ outp' = outp \o d.out
        /\ wire' = <<>> /\ UNCHANGED <<enc, inp, closed>>
WriteAny == \E b \in 0..(A - 1) : Write(b)
Next == WriteAny \/ Close \/ Read
Spec == Init /\ [][Next]_vars

Faithful == Len(outp) <= Len(inp) /\ outp = SubSeq(inp, 1, Len(outp)) /\ ~dec.bad
Complete == closed /\ wire = <<>> /\ inp # <<>> => outp = inp /\ dec.end
\* both sides agree how wide the next code is, and nothing but the pending letter is missing
InStep == wire = <<>> /\ ~closed => dec.bits = enc.bits /\ dec.in = <<>>
=============================================================================
