------------------------------- MODULE NetTrace --------------------------------
EXTENDS Dgram, TraceBase
VARIABLES ord \* addresses seen to be in an order
Slack == 2000
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Text(ip, port) == Dec(ip[1]) \o <<46>> \o Dec(ip[2]) \o <<46>> \o Dec(ip[3]) \o <<46>> \o Dec(ip[4]) \o <<58>> \o Dec(port)
AddrCmp(a, b, eq, lt, gt) == /\ eq = (a = b)
                             /\ (IF eq THEN 1 ELSE 0) + (IF lt THEN 1 ELSE 0) + (IF gt THEN 1 ELSE 0) = 1
                             /\ LET lo == IF lt THEN a ELSE b hi == IF lt THEN b ELSE a
                                    new == ({<<lo, hi>>} \cup {<<p[1], hi>> : p \in {q \in ord : q[2] = lo}} \cup {<<lo, p[2]>> : p \in {q \in ord : q[1] = hi}}
                                            \cup {<<p[1], q[2]>> : p \in {s \in ord : s[2] = lo}, q \in {s \in ord : s[1] = hi}}) IN
                                IF eq THEN ord' = ord ELSE <<hi, lo>> \notin ord /\ ord' = ord \cup new
TInit == TBInit /\ Init /\ DInit /\ ord = {}
N(A) == A /\ UNCHANGED <<dq, ds, ord>>
D(A) == A /\ UNCHANGED <<ls, es, regs, ord>>
Act == CASE E.e = "listen" -> N(E.r = "ok" /\ E.port /\ Listen(E.l, E.lim))
         [] E.e = "again" -> N(E.r # "ok" /\ UNCHANGED nvars)
         [] E.e = "fds" -> N(E.n = Count /\ UNCHANGED nvars)
         [] E.e = "connect" -> N(Connect(E.l, E.r, E.x))
         [] E.e = "accept" -> N(Accept(E.l, E.r, E.x, E.has, E.peer))
         [] E.e = "closel" -> N(CloseL(E.l))
         [] E.e = "write" -> N(Write(E.x, E.v, E.n, E.got, E.r))
         [] E.e = "read" -> N(Read(E.x, E.n, E.pk, E.d, E.r))
         [] E.e = "canread" -> N(CanRead(E.x, E.v, E.r))
         [] E.e = "canwrite" -> N(CanWrite(E.x, E.v))
         [] E.e = "waits" -> N(Waits(E.x, E.n))
         [] E.e = "wait" -> N(Wait(E.x, E.m, E.v, E.asked, E.pass))
         [] E.e = "closeout" -> N(CloseOut(E.x, E.r))
         [] E.e = "drop" -> N(Drop(E.x))
         [] E.e = "eladd" -> N(Watch(E.o, E.x, E.m, E.tm))
         [] E.e = "sig" -> N(Sig(E.o, E.ev, E.ms))
         [] E.e = "quiet" -> N(Quiet(E.o, E.ms, Slack))
         [] E.e = "elrem" -> N(Unwatch(E.o))
         [] E.e = "dnew" -> D(DNew(E.d, E.s, E.to))
         [] E.e = "drecv" -> D(DRecv(E.s, E.d, E.r, E.from, E.n))
         [] E.e = "dwrite" -> D(DWrite(E.d, E.v, E.n, E.got, E.out))
         [] E.e = "dread" -> D(DRead(E.d, E.n, E.pk, E.y))
         [] E.e = "dop" -> D(DOp(E.d, E.op))
         [] E.e = "duid" -> D(DUid(E.d, E.u, E.u2))
         [] E.e = "dto" -> D(DTo(E.d, E.to, E.c1, E.c2))
         [] E.e = "dsend" -> D(DSend(E.d, E.to, E.r))
         [] E.e = "ddrop" -> D(DDrop(E.d))
         [] E.e = "addr" -> N(E.t = Text(E.ip, E.port) /\ E.p = E.port /\ UNCHANGED nvars)
         [] E.e = "addrcmp" -> UNCHANGED <<ls, es, regs, dq, ds>> /\ AddrCmp(<<E.ip, E.port>>, <<E.ip2, E.port2>>, E.eq, E.lt, E.gt)
         [] E.e = "fin" -> N(E.n = 0 /\ UNCHANGED nvars)
         [] OTHER -> FALSE
TNext == More /\ Act /\ Step
TSpec == TInit /\ [][TNext]_<<ls, es, regs, dq, ds, ord, tvars>>
================================================================================
