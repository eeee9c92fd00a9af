"""One function per property: what is modelled, explored and validated."""
from core import *

CHECKS = {}


def check(pid, level='model_checking'):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco


@check('C01')
def locks(c):
    b = build([('locks', 'vs')])[('locks', 'vs')]
    th = '{1,2,3}'
    ms = []
    for rec in ('FALSE', 'TRUE'):
        for fifo in ('TRUE', 'FALSE'):
            ms.append(dict(module='Locks', name='locks_%s_%s' % (rec, fifo), consts=dict(Threads=th, Rec=rec, Fifo=fifo, MaxDepth=2), inv=['TypeOK', 'OwnerKnows', 'NoRecursion', 'FifoInv']))
    c.models(ms)
    tr = c.explore(b, 2500 if c.quick else 40000, bound=2 if c.quick else 3, secs=25 if c.quick else 300)
    c.validate('locks', tr, 'LocksTrace', dict(Threads='{1,2,3,4}', Rec='FALSE', Fifo='FALSE', MaxDepth=3), replay=c.replayer(b))


@check('C02')
def rwlock(c):
    b = build([('rwlock', 'vs')])[('rwlock', 'vs')]
    c.models([dict(module='RWLock', name='rwlock', consts=dict(Threads='{1,2,3}', MaxUsers=1), inv=['TypeOK', 'FifoInv', 'NoSelf', 'Sharing', 'Counted', 'OneWriter'], workers=4)])
    tr = c.explore(b, 2500 if c.quick else 40000, bound=2 if c.quick else 3, secs=25 if c.quick else 300)
    c.validate('rwlock', tr, 'RWLockTrace', dict(Threads='{1,2,3,4,5,6}', MaxUsers=3), replay=c.replayer(b))


@check('C03')
def semaphore(c):
    b = build([('sema', 'vs')])[('sema', 'vs')]
    c.models([dict(module='Semaphore', name='sem', consts=dict(Threads='{1,2}', Tokens=2, MaxTokens=2), inv=['TypeOK', 'FifoInv', 'NoSelf', 'Async1'], workers=4)])
    tr = c.explore(b, 2500 if c.quick else 40000, bound=2 if c.quick else 3, secs=25 if c.quick else 300)
    c.validate('semaphore', tr, 'SemaphoreTrace', dict(Threads='{1,2,3,4,5,6}', Tokens=2, MaxTokens=3), replay=c.replayer(b))


@check('C04')
def syncpt(c):
    bs = build([('syncpt', 'vs'), ('gate', 'vs')])
    c.models([dict(module='SyncPt', name='syncpt_' + k, consts=dict(Threads='{1,2}', Slots='{1,2}', Stack=k), inv=['TypeOK', 'NoDup', 'Exclusive']) for k in ('TRUE', 'FALSE')] +
             [dict(module='Gate', name='gate', consts=dict(Threads='{1,2,3}'), inv=['TypeOK', 'OnlyWaiters'], workers=4)])
    for n, m, k in (('syncpt', 'SyncPtTrace', dict(Threads='{1,2,3,4}', Slots='{1,2,3,4,5,6}', Stack='FALSE')), ('gate', 'GateTrace', dict(Threads='{1,2,3,4}'))):
        b = bs[(n, 'vs')]
        tr = c.explore(b, 2000 if c.quick else 40000, bound=2 if c.quick else 3, secs=20 if c.quick else 300)
        c.validate(n, tr, m, k, replay=c.replayer(b))


@check('C06')
def promise(c):
    bs = build([('promise', 'vs'), ('futall', 'vs')])
    c.models([dict(module='Promise', name='promise', consts=dict(Threads='{1,2}', Obs='{1}', Vals='{7}'), inv=['OneResult', 'ToldRight', 'WaitRight'], prop=['Stable'], workers=4),
              dict(module='FutAll', name='futall', consts=dict(Threads='{1,2,3}'), inv=['Pair'])])
    for n, m, k in (('promise', 'PromiseTrace', dict(Threads='{0,1,2,3,4}', Obs='{%s}' % ','.join(map(str, range(16))), Vals='{7}')), ('futall', 'FutAllTrace', dict(Threads='{0,1,2,3,4}'))):
        b = bs[(n, 'vs')]
        tr = c.explore(b, 2000 if c.quick else 40000, bound=2 if c.quick else 3, secs=25 if c.quick else 300)
        c.validate(n, tr, m, k, replay=c.replayer(b))


@check('C05')
def thread(c):
    b = build([('thr', 'vs')])[('thr', 'vs')]
    c.models([dict(module='Thread', name='thread', consts=dict(Actors='{1,2}', Objs='{0}', Reasons='{5}', MaxTls=1), inv=['DeadIsIdle', 'JoinMeansOver', 'CleanIdle'], workers=4)])
    tr = c.explore(b, 2000 if c.quick else 40000, bound=2 if c.quick else 3, secs=25 if c.quick else 300)
    c.validate('thread', tr, 'ThreadTrace', dict(Actors='{1,2,3,4}', Objs='{%s}' % ','.join(map(str, range(12))), Reasons='{1}', MaxTls=9), replay=c.replayer(b))


@check('C07')
def ordmap(c):
    b = build([('ordmap', 'asan')])[('ordmap', 'asan')]
    inv = ['TypeOK', 'Ordered', 'SeekSplits', 'EraseOne', 'CompareLaws', 'UnionLaws']
    c.models([dict(module='OrdMap', name='ordmap_%d' % i, consts=dict(KeySet=k, ValSet=v, MaxLen=2), constraint='Bounded', inv=inv, workers=4) for i, (k, v) in enumerate([('{1,2,3}', '{5}'), ('{1,2}', '{5,6}')])])
    tr = c.seq(b)
    c.validate('ordmap', tr, 'OrdMapTrace', dict(KeySet='{}', ValSet='{}', MaxLen=0), replay=c.seqreplayer(b))


@check('C08')
def linear(c):
    b = build([('linear', 'asan')])[('linear', 'asan')]
    c.models([dict(module='Linear', consts=dict(Vals='{1,2}', MaxLen=4), constraint='Bounded', inv=['TypeOK', 'UndoLaw', 'EndsLaw'], prop=['Apart'], workers=4)])
    tr = c.seq(b)
    c.validate('linear', tr, 'LinearTrace', dict(Vals='{}', MaxLen=0), replay=c.seqreplayer(b))


@check('C09')
def arrays(c):
    b = build([('arrays', 'asan')])[('arrays', 'asan')]
    c.models([dict(module='ArrayExpr', consts=dict(Items='{0,1}', MaxLen=3, MaxDepth=2 if c.quick else 3),
                   inv=['EndsLaw', 'MidLaw', 'RevLaw', 'FindLaw', 'PatLaw', 'SplitLaw', 'CmpLaw', 'TrimLaw'], workers=4)])
    tr = c.seq(b)
    c.validate('arrays', tr, 'ArrayExprTrace', dict(Items='{}', MaxLen=0, MaxDepth=0), replay=c.seqreplayer(b))


@check('C10')
def heap(c):
    b = build([('heap', 'asan')])[('heap', 'asan')]
    c.models([dict(module='Heap', consts=dict(Prios='{1,2,3}', MaxLen=5 if c.quick else 6), inv=['HeapShape', 'Same', 'RootIsBest', 'TakenWasBest'], workers=4)])
    tr = c.seq(b)
    c.validate('heap', tr, 'HeapTrace', dict(Prios='{}', MaxLen=0), replay=c.seqreplayer(b))


@check('C11')
def codec(c):
    b = build([('codec', 'asan')])[('codec', 'asan')]
    inv = ['Stable', 'RoundTrip', 'Lengths', 'Alphabet']
    c.models([dict(module='Codec', name='codec_' + n, consts=dict(Items=i, MaxLen=m if c.quick else m + 1, Kinds='{%s}' % ','.join('"%s"' % x for x in k.split())), inv=inv, workers=2)
              for n, i, m, k in (('b64', '{0,97,255}', 4, 'e64 e64n e64un'), ('b32', '{0,255}', 6, 'e32 e32n'), ('b85', '{0,255}', 5, 'e85 e16'), ('text', '{0,32,37,65,2047,2048,65535,65536,1114111,2147483647}', 2, 'eutf'), ('url', '{0,37,43,65,255}', 3, 'eurl ew16 ew16b e16l'))])
    tr = c.seq(b)
    c.validate('codec', tr, 'CodecTrace', dict(Items='{}', MaxLen=0, Kinds='{}'), replay=c.seqreplayer(b))


@check('C12')
def lzw(c):
    b = build([('lzw', 'asan')])[('lzw', 'asan')]
    n = 15 if c.quick else 18
    c.models([dict(module='Lzw', name='lzw_%s_%d' % (k, m), consts=dict(A=2, InitBits=3, MaxCode=m, Space=s, Kind='"%s"' % k, MaxLen=n), inv=['Faithful', 'Complete', 'InStep'], workers=2)
              for k, m, s in (('plain', 9, 2), ('keep', 9, 1), ('keep', 10, 2), ('keep', 11, 2))])
    tr = c.seq(b)
    c.validate('lzw', tr, 'LzwTrace', dict(A=256, InitBits=9, MaxCode=0, Space=32, Kind='""', MaxLen=0), replay=c.seqreplayer(b))


@check('C13')
def refs(c):
    bs = build([('refcnt', 'vs'), ('weak', 'vs'), ('once', 'vs'), ('ptrs', 'asan')])
    c.models([dict(module='RefCnt', name='refcnt', consts=dict(Threads='{1,2}', Slots='{0,1}', Objs='{1,2}'), inv=['Safe', 'NoLeak'], workers=4),
              dict(module='Weak', name='weak', consts=dict(Threads='{1,2,3}', MaxLocks=2), inv=['SafeGone'], prop=['OneWay']),
              dict(module='Ptrs', name='ptrs', consts=dict(Handles='{1,2,3}', MaxObj=4 if c.quick else 5), inv=['Exact', 'OneGroup', 'Single'], workers=4),
              dict(module='Once', name='once', consts=dict(Threads='{1,2,3}', Objs='{1,2}'), prop=['OnceOnly'])])
    T = '{1,2,3,4}'
    for n, m, k in (('refcnt', 'RefCntTrace', dict(Threads=T, Slots='{0,1,2}', Objs='{1,11,12,21,22,31}')), ('weak', 'WeakTrace', dict(Threads=T, MaxLocks=9)), ('once', 'OnceTrace', dict(Threads=T, Objs='{1,2,3}'))):
        b = bs[(n, 'vs')]
        tr = c.explore(b, 2000 if c.quick else 40000, bound=2 if c.quick else 3, secs=12 if c.quick else 300)
        c.validate(n, tr, m, k, replay=c.replayer(b))
    b = bs[('ptrs', 'asan')]
    c.validate('ptrs', c.seq(b), 'PtrsTrace', dict(Handles='{1,2,3,4,5,6}', MaxObj=0), replay=c.seqreplayer(b))


@check('C14')
def json_(c):
    b = build([('json', 'asan')])[('json', 'asan')]
    c.models([dict(module='JsonText', consts=dict(Depth=1, Wide='{128512}' if c.quick else '{65536, 128512, 1114111, 2047, 2048, 65535, 127, 31, 47, 55295, 57344}'), inv=['RoundTrip', 'CutSeen', 'Ascii'], workers=4)])
    tr = c.seq(b)
    c.validate('json', tr, 'JsonTextTrace', dict(Depth=0, Wide='{}'), replay=c.seqreplayer(b))


@check('C15')
def jsontree(c):
    b = build([('jsontree', 'asan')])[('jsontree', 'asan')]
    c.models([dict(module='JsonTree', consts=dict(Vars='{1, 2}', Names='{1}' if c.quick else '{1, 2}', Leaves='{7}', MaxId=3), inv=['Sound'], prop=['OneAtATime', 'Isolated', 'Copies'], workers=4)])
    tr = c.seq(b)
    c.validate('jsontree', tr, 'JsonTreeTrace', dict(Vars='{1, 2, 3, 4, 5}', Names='{1}', Leaves='{}', MaxId=1), replay=c.seqreplayer(b))


@check('C16')
def executors(c):
    bs = build([('parexec', 'vs'), ('qexec', 'vs'), ('disp', 'vs')])
    c.models([dict(module='ParExec', consts=dict(Actors='{1, 2}', Acts='{1, 2}' if c.quick else '{1, 2, 3}', MaxMax=2), inv=['Limit', 'Accepted', 'StopMeansIdle', 'DeadDone'], prop=['Once'], workers=4),
              dict(module='QueueExec', consts=dict(Threads='{1, 2}', Acts='{1, 2}' if c.quick else '{1, 2, 3}'), inv=['Queued', 'Empty', 'OneEach', 'DeadOut'], prop=['Once'], workers=4),
              dict(module='Dispatch', consts=dict(Threads='{1, 2}', Acts='{1, 2}', Kinds='{"h", "l", "S"}' if c.quick else '{"h", "l", "F", "v", "S"}', Times='{0, 1}', MaxClock=1 if c.quick else 2), inv=['OneRuns', 'Ended', 'InTime'], prop=['Order', 'OnceOnly'], workers=4)])
    acts = '{%s}' % ', '.join(str(t * 10 + i) for t in (1, 2) for i in range(8))
    qacts = '{%s}' % ', '.join(str(t * 10 + i) for t in (1, 2, 3, 4) for i in range(8))
    for n, m, k in (('parexec', 'ParExecTrace', dict(Actors='{1, 2, 3}', Acts=acts, MaxMax=9)), ('qexec', 'QueueExecTrace', dict(Threads='{1, 2, 3, 4}', Acts=qacts)), ('disp', 'DispatchTrace', dict(Threads='{1, 2, 3, 4}', Acts=qacts, Kinds='{}', Times='{}', MaxClock=0))):
        b = bs[(n, 'vs')]
        tr = c.explore(b, 1200 if c.quick else 40000, bound=2 if c.quick else 3, secs=12 if c.quick else 300)
        c.validate(n, tr, m, k, replay=c.replayer(b))


@check('C17')
def streams(c):
    b = build([('streams', 'asan')])[('streams', 'asan')]
    c.models([dict(module='StreamM', name='stream', spec='MSpec', consts=dict(Cap=2, MaxSrc=2 if c.quick else 3, MaxOut=1 if c.quick else 2), inv=['ReadRight', 'WriteRight', 'SentRight', 'Bounded'], prop=['NoDeadlock'], workers=4),
              dict(module='MemFile', consts=dict(Vals='{1, 2}', MaxLen=3), constraint='Bounded', inv=['InLimit'], prop=['Shut'], workers=4)])
    tr = c.seq(b)
    c.validate('buffers', [t for t in tr if t['scn'].startswith('buff')], 'StreamTrace', {}, replay=c.seqreplayer(b))
    c.validate('memfiles', [t for t in tr if not t['scn'].startswith('buff')], 'MemFileTrace', dict(Vals='{}', MaxLen=0), replay=c.seqreplayer(b))

@check('C18')
def disk(c):
    b = build([('disk', 'asan')])[('disk', 'asan')]
    pr = ['FailsClean', 'OnlyBelow', 'MoveKeeps', 'Whole', 'Replaced', 'New']
    ms = [dict(module='DiskM', name='disk', spec='MSpec', consts=dict(MaxFiles=2, MaxLen=1, Deep='FALSE'), inv=['WellFormed'], prop=pr, view='dvars', workers=8)]
    if not c.quick:
        ms.append(dict(module='DiskM', name='deep', spec='MSpec', consts=dict(MaxFiles=1, MaxLen=1, Deep='TRUE'), inv=['WellFormed'], prop=pr, view='dvars', constraint='Small', workers=8, timeout=1500))
    c.models(ms)
    tr = c.seq(b)
    c.validate('disk', tr, 'DiskTrace', {}, replay=c.seqreplayer(b))


@check('C19')
def text(c):
    b = build([('text', 'asan')])[('text', 'asan')]
    c.models([dict(module='TextM', consts=dict(Chars='{97, 44, 10, 49}' if c.quick else '{97, 44, 10, 49, 32}', MaxLen=4 if c.quick else 5), inv=['Position', 'Agree', 'Least', 'LineIsLine'], prop=['Forward'], workers=4, nocov=True),
              dict(module='TextRT', consts=dict(MaxNum=12 if c.quick else 60, Bases='{10, 16, 2}' if c.quick else '{2, 7, 10, 16, 36}', Widths='{0, 4}'), inv=['RoundTrip', 'Width'], workers=4, nocov=True)])
    tr = c.seq(b)
    c.validate('text', tr, 'TextTrace', {}, replay=c.seqreplayer(b))


@check('C20')
def net(c):
    b = build([('net', 'asan')])[('net', 'asan')]
    k = dict(Room=2, MaxConn=2, MaxSent=1, WithWatch='FALSE', WithDgram='FALSE')
    inv = ['InOrder', 'Complete', 'EndIsEnd', 'Fifo']
    ms = [dict(module='NetM', name='connections', spec='SpecConn', consts=dict(k, MaxConn=2 if c.quick else 3), inv=inv, prop=['OnlyThen'], view='view', workers=4),
          dict(module='NetM', name='bytes', spec='SpecTcp', consts=dict(k, MaxConn=1, MaxSent=2 if c.quick else 3), inv=inv, prop=['OnlyThen'], view='view', workers=4),
          dict(module='NetM', name='observers', spec='SpecTell', consts=dict(k, MaxConn=1, Room=1, WithWatch='TRUE'), inv=inv, prop=['OnlyThen'], view='view', workers=4),
          dict(module='NetM', name='datagrams', spec='SpecDg', consts=dict(k, WithDgram='TRUE', MaxSent=1 if c.quick else 2), inv=['Sent', 'Once'], view='view', workers=4)]
    c.models(ms)
    tr = c.seq(b)
    c.validate('net', tr, 'NetTrace', dict(Room=50000), replay=c.seqreplayer(b))


@check('C21')
def memory(c):
    bs = build([('slist', 'vs'), ('alloc', 'asan')])
    c.models([dict(module='Stack', name='list', spec='MSpec', consts=dict(Threads='{1, 2}', Nodes='{1, 2}' if c.quick else '{1, 2, 3}'), inv=['OnceOnly', 'Given'], workers=4),
              dict(module='Pool', name='pool', spec='MSpec', consts=dict(Threads='{1, 2, 3}', Blocks='{1, 2, 3}'), inv=['Apart'], prop=['Keeps'], workers=4),
              dict(module='Alloc', name='blocks', spec='MSpec', consts=dict(Sizes='{1, 2}' if c.quick else '{1, 2, 4}', MaxArena=2 if c.quick else 3, MaxLive=3), inv=['Apart', 'Inside'], prop=['Used', 'Steady'], workers=4)])
    b = bs[('slist', 'vs')]
    tr = c.explore(b, 2500 if c.quick else 40000, bound=2 if c.quick else 3, secs=15 if c.quick else 300)
    nodes = '{%s}' % ', '.join(str(i) for i in range(1, 34))
    c.validate('list', [t for t in tr if t['scn'].startswith('List')], 'StackTrace', dict(Threads='{1, 2, 3, 4}', Nodes=nodes), replay=c.replayer(b))
    c.validate('pool', [t for t in tr if t['scn'].startswith('Pool')], 'PoolTrace', dict(Threads='{1, 2, 3, 4}', Blocks='{}'), replay=c.replayer(b))
    b = bs[('alloc', 'asan')]
    c.validate('blocks', c.seq(b), 'AllocTrace', dict(Sizes='{}', MaxArena=0, MaxLive=0), replay=c.seqreplayer(b))
