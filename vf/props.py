#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 vf/props.py` after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/lightspeed/'
P = []
TLA_CONC = ('TLA+ specification checked with TLC; the real code runs under a deterministic scheduler (systematic preemption-bounded and random schedules) '
            'and every distinct recorded history is validated by TLC against the same specification')
TLA_SEQ = ('TLA+ specification checked with TLC; operation histories (enumerated exhaustively to a bound by the specification or generated at random) are run on the real code '
           'and every recorded step is validated by TLC against the same specification')


def prop(id, title, statement, over, quant, why, files, mech, note, technique=TLA_CONC, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]),
                  _note=note, _technique=technique, _level=level))


SCHED = 'All interleavings of the API calls and of every memory access inside them'
prop('C01', 'Exclusive locks: one owner, no lost hand-over',
     'At any moment at most one thread (or one asynchronous holder) owns a lock, a recursive lock counts its owner\'s nesting exactly, and a try succeeds exactly when the lock can be taken. '
     'A released lock is handed to a thread waiting for it (in order of arrival for the queueing locks), so no thread waits forever for a free lock. '
     'Locking, unlocking, timing out and cancelling never touch memory or a thread which may be already gone.',
     ['schedules'], SCHED + ', of two to four threads using the fast, micro and system mutexes, their recursive, timed, try and asynchronous forms.',
     'No test of the repository takes a contended lock deterministically; a hand-over race needs one particular interleaving out of millions.',
     ['mt/fastlock.h', 'mt/microlock.h', 'mt/mutex.h', 'mt/mutex.cpp', 'base/sync/synchronize.h'],
     [('queue of waiting slots swapped into the lock word', 'mt/fastlock.h'), ('two-phase hand-over', 'mt/microlock.h'), ('recursion and ownership', 'mt/mutex.h')],
     'Sequentially consistent memory; bounded preemptions plus random schedules of the real code; exhaustive for the specification with 3 threads.')
prop('C02', 'Shared/exclusive locks admit exactly compatible holders',
     'Holders of a shared/exclusive lock are always compatible: any number of readers or one writer, and for the level lock only holders of the level currently open. '
     'Waiting threads are admitted as soon as the holders permit it and in the documented order, cancelled or timed-out requests leave no trace, and nobody waits forever while the lock is free. '
     'The lock remains fully usable after any history of contention.',
     ['schedules', 'histories'], SCHED + ', of two to four readers, writers and level holders with asynchronous requests and cancellations, over histories which re-use the lock.',
     'No existing test uses these locks; a broken queue shows only after contention drained in a particular order.',
     ['mt/rwlock.h'], [('level lock queue', 'mt/rwlock.h'), ('shared lock over levels', 'mt/rwlock.h')],
     'Sequentially consistent memory; bounded preemptions plus random schedules; exhaustive for the specification with 3 threads.')
prop('C03', 'Semaphore never loses or invents a token',
     'Tokens taken never exceed tokens supplied, and a token supplied is either stored or given to exactly one waiting request, in order of arrival. '
     'A request which times out or is cancelled takes no token and leaves nothing behind, and a request cannot wait forever while a token is available.',
     ['schedules', 'histories'], SCHED + ', of two to four threads locking, unlocking, timing out and cancelling asynchronous requests with various initial counts.',
     'No existing test uses the semaphore; a lost token needs a timeout or a cancellation racing with a release.',
     ['mt/semaphore.h', 'mt/notifier.h', 'mt/notifier.cpp', 'mt/slist.h'], [('token hand-over to the queue', 'mt/semaphore.h'), ('notification bound to the thread', 'mt/notifier.h')],
     'Sequentially consistent memory; bounded preemptions plus random schedules; exhaustive for the specification with 2 threads.')
prop('C04', 'Notification points and gates wake exactly whom they should',
     'A notification wakes exactly the registered waiters it is meant for (one, all, or the first in the chosen order), each registration is notified at most once, and a removed registration is never notified. '
     'A gate lets everybody through once opened and holds them while closed, and a waiter never sleeps through a notification sent after it registered. '
     'The notifier never touches a waiter, a gate or a thread which the notified side may already have destroyed.',
     ['schedules'], SCHED + ', of two to four threads registering, removing, resetting, waiting with and without timeout, notifying, opening and closing, with objects destroyed as soon as that is legal.',
     'No existing test uses these primitives; a lost wake-up or a touch of freed memory needs a specific interleaving.',
     ['mt/syncPt.h', 'mt/syncPt.cpp', 'mt/gate.h', 'mt/notifier.h', 'mt/sleepingobject.h'], [('registration queue', 'mt/syncPt.cpp'), ('gate state', 'mt/gate.h'), ('notifier', 'mt/notifier.h')],
     'Sequentially consistent memory; bounded preemptions plus random schedules; exhaustive for the specification with 2 threads / 2 slots and 3 threads.')
prop('C05', 'A thread ends once, is joined after its end and hears every wake-up',
     'A thread object runs at most one thread at a time: starting a busy object is refused, a failed start leaves the object usable, and join, stop and the destructor return exactly when the thread is over (its body, hooks and thread variables), however it ends. '
     'The finish flag is seen by the thread it was set for, a wake-up sent to a thread is never lost (a sleep after it returns at once, with a reason that was sent), and a sleep with timeout ends no sooner than its time unless woken. '
     'Every thread sees its own thread variables and itself as the current thread; its variables are destroyed exactly once before it is over; hooks run in order for every thread, also when a hook or the body throws. '
     'The same holds for threads attached to an existing system thread.',
     ['schedules', 'faults'], SCHED + ', of one to three threads starting, joining, stopping, waking, querying and destroying one or two thread objects, attaching and detaching, with bodies which return, throw, sleep and use thread variables, and with failures of thread creation and of hooks.',
     'The existing tests start and join a thread in the usual order; early destruction, races of restart, wake-up or finish with the end of a thread, and failures need specific interleavings or faults.',
     ['mt/thread.h', 'mt/linux/thread.cpp', 'mt/threadHook.cpp', 'mt/linux/threadSleeper.cpp', 'base/sync/threadVar.h', 'base/sync/tlsalloc.cpp'],
     [('start, bootstrap and end of a thread', 'mt/linux/thread.cpp'), ('sleep and wake-up', 'mt/linux/threadSleeper.cpp'), ('hooks', 'mt/threadHook.cpp'), ('thread variables', 'base/sync/threadVar.h')],
     'Sequentially consistent memory; bounded preemptions plus random schedules; exhaustive for the specification with 2 acting threads and one object. A wake-up sent to an object never started may be ignored.')
prop('C06', 'A future has one result and everybody is told it exactly once',
     'The first resolution or rejection decides the future and nothing changes it afterwards; every waiting call, query and registered observer sees that result, each observer exactly once, in order of registration. '
     'Cancelling (or dropping the last promise) tells the observers registered at that moment and nobody else, and an observer removed successfully is never told. '
     'Chained, transformed, isolated and combined futures deliver what their source delivers, no waiting call sleeps through the result, and the resolving side never touches an observer or waiter which has been told.',
     ['schedules', 'histories'], SCHED + ', of one to four threads resolving, rejecting, cancelling, dropping promises, waiting, observing, removing observers and chaining futures.',
     'The existing promise tests run one schedule of a few happy paths; racing resolvers, removals, cancellations and early destruction need specific interleavings.',
     ['base/actions/promise.h', 'base/actions/promise.tcc', 'base/actions/promise.cpp', 'base/memory/refCntPtr.h', 'base/containers/optional.h'],
     [('result and observer list', 'base/actions/promise.tcc'), ('waiting for a future', 'base/actions/promise.tcc'), ('combination of futures', 'base/actions/promise.tcc')],
     'Sequentially consistent memory; bounded preemptions plus random schedules; exhaustive for the specification with 2 threads.')
prop('C07', 'Ordered containers are ordered sets and maps after any history',
     'After any sequence of insertions, replacements, removals (by key, by iterator or by seek), clearing, copying, assignment, swapping and set operators, a Map, Set, MultiMap or MultiSet holds exactly the items the sequence implies, '
     'in the order of its comparator, with equal keys of a multi-container kept in order of insertion. Lookups, seeks and iterators, in both directions and also when the direction is turned, visit exactly those items; the size matches, and the tree stays balanced. '
     'Each stored item is constructed and destroyed exactly once, and a container copied is independent of its source.',
     ['inputs', 'histories'], 'All histories of operations over several containers, with ascending and descending comparators, different allocators and small and large key ranges; all insertion orders of six (seven) keys.',
     'The existing tests insert a handful of keys in one order; a broken rotation, a stale iterator or a lost node needs a particular shape of the tree reached by a long history.',
     ['base/'+x for x in ['containers/avltree.h', 'containers/avltree.tcc', 'containers/avltreenode.h', 'containers/avltreenode.tcc', 'containers/map.h', 'containers/map.tcc', 'containers/set.h', 'containers/linkedList.h']],
     [('rotation and rebalancing', 'base/containers/avltreenode.tcc'), ('insert, find, remove and iterate', 'base/containers/avltree.tcc'), ('maps and multimaps', 'base/containers/map.tcc'), ('sets and their operators', 'base/containers/set.h')],
     'Random and exhaustively permuted histories of bounded length; the specification itself is explored exhaustively for two containers over three keys.', technique=TLA_SEQ)
prop('C08', 'Sequence containers hold exactly the sequence their history implies',
     'After any sequence of operations a Deque, Stack, Queue, LinkedList or AutoArray holds exactly the items the operations imply, in order: pushes and pops at either end, insertion, removal, truncation, resizing, appending, '
     'insertion of arrays, copying (also to itself), swapping and clearing, at any position and across any growth of the store, with heap, small-buffer and fixed-size allocators. '
     'Returned iterators stand at the item they promise and erasing through them removes that item. Access outside the content, removal from an empty container, exceeding a fixed-size store and a failed copy of the new item are refused with the documented exception and change nothing. '
     'Every item is constructed and destroyed exactly once and memory goes back to the allocator it came from.',
     ['inputs', 'histories', 'faults'], 'All histories of operations over pairs of containers, for each allocator, with failing copies of items and exhausted fixed-size stores.',
     'The existing tests push and pop a few items; the wrap of the ring buffer, the last item of a list or the edge of a small buffer is reached only by particular histories.',
     ['base/containers/deque.h', 'base/containers/deque.tcc', 'base/containers/stack.h', 'base/containers/queue.h', 'base/containers/linkedList.h', 'base/containers/autoArray.h', 'base/containers/autoArray.tcc', 'base/memory/smallAlloc.h', 'base/memory/staticAlloc.h', 'base/memory/stdAlloc.h', 'base/objmanip.h'],
     [('ring buffer of the deque', 'base/containers/deque.tcc'), ('insert iterator and growth of the array', 'base/containers/autoArray.tcc'), ('list surgery', 'base/containers/linkedList.h')],
     'Random histories of bounded length over two containers; the specification itself is explored exhaustively for two values and length four.', technique=TLA_SEQ)

prop('C09', 'Array views and searches mean what the sequences they denote mean',
     'A view of arrays or strings (middle part, head, tail, offset, crop, trim, reverse, repetition, concatenation, and views of views) has exactly the content of the sequence it denotes, whether it is read by index, by iterators in both directions, '
     'by a traversal of the whole or of a part (also one stopped early), copied or rendered; positions and counts beyond the end are clipped; writing through a view changes exactly the item it shows. '
     'Searching from the front and from the back, for an item, a sequence or any of a set, with or without a start position, returns the first or last position of a match or says there is none; comparison is lexicographical and all its operators agree; splitting yields the parts between the separators.',
     ['inputs'], 'All views built from arrays and strings, all positions and counts, all patterns.',
     'No test of the repository touches views of views; errors hide in views of particular shape, at the edges and in ranges which do not start at zero.',
     ['base/containers/arrayt.h', 'base/containers/arrayExpr.h', 'base/containers/flatArray.h', 'base/containers/arrayref.h', 'base/containers/constStr.h'],
     [('searching, splitting, views', 'base/containers/arrayt.h'), ('view types', 'base/containers/arrayExpr.h'), ('flat views', 'base/containers/flatArray.h'), ('strings and literals', 'base/containers/constStr.h')],
     'Random arrays of bounded length, five kinds of base view under twenty-four kinds of view; counts equal to naturalNull are excluded. The specification itself is explored exhaustively for arrays of up to three items.', technique=TLA_SEQ)
prop('C10', 'Heaps, priority queues and the sorting filter give the best item first',
     'A heap, a priority queue and the sorting filter hold exactly the bag of items put in and not taken out, and the item they show or give next is always one of the best of them, after any history of pushes, pops, removal of items from the middle of the heap, '
     'change of the top, copying, assigning and clearing, for any order (also reversed) and allocator. Sorting yields the same items in order. The sorting filter takes exactly one item more than a fixed-size buffer can hold and refuses others; refused or failed pushes change nothing, nothing is lost, duplicated or leaked.',
     ['inputs', 'histories', 'faults'], 'All histories of operations over pairs of containers, with failing copies of items and exhausted fixed-size stores.',
     'No test of the repository removes from the middle of a heap or copies a queue; a wrong heap shows only for particular shapes.',
     ['base/containers/sort.h', 'base/containers/sort.tcc', 'base/containers/priorityQueue.h', 'base/iter/sortFilter.h', 'base/iter/sortFilter.tcc'],
     [('heap operations', 'base/containers/sort.tcc'), ('queue over a heap', 'base/containers/priorityQueue.h'), ('filter over a heap with an extra item', 'base/iter/sortFilter.tcc')],
     'Random histories of bounded length; the specification itself, with the array representation of the heap, is explored exhaustively for three priorities and five items.', technique=TLA_SEQ)

prop('C11', 'Encoders and decoders produce exactly the defined encoding and its inverse',
     'Base64 (standard and URL alphabet, padded or not), base32, base16 and hexadecimal digits, base85, URL escapes and the UTF-8 and UTF-16 conversions produce for any input exactly the result their definition gives, and decoding what was encoded gives the input back. '
     'The result does not depend on how the converter is driven: item by item, in blocks of any size, through reading or writing iterators and filters, with a flush at the end and several inputs one after another; peeking agrees with reading, blocks are taken whole when asked for whole and reading ends exactly at the end of the result. '
     'Malformed UTF-8 (stray continuation bytes, missing continuation, bytes no character starts with) is refused.',
     ['inputs', 'histories'], 'All inputs, all ways to cut them into calls.',
     'The existing tests encode one or two strings through one path; errors hide at the residual bytes of a group, in a flush, in a second input and at the limits of character lengths.',
     ['utils/base16.h', 'utils/base32.h', 'utils/base64.h', 'utils/base64.tcc', 'utils/base85.h', 'utils/urlencode.h', 'base/streams/utf.h', 'base/streams/utf.tcc', 'base/iter/iterConv.h', 'base/iter/iteratorFilter.h', 'base/iter/iteratorFilter.tcc'],
     [('groups of bits', 'utils/base64.tcc'), ('converters and their iterators', 'base/iter/iterConv.h'), ('filters and their iterators', 'base/iter/iteratorFilter.tcc'), ('characters', 'base/streams/utf.tcc')],
     'Random inputs of bounded length which favour the limits, all short inputs for some encodings. Excluded: input which ends within a UTF-8 character, characters outside the alphabet for encodings without a defined reaction, ignorable characters at the end of a filtered input (hasItems), capacity estimates. '
     'The specification itself (definition as function against a group-by-group machine) is explored exhaustively for short inputs.', technique=TLA_SEQ)
prop('C12', 'LZW compression is lossless and both sides keep the same dictionary',
     'Whatever bytes are compressed with LZW or LZWp (which keeps useful entries when its dictionary is full), in one or several streams one after another through the same pair of objects, with any limit of code width, decompression returns exactly those bytes, '
     'no matter how the data are cut into pieces, and nothing more; everything written before a flush can be decompressed from what was output until the end of the flush. The compressor emits the codes of LZW as specified: widths grow, dictionaries are cleared or renewed at the defined places, the end mark is padded to a whole byte.',
     ['inputs', 'histories'], 'All byte sequences, all cuts, all histories of dictionary renewals.',
     'A short round trip never fills the dictionary; the widths of codes get out of step only when a renewed dictionary ends right at a power of two.',
     ['utils/lzw.h', 'utils/lzw.tcc', 'utils/lzw.cpp', 'base/iter/iterConv.h'],
     [('compressor and decompressor', 'utils/lzw.tcc'), ('renewal of the dictionary', 'utils/lzw.cpp')],
     'Random and repetitive inputs up to a few thousand bytes, code widths 9 to 15, and inputs chosen so that the renewed dictionary ends around a change of width. Corrupted input is out of scope. The specification itself (compressor and decompressor as two machines in step, table size scaled down) is explored for about 10^5 states per variant.', technique=TLA_SEQ)

prop('C13', 'Smart pointers keep objects exactly as long as they are referred to',
     'An object lives as long as there is a counted or shared reference to it and is destroyed exactly once, by whoever gives up the last reference, under any interleaving of copies, moves, assignments (also to itself) and releases of RefCntPtr by any number of threads, and any history of SharedPtr, SharedStaticPtr, RefCntPtr and AllocPointer. '
     'Sharing is reported truthfully, redirection of a shared pointer is seen by its whole group and objects which are not owned are never destroyed. '
     'A WeakRef gives access to its target until the target is set to null; setting it to null or destroying it waits until nobody holds a lock, afterwards nobody gets one, nobody waits for ever and nobody touches what is gone. '
     'A singleton is built once, by one of the threads asking for it, is built again after a failure, is never seen half built and is destroyed exactly once.',
     ['schedules', 'histories', 'faults'], 'All interleavings of threads which use handles to the same object; all histories over several handles; failing constructors of singletons.',
     'No test of the repository shares a pointer among threads; a lost count or a wake-up of a finished thread needs one particular interleaving.',
     ['base/memory/refCntPtr.h', 'base/memory/sharedPtr.h', 'base/memory/sharedResource.h', 'base/memory/allocPointer.h', 'base/memory/weakref.h', 'base/memory/singleton.h', 'base/memory/singleton.cpp', 'mt/linux/atomic.h'],
     [('counted references', 'base/memory/refCntPtr.h'), ('rings of shared pointers', 'base/memory/sharedResource.h'), ('locks of weak references', 'base/memory/weakref.h'), ('initialisation of singletons', 'base/memory/singleton.h')],
     'Two to four threads with short programs, preemption bound 2 (thorough 3) plus random schedules; random sequential histories over six handles. The specifications are explored exhaustively for two or three threads or handles.')

prop('C14', 'JSON text and JSON values correspond',
     'Every value which can be built from null, booleans, numbers, strings, arrays and objects is written (by every serializer, also with characters escaped to ASCII) as a text which the JSON grammar accepts and which stands for just that value, and every JSON text is read as the value it stands for: all escapes including surrogate pairs, any white space, nesting, integers of 64 bits exactly and other numbers to at least nine digits. '
     'A text which is cut, or which is not JSON because of a wrong token, bracket, separator or quotation mark, is refused with an exception. '
     'The text of a value does not depend on whether it was built or parsed, and reading, writing and reading again gives an equal value.',
     ['inputs', 'values', 'faults'], 'All documents, all texts which stand for them (order, white space, escapes) and damaged texts.',
     'The repository tests a handful of fixed documents; surrogate pairs, integers at the border of the type, one-digit numbers at the end of the text or floats outside six decimals need particular input.',
     ['utils/json/json.h', 'utils/json/jsonparser.h', 'utils/json/jsonserializer.h', 'utils/json/json.cpp', 'base/text/textParser.h'],
     [('parser', 'utils/json/jsonparser.tcc'), ('serializer', 'utils/json/jsonserializer.tcc')],
     'Random documents up to depth four with edge characters and numbers; texts from the grammar with random mutations. What the parser does with things JSON does not define (repeated names, control characters in strings, numbers with zeroes in front, bytes below 32 as white space) is left open. The machine (write, cut, read) is explored for all documents of depth one over a set of edge leaves.', technique=TLA_SEQ)

prop('C15', 'JSON values behave as shared trees of plain values',
     'Objects map names to values, arrays are sequences; containers have an identity, so that a change made through one holder is seen by all of them and by nobody else; leaves never change. '
     'Adding, setting, replacing, erasing, clearing, loading and merging change just what they name; lookups by name, index and path find what was stored or report that it is not there, and never reach beyond the end; iteration gives every item once, objects in the order of their names, and an iterator is not affected by later changes. '
     'A deep copy is equal to the original and independent of it, a copy of limited depth shares just what is below. Two values are equal exactly when they have the same type, structure and content. '
     'A container cannot be put into itself; a shared container is not handed out as an isolated one. Paths compare by length and steps and can be copied.',
     ['histories', 'values'], 'All histories of operations over several variables which share parts of trees, with every kind of leaf.',
     'The repository tests serialization of fixed trees only; equality, aliasing and erasure show after particular sequences.',
     ['utils/json/json.h', 'utils/json/jsonimpl.h', 'utils/json/jsondefs.h', 'utils/json/json.cpp', 'base/containers/avltreenode.h', 'base/containers/avltree.h'],
     [('containers and leaves', 'utils/json/jsonimpl.h'), ('operations', 'utils/json/json.cpp')],
     'Random histories over five variables, three factories, trees up to 40 nodes. Indirect cycles are not built. Indexing of leaves and objects by number is left open. The specification is explored exhaustively for two variables and three containers.', technique=TLA_SEQ)

prop('C16', 'Executors and dispatchers run every accepted action exactly once',
     'ParallelExecutor: an action whose execute() returned is run exactly once by one thread of the pool, an action refused by a timeout is never run and is not refused early; no more actions run at once than the limit allows, and threads above a lowered limit, idle threads after the idle timeout and all threads after stopAll() go away; exceptions of actions do not harm the pool; stopAll() returns true only when nothing runs, and the executor works again after it. '
     'QueueExecutor: queued actions are taken in order by whoever serves, no action waits while a serving thread is idle; after finish() nothing more is taken, the serving threads return and stopAll(), join() and the destructor get past when all are out (also when none ever served); an exception of an action leaves serve(). '
     'Dispatcher: run() runs dispatched actions in order, once, in its thread; after quit() the waiting ones are rejected, run() returns and join() gets past; a second run() at the same time is refused. Scheduler: promises are resolved there not before their time, in order of time, after the waiting actions. Nobody gets stuck.',
     ['schedules', 'histories'], 'All interleavings of threads which execute, serve, stop, dispatch and schedule, with all timeouts.',
     'Lost actions, leaked threads and hangs show only when a worker leaves at the very moment an action arrives.',
     ['base/actions/parallelExecutor.cpp', 'base/actions/parallelExecutor.h', 'base/actions/InfParallelExecutor.cpp', 'base/actions/queueExecutor.cpp', 'base/actions/queueExecutor.h', 'mt/dispatcher.cpp', 'mt/dispatcher.h', 'base/actions/idispatcher.tcc', 'mt/scheduler.cpp', 'mt/scheduler.h'],
     [('pool of threads', 'base/actions/parallelExecutor.cpp'), ('queue', 'base/actions/queueExecutor.cpp'), ('dispatcher', 'mt/dispatcher.cpp'), ('scheduler', 'mt/scheduler.cpp')],
     'Preemption-bounded exploration (bound 2, thorough 3) of up to 4 threads. ParallelExecutor is controlled by one thread, as documented; setMaxThreadCount and the getters may be called by another one.')

prop('C17', 'Buffered and memory streams lose, invent and reorder nothing',
     'IOBuffer (and SeqFileInBuff, SeqFileOutBuff over it): the reader gets the bytes of the source in order, each once, until its end; the target gets the written bytes in order, each once; read() gives at least one byte before the end, readAll() all asked; peek, lookup, fetch, getInputLength and canRead tell exactly what waits and take nothing; discardInput skips, putBack of bytes just read returns them and is refused when there is no room for them. '
     'The source is asked only when the reader needs it, not after its end, and only after its own waiting output and the output of the buffer set by setAutoflush were passed on. flush() and closeOutput() pass everything on before flushing and closing the target; a closed buffer reports it cannot be written; destruction of the buffer passes the rest on. discardOutput takes back the latest bytes still waiting and is refused beyond them. When the source or the target fails by an exception, it reaches the caller and nothing of what waited is lost or sent twice. '
     'MemFile, MemFileStr, RndFileReader and RndFileWriter behave as one array of bytes with positions of their own: reads stop at the end, writes behind the end fill the hole by zeroes, append mode writes at the end, refused writes (closed, constant, over the size of the allocator) change nothing.',
     ['histories', 'inputs'], 'Every history of operations on every capacity, with every split of reads and writes by the streams below and failures of them.',
     'The interesting states (wrap around, partial writes, failure in the middle of a flush, putBack against waiting output) need particular fill levels and sizes.',
     ['base/streams/fileiobuff.h', 'base/streams/fileiobuff.tcc', 'base/streams/fileio.h', 'base/streams/memfile.h', 'base/streams/memfile.tcc', 'base/streams/memfile.cpp'],
     [('buffer', 'base/streams/fileiobuff.tcc'), ('memory file', 'base/streams/memfile.tcc'), ('views of random access files', 'base/streams/fileio.h')],
     'Sequential histories of 30-120 operations, buffers of 3 to 40 bytes. One thread.', technique=TLA_SEQ)

prop('C18', 'Operations on disk files and folders do what they say, wholly or not at all',
     'File services of the disk: every successful operation leaves the tree of folders, files and symbolic links exactly as its description says, and one which throws leaves what was there unchanged (folders made on the way by createFolder may stay). '
     'open: reading never creates unless asked; create, truncate, newFile (refuses what exists), append (every write at the end), createFolder, deleteOnClose; read, write, peek, random access, setSize, size; a handle that is not for reading (writing) refuses it and canRead/canWrite tell so; an open file stays usable after its name is removed. '
     'commitOnClose: the target keeps its old bytes until the close, then it is replaced at once; when the handle is destroyed by a passing exception, it is not replaced. Temporary files: a new unique file, removed in the end unless renamed or detached; a fixed name which exists is refused. '
     'createFolder (with parents), removeFolder (only empty, or with everything below it, links are removed and not followed), remove, copy, move, link, with and without permission to overwrite; canOpenFile, findFile (n-th match in the list of folders). '
     'Iterators and getFileInfo give every entry once with its right name, type, link and hidden flag, size and mode, for names of any characters and lengths; operations through them act on that entry. Mapped regions show the bytes of the file; writes to a shared region reach the file, to a copy-on-write one do not. No operation leaves a descriptor open behind it.',
     ['histories', 'inputs'], 'Every history of these operations on every tree of folders, files and links, with several files open.',
     'What an operation does depends on the whole tree, on the links on the way and on files which are open; tests start from an empty folder.',
     ['base/streams/fileio_ifc.h', 'base/streams/fileio.h', 'base/linux/fileio.cpp'],
     [('disk services', 'base/linux/fileio.cpp'), ('interfaces', 'base/streams/fileio_ifc.h')],
     'Histories of 40-100 operations in one scratch folder, as an unprivileged user. Errors of the device and crashes of the machine are not made. Dates and sparse sizes are not compared.', technique=TLA_SEQ)

prop('C19', 'Texts are written by their patterns and read back by theirs',
     'TextFormat, TextFormatBuff and TextOut write the pattern with %n places filled by the n-th argument (nothing where there is none), %% and the end of line, widths with their fill and sign ({w}, {0w}, {+w}, {-0w}), or all arguments in order when there is no pattern; numbers of every type in the chosen base and reals with the chosen precision, rounded correctly; narrow and wide texts are converted by UTF-8. ToString writes the exact number in bases 2 to 36, reals fixed, scientific or in the shorter way. '
     'TextParser matches a pattern (characters, spaces, %d %u %x %o %f %i fields, classes, * fields with ranges, quoted texts, alternatives) exactly when the text can be divided so; a field which may take anything takes the least which lets the rest match, classes and numbers the most, alternatives are tried in their order; every field gives exactly the characters it took. A field converts to a number exactly when the whole of it is one, and to its exact value, otherwise an exception is thrown. '
     'TextIn and TextLineReader over a source which can be read once: a match takes exactly the matched characters, a failure or a peek takes none, commit takes what the peek matched; lines, characters and counts follow one another and nothing is lost or read twice.',
     ['inputs', 'histories'], 'Every pattern, every argument and every text, and every history of reads, peeks and commits on one source.',
     'What a pattern matches depends on the whole rest of the pattern and the text (backtracking); tests have a few patterns and typical numbers.',
     ['base/text/textFormat.h', 'base/text/textFormat.tcc', 'base/text/textFormat.cpp', 'base/text/textOut.h', 'base/text/textOut.tcc', 'base/text/textParser.h', 'base/text/textParser.tcc', 'base/text/textParser.cpp', 'base/text/strtodouble.cpp', 'base/text/textIn.h', 'base/text/textInBuffer.h', 'base/text/textInBuffer.tcc', 'base/text/textLineReader.h', 'base/text/toString.h', 'base/text/toString.tcc'],
     [('formatter', 'base/text/textFormat.tcc'), ('parser', 'base/text/textParser.tcc'), ('reader', 'base/text/textInBuffer.tcc'), ('numbers to texts', 'base/text/toString.tcc'), ('texts to numbers', 'base/text/strtodouble.cpp')],
     'Patterns of up to about ten elements over texts of up to some dozens of characters; reals are dyadic rationals up to 2000 with up to ten binary places. Custom parsers, merged fields and regular expressions in patterns are not covered.', technique=TLA_SEQ)

prop('C20', 'Network streams and datagrams deliver exactly what was sent, waiting is right',
     'A listening source accepts connections in the order in which they were made, as many as its limit says, gives the address of the other side, and reports that the time elapsed exactly when nobody has connected; opening a port which is in use and connecting to a port where nobody listens are reported by exceptions, also when the refusal was waited for before. '
     'Both ends of a stream read the bytes the other end has written, in order, nothing lost, changed or made up; peeking takes nothing; the end of the stream is reported exactly after everything was read and the other end closed its output or was dropped (not by reading no bytes), and writing to an end which is gone is an exception, not a signal; canRead, canWrite and dataReady agree with it. '
     'Reading, writing and waiting with a time limit elapse only when nothing is ready, report then a timeout, and otherwise tell what is ready of what was asked for (the default of the resource when nothing was); a wait handler is asked instead. An observer registered in an event listener is told exactly once, of something which is ready and which it waits for, or of nothing after its time has elapsed, unless it was removed before. '
     'A datagram comes whole, once, in order, with the address of its sender, which is where it is sent back; it is sent to its target or the given one and has none then; written and read data, rewinding, clearing and growing numbers are right. Addresses of IPv4 keep their numbers and port through texts and raw forms, and are compared by a total order. No descriptor is left open.',
     ['inputs', 'histories', 'schedules'], 'Every history of connecting, accepting, writing, reading, waiting, closing and dropping on any number of sources, streams, observers and datagrams.',
     'The outcome depends on the order of what both sides do and on what waits in between; tests have no network at all.',
     ['base/streams/netio.h', 'base/streams/netio.cpp', 'base/streams/netio_ifc.h', 'base/linux/netStream.cpp', 'base/linux/netStreamSource.cpp', 'base/linux/netDgramSource.cpp', 'base/linux/netAddress.cpp', 'base/linux/netService.cpp', 'base/linux/networkEventListener.cpp', 'base/linux/linuxFdSelect.cpp', 'base/linux/linsocket.tcc'],
     [('streams', 'base/linux/netStream.cpp'), ('sources of streams', 'base/linux/netStreamSource.cpp'), ('observers', 'base/linux/networkEventListener.cpp'), ('datagrams', 'base/linux/netDgramSource.cpp'), ('addresses', 'base/linux/netAddress.cpp')],
     'Loopback only, so the network itself neither loses nor delays; streams over IPv4, datagrams over IPv6 (what the library opens). Histories of up to about 120 steps. Waiting for connecting with a time limit, the waiting object and resolving names are not covered.', technique=TLA_SEQ)

prop('C21', 'Memory handed out belongs to one holder and nothing of it is lost',
     'Allocators: a block which was given out is large enough, aligned for its size, and overlaps no other block until it is given back; its bytes are changed by nobody but its holder. This holds for clusters of blocks (ClusterAlloc, the allocator of nodes of maps, sets and lists) reached directly, through the owner of a block, and by objects built in it (also when their constructor fails, which leaves nothing behind), for pools (PoolAlloc, MultiPoolAlloc, also shared by threads) and for buffers (AllocInBuffer, AllocAtStack). '
     'A place which was given back is used again before more is taken from the allocator below; what was taken from below is returned to it whole and once, and only without live blocks inside; clear() reports exactly the blocks which were not given back; a pointer which is not a block of the allocator is refused and changes nothing; a failure of the allocator below, or a full buffer, changes nothing. '
     'SList: under any interleaving of threads each push, pop, take, swap and conditional swap happens at one instant, the last pushed node comes first, every node is in one place (as long as fewer removals than its cookie counts overtake one), top and empty tell the truth.',
     ['histories', 'schedules', 'faults'], 'Every history of allocations and releases of any sizes, every interleaving of threads sharing a list or a pool, failures of the allocator below.',
     'A block given out twice shows only for particular sizes, orders of release and interleavings; no test of the repository uses these allocators directly.',
     ['mt/slist.h', 'base/memory/poolalloc.h', 'base/memory/clusterAlloc.h', 'base/memory/clusterAlloc.cpp', 'base/memory/runtimeAlloc.h', 'base/memory/dynobject.cpp'],
     [('list shared by threads', 'mt/slist.h'), ('pool', 'base/memory/poolalloc.h'), ('clusters', 'base/memory/clusterAlloc.cpp'), ('buffers and objects', 'base/memory/runtimeAlloc.h')],
     'Interleavings of 2-3 threads with programs of up to five operations (fewer than sixteen removals, which is the documented limit of the cookie), preemption bounded; sequential histories up to 700 operations. Reads of a node which another thread has just released are part of the design of SList and not judged.', technique=TLA_CONC)

NOT_APPLICABLE = []


def main():
    sys.path.insert(0, os.path.join(V, 'vf'))
    import checks
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    miss = set(checks.CHECKS) ^ set(ids)
    assert not miss, 'properties without checks or checks without properties: %s' % sorted(miss)
    for p in P:
        for f in p['anchors']['files'] + [x['where'] for x in p['anchors']['mechanism']]:
            assert os.path.exists('/repo/' + f), f
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            h.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    m = dict(version=1, setup_cmd='python3 /verif/vf/run.py setup', hooks=dict(guard='', enable='', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd='python3 /verif/vf/run.py check %s' % p['id'], thorough_cmd='python3 /verif/vf/run.py check %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=p['_technique'], level=p['_level'], level_note=p['_note']) for p in P],
             not_applicable=NOT_APPLICABLE, notes='See DESIGN.md. No hooks in /repo: the machinery instruments the unmodified sources at compile time.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
