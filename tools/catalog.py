"""The properties: single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
IN, INH, SCH = ['inputs'], ['inputs', 'histories'], ['schedules', 'histories']


def P(id, title, statement, over, text, why, files, mech, na=None, level='proof', note='', state=None, observe=None, how=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, level=level, note=note, state=state, observe=observe, how=how)


CATALOG = [
    P('B01', 'Forward list operations are exact sequence operations',
      'A singly linked intrusive list is always exactly the sequence of elements its operations describe: append, prepend, insert, pop, move, bulk append/prepend of another list or chain, clear and iteration give the same elements in the same order as the mathematical sequence, and no other element or list is touched. The list stays usable after every operation, including with none, one or many elements.',
      INH, 'all list states and all operation arguments, hence all operation histories',
      'Tests build a few lists of a few elements; a wrong link (e.g. the stale last link after popping the only element) shows only in the operation that follows, for lists of particular lengths.',
      ['src/mg/box/ForwardList.h'], [('list operations', 'src/mg/box/ForwardList.h:ForwardList'), ('iterators', 'src/mg/box/ForwardList.h:ForwardListIterator')],
      how="ghost sequence per list (node/pos functions); representation predicate: head, last link, next links, null end; every operation's post gives the new sequence, list-to-list operations take two predicates; frame on all other links"),
    P('B02', 'Doubly linked list operations are exact sequence operations',
      'A doubly linked intrusive list is always exactly the sequence its operations describe: append, prepend, remove, pop, move, reverse, bulk append and prepend and iteration act as on the mathematical sequence, with forward and backward links mirroring each other and nothing else touched. Removing works at the head, in the middle and at the tail, and removed elements keep no stale role in the list.',
      INH, 'all list states and all operation arguments',
      'Back links are not even read by most tests; a broken back link is noticed only by a later removal or reverse at just that position.',
      ['src/mg/box/DoublyList.h'], [('list operations', 'src/mg/box/DoublyList.h:DoublyList'), ('iterators', 'src/mg/box/DoublyList.h:DoublyListIterator')],
      how='as B01 with prev links mirroring; loops (reverse, bulk) by invariants'),
    P('B03', 'Binary heap keeps its elements, its order and the indexes stored in them',
      'A binary heap always holds exactly the multiset of elements pushed and not yet removed; its top is an extremal element (smallest for min heaps, largest for max heaps), and every stored element knows its own current position. Push, update after a key change in either direction, remove of any element and pop preserve this, and a removed element is marked as no longer in a heap.',
      INH, 'all heap states, keys and operation arguments',
      'A sift that stops one level early or forgets one position update only breaks some later operation for particular shapes and keys.',
      ['src/mg/box/BinaryHeap.h'], [('heap operations', 'src/mg/box/BinaryHeap.h:BinaryHeap'), ('index hooks', 'src/mg/box/BinaryHeap.h:BinaryHeapMinPtrIntrusiveMethods')],
      how="predicate: index of element i is i, heap order parent<=child, bijection old->new positions as ghost permutation; sift loops by a 'hole' invariant"),
    P('B04', 'Deadline arithmetic never wraps and infinity is preserved',
      'Converting between durations, time points and time limits is exact: now plus a duration saturates at infinity instead of wrapping, a passed point gives a zero duration, an infinite point or duration stays infinite, and negative durations become zero. Points keep their order.',
      IN, 'all 64-bit clock values and limits, including infinity and its neighbours',
      'Tests use small limits; wraparound appears only within a clock reading of 2^64.',
      ['src/mg/box/Time.h'], [('conversions', 'src/mg/box/Time.h:TimeLimit::ToDurationFromNow')],
      how='pre/post on every TimeLimit/TimePoint/TimeDuration conversion over 64-bit wrapping arithmetic with an arbitrary clock'),
    P('B05', 'Advancing a scatter/gather vector consumes exactly the given bytes',
      'Advancing an IO vector by a byte count leaves exactly the unconsumed suffix of the original bytes, in order: entries fully consumed are skipped, the entry at the boundary is cut at the right byte, entries behind it are untouched, and the remaining count matches. No memory outside the vector is touched, for any entry sizes including empty ones.',
      IN, 'all vectors and offsets',
      'Boundary cases (offset ending exactly at an entry, empty entries, partial sends) are sampled by tests only a few times.',
      ['src/mg/box/IOVec.cpp'], [('IOVecPropagate', 'src/mg/box/IOVec.cpp:IOVecPropagate')],
      how='ghost byte offsets; loop invariant: bytes consumed so far + remaining = total'),
    P('B06', 'Multi-producer queue delivers every element once and in order',
      'An element pushed to the multi-producer queue is popped exactly once, and elements come out in the order in which their pushes took effect: a batch keeps its order and is not torn apart, elements of one producer keep their order. Exactly the push which makes the queue non-empty says so, a pop takes everything that is there, and what the pusher wrote to an element before the push is visible to who pops it. No link of an element is touched while another thread may own it.',
      SCH, 'all interleavings of any number of producers and consumers, all batch sizes',
      'Tests run a few threads on one machine; a lost or doubly delivered element needs a compare-exchange to fail at one particular moment, and a missing memory order shows only on weaker hardware.',
      ['src/mg/box/MultiProducerQueueIntrusive.h'], [('push and pop', 'src/mg/box/MultiProducerQueueIntrusive.h:MultiProducerQueueIntrusive')],
      how='rely/guarantee: ghost FIFO sequence and owner per element; every push/pop is exactly one atomic step on it; retry and reversal loops by invariants; acquire/release obligations'),
    P('B07', 'Reference counting destroys each object exactly once, when its last user leaves',
      'The reference count of an object always equals the number of references to it. Copying, moving, assigning, resetting, wrapping, unwrapping and destroying shared pointers, including onto itself, across related types, with null, or between two pointers of the same object, change the counts by exactly the references which appear or disappear: no leak, no early or double destruction. Whoever drops the last reference, and nobody else, destroys the object, after everything the other users did with it; nothing touches an object through a reference already given up.',
      SCH, 'all pointer states, all aliasing between them and all interleavings of reference changes by any number of threads',
      'A leak, or a missing memory order at the last drop, makes no test fail; aliasing cases and destruction races are sampled rarely.',
      ['src/mg/box/SharedPtr.h', 'src/mg/box/RefCount.h'], [('shared pointer', 'src/mg/box/SharedPtr.h:SharedPtrIntrusive'), ('counter', 'src/mg/box/RefCount.h:RefCount')],
      how='rely/guarantee on the counter: count = mine + others; each pointer operation changes mine by the pointers appearing/disappearing for every aliasing; destruction only by the last owner, after acquire'),
    P('B08', 'A sent signal is received exactly once and nobody sleeps through it',
      'A send is either received by exactly one later receive or merged into a signal which is still pending: it is never lost or received twice. Nobody waits while a signal is pending, a waiter is woken up by a send, and a timed receive gives up only after having waited for its limit or a wakeup. A successful receive is ordered after everything done before every send merged into that signal, and the receiver may destroy the signal at once: no sender touches it any more.',
      SCH, 'all interleavings of any number of senders and receivers, including destruction right after a receive',
      'The race between a sender leaving and the receiver destroying the signal, or a wakeup falling between check and sleep, is a window of a few instructions; a missing memory order has no effect on the machine the tests run on.',
      ['src/mg/box/Signal.cpp', 'src/mg/box/Signal.h'], [('send and receive', 'src/mg/box/Signal.cpp:Signal::Send')],
      how='rely/guarantee on the three-state machine with ghosts for the probing sender, the lock, the set signal and "given away"; obligations: one releasing write per send, set and notify inside one critical section, nothing touched after it, no wait while set, acquire on receive'),
    P('B09', 'The mutex is exclusive and recursive, also across condition variable waits',
      'Between a thread\'s first lock of a mutex and its matching last unlock no other thread gets it; the owner may lock it again any number of times and releases it only with the last unlock; only the owner counts as owning it, and a try-lock fails only while another thread owns it. A scoped lock releases exactly once. A wait on a condition variable releases the mutex while sleeping and returns with the mutex owned exactly as before; a timed wait sleeps for exactly its limit, including huge and infinite limits, and reports a timeout only when the limit has passed. Asking for ownership from any thread is free of data races.',
      SCH, 'all interleavings of any number of threads, all nesting depths and all time limits',
      'A wrong owner left over after a wait or an unlock shows only when another thread asks at that moment; huge limits overflow only far from the values tests use.',
      ['src/mg/box/Mutex.cpp', 'src/mg/box/Mutex.h', 'src/mg/box/ConditionVariable.cpp', 'src/mg/box/ConditionVariable.h'], [('lock and unlock', 'src/mg/box/Mutex.cpp:Mutex::Lock'), ('waits', 'src/mg/box/ConditionVariable.cpp:ConditionVariable::TimedWait')],
      how='rely/guarantee over an assumed std::mutex: ghosts held and depth; lock invariant owner == 0 and count == 0 proved at every release and assumed at every acquisition; the counter is touched by the holder only; the timeout handed to the standard library equals the limit and does not overflow it'),
    P('B10', 'The interruptible mutex is exclusive and hands over to its waiters',
      'At most one thread owns an interruptible mutex; a failing try-lock happens only while it is owned or waited for, and never lets anybody in ahead of waiters. A blocking lock, if somebody owns the mutex, runs the wakeup callback of the first waiter, and each waiter gets the mutex from an unlock: none is forgotten and none gets it twice. What an owner did before leaving is visible to the next one.',
      SCH, 'all interleavings of any number of lockers, try-lockers and unlockers',
      'Losing a waiter needs an unlock to fall between the waiter\'s failed attempt and its registration; a missing memory order shows only on weaker hardware.',
      ['src/mg/box/InterruptibleMutex.cpp', 'src/mg/box/InterruptibleMutex.h'], [('lock, unlock', 'src/mg/box/InterruptibleMutex.cpp:InterruptibleMutex::Unlock')],
      how='rely/guarantee on the flag word: ghost owner, waiter count, internal mutex; TAKEN iff owned; at every release of the internal mutex the waiters flag is set iff somebody waits; permitted steps take / leave / flag / hand over; acquire and release obligations'),
    P('B11', 'Every atomic method is the operation it is named after',
      'Each method of the atomic wrapper performs exactly one atomic operation on the value - the one in its name, with at least the memory order in its name - and returns the old or new value as named, for every value of every provided type including wraparound and the sign of the type. A strong compare-exchange fails only on a different value, a failing one reports the value seen, a successful one changes nothing but the value.',
      IN, 'all values of all atomic types',
      'There are some seventy methods for ten types: tests call few of them, with small values, and cannot see memory orders on the machine they run on.',
      ['src/mg/box/Atomic.h'], [('methods', 'src/mg/box/Atomic.h:Atomic')],
      how='one contract per method and type (generated from the method name): one access, its order, its value in two\'s complement, the result'),
    P('B12', 'Each post of a task leads to exactly one execution, in its time',
      'Every task posted to a scheduler with workers is executed exactly once per post, by one worker at a time, whatever re-posts, deadlines, wakeups and other tasks are going on; it is never forgotten in any of the queues and never runs twice for one post, and nothing in the scheduler touches it once its execution has begun, so it may be re-posted or deleted there. It does not run before its deadline unless it was woken up or signaled; it reports itself as expired exactly if the deadline has passed; inside the execution the deadline is reset. A worker sleeps only when nothing is ready, and the scheduling one not longer than until the nearest deadline.',
      SCH, 'all interleavings of any number of posters, wakers and workers, all deadlines, all batch sizes and any number of tasks',
      'The hand-over between front queue, waiting queue, ready queue and workers has windows of a few instructions in which a task can be lost or doubled, e.g. a wakeup arriving while its deadline expires; tests hit them by luck.',
      ['src/mg/sch/TaskScheduler.cpp', 'src/mg/sch/TaskScheduler.h', 'src/mg/sch/Task.cpp', 'src/mg/sch/Task.h'], [('scheduling', 'src/mg/sch/TaskScheduler.cpp:TaskScheduler::PrivSchedule'), ('execution', 'src/mg/sch/TaskScheduler.cpp:TaskScheduler::PrivExecute'), ('worker', 'src/mg/sch/TaskScheduler.cpp:TaskSchedulerThread::Run')],
      how='rely/guarantee with one ghost token per task (the place which holds the right to run it); every primitive moves the token by its contract, queue and heap calls are checked against the contracts proved for B01, B03, B06; PrivSchedule loops carry the invariant that nothing is dropped; the deadline and expiry facts are obligations at the moment a task is chosen'),
    P('B13', 'Wakeups and signals of tasks are never lost or doubled',
      'A wakeup or a signal sent to a task from any thread at any moment makes the task run again without waiting for its deadline; a signal is received exactly once by ReceiveSignal, after everything done before it was sent, several unreceived signals merge into one, and a wakeup never hides a signal. The sender touches the task no more once the task can see the signal, so the receiver may delete it. Coroutine operations post or finish the task exactly once and do not touch the coroutine or the task after giving it away.',
      SCH, 'all interleavings of any number of wakers and signalers with the scheduler and the task itself',
      'A sender which meets the task between its execution and its parking, or while its deadline expires, is a matter of a few instructions; use after delete and missing memory orders stay invisible in tests.',
      ['src/mg/sch/Task.cpp', 'src/mg/sch/Task.h', 'src/mg/sch/TaskScheduler.cpp'], [('wakeup and signal', 'src/mg/sch/Task.cpp:Task::PostSignal'), ('receive', 'src/mg/sch/Task.cpp:Task::ReceiveSignal'), ('parking', 'src/mg/sch/TaskScheduler.cpp:TaskScheduler::PrivSchedule')],
      how='the same ghost tokens; permitted status steps per role (scheduler, waker, owner, executor) with memory orders; the waker which saw WAITING owes exactly one push, any other none; no access after the task may be gone'),
    P('B14', 'A scheduler reported as empty has no tasks',
      'When IsEmpty returns true, there was a moment during the call at which no posted task was in any queue of the scheduler or executed by a worker, apart from tasks parked without a deadline; so WaitEmpty, and the destructor which relies on it, do not miss a task which is running, moving between queues or re-posting itself.',
      SCH, 'all interleavings of the check with any number of workers and self-re-posting tasks',
      'A task has to move from a place not yet checked to one already checked within a few instructions.',
      ['src/mg/sch/TaskScheduler.cpp', 'src/mg/sch/TaskScheduler.h'], [('emptiness', 'src/mg/sch/TaskScheduler.cpp:TaskScheduler::IsEmpty'), ('worker states', 'src/mg/sch/TaskScheduler.cpp:TaskSchedulerThread::Run')],
      how='ghost facts which are stable from their observation under the scheduler mutex: ready queue empty, then each worker idle (loop invariant over the worker vector), then front queue empty; the worker\'s contract: running is announced before a task is taken, idle only with none in hand'),
    P('B15', 'Buffer streams and chains carry exactly the bytes put into them, in order',
      'A buffer stream is a byte queue: whatever sequence of copying, referencing and received writes, reservations, skips, reads, peeks and pops, reading returns exactly the written bytes in order, the read size is the number of unread bytes and the write size the free space that can be filled, and writing never touches bytes already stored or memory that is not the stream\'s. Copies and references of data, chains and lists of chains have exactly the bytes of the original; the vectors made for writing cover exactly the unsent bytes in order, those for reading exactly the free space. Skipping in a list of links drops exactly that many bytes and changes no shared buffer. Dropping a chain frees each buffer which has no other owner once, without recursion.',
      IN, 'all chains of any length with any mix of buffer sizes, fill levels and empty buffers, all byte counts up to 2^62',
      'The reader and writer ends move over buffers of different kinds (owned, referenced, reserved, empty); a defect needs a particular fill level at a buffer border followed by a particular operation.',
      ['src/mg/net/Buffer.cpp', 'src/mg/net/Buffer.h'], [('streams', 'src/mg/net/Buffer.cpp:BufferStream::WriteCopy'), ('link lists', 'src/mg/net/Buffer.cpp:BufferLinkList::SkipData'), ('vectors', 'src/mg/net/Buffer.cpp:BuffersToIOVecsForWrite')],
      how='a stream is a chain of buffers with ghost prefix sums of data and free space; the representation invariant (read end, write position, sizes, exclusive memory) is kept by every operation; contents are stated byte by byte against a ghost content function; link lists are a chain of chains with a ghost count of the references held on each buffer; the induction lemmas on sums are discharged as obligations of their own'),
    P('B16', 'Multi-consumer queue delivers every item once, in order, and counts right',
      'Every item pushed to the multi-consumer queue is popped by exactly one consumer, and items are popped in the order they were pushed, however many consumers pop, attach, detach and fall behind, and however often exhausted blocks are reused. A pending item is invisible until the next push or flush, and then becomes visible with everything pending before it. A pop returns nothing only if at some moment of the call nothing visible was in the queue. A push or flush says that the queue was empty exactly when the counter was zero as the items were counted; the counter never goes below the number of visible items, and a zero counter means that nothing is visible and that what the consumers did before taking the items is seen. Who pops an item sees what its producer did before the push. A block is reused only when all its items are popped and no consumer or producer is on it; the destructor frees each one once.',
      SCH, 'all interleavings of one producer and any number of consumers, all block sizes, all histories of attaching, falling behind and reuse',
      'An item is lost, repeated or reordered only when a block is reused while a slow consumer stands at one particular instruction; a missing memory order shows only on weaker hardware. Both were true of the original code (23dc044, ba42380) with all tests passing.',
      ['src/mg/box/MultiConsumerQueueBase.cpp', 'src/mg/box/MultiConsumerQueueBase.h', 'src/mg/box/MultiConsumerQueue.h'],
      [('blocks', 'src/mg/box/MultiConsumerQueueBase.cpp:MCQBaseSubQueue'), ('queue', 'src/mg/box/MultiConsumerQueueBase.cpp:MCQBaseQueue'), ('consumers', 'src/mg/box/MultiConsumerQueueBase.cpp:MCQBaseConsumer')],
      how='rely/guarantee on two levels: one life of a block (visible prefix, pending items, null terminator, acquire/release of slots and read-index), then the list of blocks holding consecutive item numbers (attachments, recycling, write position, counters), using the block contracts; lock invariant for the list'),
    P('B17', 'Each post of an IO task leads to one execution, with readiness kept',
      'Every task posted to the I/O core is executed exactly once per post, wakeup or readiness report, by one worker at a time, until it is closed; it is never lost or held twice in any queue, and after its close was completed neither the core nor its workers touch it. A wakeup from any thread at any moment makes it run; a close, once posted, makes it run until it completes the close, and a wakeup never hides a close. Readiness, error and hang-up reported by the kernel are handed to the task exactly once and not dropped while it is executed; a readiness which a send, receive, accept or connect did not consume is kept, one it found exhausted is cleared, errors are returned and never taken for data. It does not run before its deadline unless woken up, ready or closed; inside the execution the deadline is reset. Stop ends every worker without waiting for a deadline, and WaitEmpty returns only when no task is attached, with everything they did visible.',
      SCH, 'all interleavings of any number of posters, wakers, closers, workers and kernel reports, all deadlines, batch sizes and event masks, all results of system calls',
      'The window between an execution, the parking of the task and an edge-triggered report is a few instructions, and an event lost there never comes again; tests hit it by luck and cannot see memory orders or races. Three such defects were in the original code with all tests passing.',
      ['src/mg/aio/IOCore.cpp', 'src/mg/aio/IOCore.h', 'src/mg/aio/IOCore_epoll.cpp', 'src/mg/aio/IOTask.cpp', 'src/mg/aio/IOTask.h', 'src/mg/aio/IOTask_epoll.cpp'],
      [('scheduling', 'src/mg/aio/IOCore.cpp:IOCore::PrivScheduleDo'), ('execution', 'src/mg/aio/IOCore.cpp:IOCore::PrivExecute'), ('waking and closing', 'src/mg/aio/IOTask.cpp:IOTask::PostClose'), ('operations', 'src/mg/aio/IOTask_epoll.cpp:IOTask::Send')],
      how='rely/guarantee with one ghost token per task (the place which holds the right to run it) moved by each primitive, as in B12; status word steps per role with memory orders; kernel reports are ghost pending events which each must end in the task exactly once; queue, heap and signal calls are checked against the contracts of B01, B03, B06, B08, B16; system calls by a contract on results and errno; the user operations by sequential contracts on the readiness bits'),
    P('B18', 'A TCP socket sends and receives exactly what was requested, and closes once',
      'Data given to Send() or PostSend() of an asynchronous TCP socket is passed to the socket exactly once, entirely, in the order of the requests, while the socket lives. A requested receipt reads at most the requested number of bytes into the buffer it reports, and is started as soon as the socket is readable, whichever callback requested it. A posted operation (send, receive, connect, attach, shutdown, handshake, close, deadline, wakeup) takes effect without further requests. Shutdown happens once, after the connection is established, never before it, and is not lost. Failed connection and closing are reported once; nothing is reported after the close; the socket handle and the name request are released exactly once. A connection by name uses an address resolved by the request, and the late or canceled request does not touch a destroyed one.',
      SCH, 'all interleavings of any number of posters with the worker, all contents and sizes of queues, all results of system calls and of the TLS-free socket layer, all event masks, all orders of requests from callbacks',
      'The requests are handed to the worker through a mutex, and run with edge-triggered events; an operation is lost only when it is posted or requested in the right callback at the right moment. Three such defects were in the original code with all tests passing.',
      ['src/mg/aio/TCPSocketIFace.cpp', 'src/mg/aio/TCPSocketIFace.h', 'src/mg/aio/TCPSocketCtl.cpp', 'src/mg/aio/TCPSocketCtl.h', 'src/mg/aio/TCPSocket.cpp'],
      [('socket', 'src/mg/aio/TCPSocketIFace.cpp:TCPSocketIFace::OnEvent'), ('control requests', 'src/mg/aio/TCPSocketCtl.cpp:TCPSocketCtl::DoConnect'), ('sending and receiving', 'src/mg/aio/TCPSocket.cpp:TCPSocket::ProtOnEvent')],
      how='front data is described by an invariant which holds whenever the mutex is free, worker data by an invariant between callbacks; posters are the environment at each lock, user callbacks may do any sequence of legal requests; the queues of bytes are values of a concatenation monoid, so the bytes sent are proved to be a prefix of the bytes requested; I/O events, the task of B17, buffers of B15 are used by contracts; the request of name resolution is a rely/guarantee pair with its own ownership flag'),
    P('B19', 'Each name resolution calls its callback exactly once, with a right result',
      'Every asynchronous name resolution which was posted calls its callback exactly once: with all the distinct IPv4 and IPv6 addresses which the resolver returned, or with an error; with a timeout error only when its deadline has come, with a cancellation error only when it was canceled. A request which is posted or canceled from any thread at any moment wakes up the worker; the worker never sleeps while requests wait for it, and serves or times out everything which is due. A request lives as long as the worker or its owner can reach it and is released by both exactly once, canceled before, during or after the resolution. The list given by the resolver is freed once, after its last use.',
      SCH, 'all interleavings of any number of threads posting and canceling with the worker, all contents of the queues, all deadlines, all lists of addresses and errors of the resolver',
      'Which of the cancellation, the timeout and the resolution comes first depends on the moment when the other thread takes the mutex; tests resolve a few names with a resolver which answers the same.',
      ['src/mg/net/DomainToIP.cpp', 'src/mg/net/DomainToIP.h'],
      [('the worker', 'src/mg/net/DomainToIP.cpp:DomainToIPWorker::PrivProcessFront'), ('the resolution', 'src/mg/net/DomainToIP.cpp:DomainToIPContext::Process')],
      how='the lists and the heap are ghost sets changed by the contracts of B01, B02, B03; those under the mutex change at each lock by the steps of the other threads; each context has ghost counts of answers and of the references owned by the worker, and each use is proved to be of an owned one; the address loop has an invariant with ghost witnesses (entry -> endpoint, endpoint -> entry)'),
]
