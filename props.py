"""The properties, in one place; gen.py writes properties.jsonl and MANIFEST.json from here."""
P = {}
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))

prop('C01', 'Streams deliver every chunk exactly once and in order',
 'Whatever chunks a producer successfully puts into a stream reach the stream\'s reader exactly once, unmodified and in the order in which they were accepted. A terminal chunk (end or error) comes after all data accepted before it, and a stream that was never ended is never reported as ended while it is open.',
 ['schedules', 'histories'], 'every interleaving of producers (blocking and non-blocking writes, failures of the non-blocking one included), readers, cancelled writes and close, on streams of every buffer size',
 'the unit tests push a few chunks through one stream in one order; they never interleave blocked writers, cancelled futures and several chunks kinds',
 ['src/runtime/stream_manager.rs'], [('bounded channel per stream, metadata removed first on close', 'src/runtime/stream_manager.rs')],
 ['values returned by the write, try-write, read and take-receiver operations'])
prop('C02', 'Streams exert backpressure and never lose a wakeup',
 'A stream never holds more unread chunks than its high-water mark: further blocking writes wait and further non-blocking writes are refused. A waiting writer proceeds once there is room, a waiting reader once there is a chunk, and both finish when the stream is closed or its other side is gone.',
 ['schedules', 'histories'], 'every sequence of operations up to the stated depth and every poll order of the blocked operations',
 'a lost wakeup or an off-by-one in the bound needs a particular order of write, read, cancel and close; tests run one order',
 ['src/runtime/stream_manager.rs'], [('tokio bounded mpsc with the configured high-water mark', 'src/runtime/stream_manager.rs')],
 ['completion of write and read futures', 'results of non-blocking writes'])
prop('C03', 'Streams are isolated from each other; closed ones stay closed',
 'An operation on one stream never affects or observes another one, including when all streams were closed at once and new ones were created afterwards while producers or readers of the old ones still hold their identifiers. After a stream is closed nothing can be written to it or read from it and it is no longer counted or described as active.',
 ['histories', 'schedules'], 'every history of create, write, read, close, clear, take on up to three streams, with operations on stale identifiers, in every poll order',
 'tests use fresh managers with one or two streams and never touch an identifier after its stream went away',
 ['src/runtime/stream_manager.rs'], [('monotonic stream ids', 'src/runtime/stream_manager.rs'), ('metadata, senders and receivers are removed together', 'src/runtime/stream_manager.rs')],
 ['results of operations on old and new stream ids', 'active count and stream description'])
prop('C04', 'A streamed request body arrives complete, in order, with its ending',
 'A request body that arrives in pieces is forwarded to the worker\'s stream in order and without loss or duplication, followed by exactly one end, or by the error with which the source failed. The source is read no further ahead than the stream and channel buffers allow, and it is released when the worker stops reading, closes the stream or goes away.',
 ['schedules', 'histories', 'fault_sequences'], 'every number of pieces, source failure or regular end, buffer sizes, early abandonment point and task interleaving within the bound',
 'no test streams a request body with a failing source or a reader that stops early',
 ['src/runtime/stream_manager.rs', 'src/worker.rs'], [('pump task between the body channel and the stream', 'src/runtime/stream_manager.rs')],
 ['chunks read from the body stream', 'whether the body source is still blocked'])
prop('C05', 'The isolate lock admits one holder and never forgets a waiter',
 'At any time at most one party holds the asynchronous isolate lock. Whenever it is released while parties are waiting for it, one of them is woken and can take it, for every interleaving of acquisition attempts, releases and registrations by any number of threads.',
 ['schedules'], 'all thread interleavings (preemption bound stated) of two to three threads acquiring and releasing, and all poll orders of up to four tasks',
 'tests call the lock operations one after another on one thread; the window between a failed attempt and the registration of its waker is never hit',
 ['src/async_waiter.rs', 'src/locker_managed_isolate.rs'], [('atomic locked flag and waiter queue under a mutex', 'src/async_waiter.rs')],
 ['who holds the lock', 'which wakers are woken', 'whether all tasks finish'])
prop('C06', 'Waiters for the isolate lock are woken in arrival order',
 'Each release of the asynchronous isolate lock wakes exactly the party that registered first among those waiting, and nobody else; when nobody waits, the lock is simply free. Parties obtain the lock in the order in which they started to wait for it.',
 ['schedules', 'histories'], 'all orders of attempts, releases and wakeups of up to four tasks up to the stated depth',
 'the tests queue two or three wakers in one order',
 ['src/async_waiter.rs'], [('FIFO waiter queue', 'src/async_waiter.rs')], ['order in which wakers are called', 'queue length'])
prop('C07', 'ArrayBuffer memory stays within the configured limit',
 'The ArrayBuffer memory of an isolate never exceeds its configured limit: an allocation that does not fit fails, for every size, without any effect on the accounting, and memory already handed out stays usable. A request that fits into what is free is granted, even while other threads allocate and free concurrently.',
 ['inputs', 'histories', 'schedules'], 'every sequence of allocations (sizes 0, small, exactly filling, one too many, near the integer maximum) and frees up to the stated depth, and all interleavings of two to three threads doing so',
 'no test allocates through the limiting allocator at its boundary or from several threads',
 ['src/security/array_buffer_allocator.rs'], [('atomic byte counter checked against the limit', 'src/security/array_buffer_allocator.rs')],
 ['result of each allocation', 'reported memory usage'])
prop('C08', 'ArrayBuffer accounting is exact and new buffers are zeroed',
 'The reported ArrayBuffer memory usage always equals the number of bytes currently allocated, and returns to its starting point when everything was freed. A new buffer that scripts can see is filled with zeros, wherever its memory came from, and no two live buffers overlap.',
 ['histories', 'inputs'], 'every sequence of zeroed and uninitialised allocations and frees up to the stated depth, with dirty memory being recycled',
 'usage drift or recycled dirty memory only shows after particular histories; tests check one allocation',
 ['src/security/array_buffer_allocator.rs'], [('allocate/free account the same length', 'src/security/array_buffer_allocator.rs'), ('zeroing allocation', 'src/security/array_buffer_allocator.rs')],
 ['reported memory usage', 'content of new buffers'])
prop('C09', 'External memory reports balance and reach the right isolate',
 'The sum of the external-memory adjustments an isolate has received always equals the sizes of its live guards, returns to zero when all guards are gone whatever thread dropped them, and an adjustment is made only by a party that holds that isolate\'s lock. Nothing is lost or counted twice when guards are dropped concurrently with adjustments being applied.',
 ['histories', 'schedules'], 'every sequence of creating and dropping guards under the own lock, a foreign isolate\'s lock or none, and of applying pending adjustments; all interleavings of concurrent drops and applications',
 'tests drop one guard on the thread that made it, with the lock held', ['src/gc/external_memory.rs'],
 [('deferred adjustments applied with the lock held', 'src/gc/external_memory.rs')], ['calls to adjust_amount_of_external_allocated_memory and the lock held then'])
prop('C10', 'Deferred V8 handles are destroyed exactly once, with the lock held',
 'Every handle that is dropped without the isolate lock is destroyed exactly once, later, by a party holding the lock; the number of pending destructions that is reported matches the queue, and none is left behind once processing has run after the last drop.',
 ['schedules', 'histories'], 'all interleavings of two to three threads deferring and a lock holder processing, within the preemption bound',
 'tests defer and process one after the other on one thread', ['src/gc/deferred_destruction.rs'],
 [('queue under a mutex with a pending counter', 'src/gc/deferred_destruction.rs')], ['number of destructor runs per handle', 'reported pending count'])
prop('C11', 'Reported object sizes cover the memory they own',
 'The size reported to the garbage collector for a tracked value is the memory that value owns, for strings, vectors (by capacity), boxes, options, tuples and derived structs and enums, and the tracking guard of a value keeps V8\'s figure equal to that size as the value grows, shrinks, is replaced and dropped.',
 ['inputs', 'histories'], 'every shape up to the stated depth with sizes 0, 1 and several and spare capacity; every sequence of modifications and updates of a tracked value up to the stated depth',
 'tests check three or four literals', ['src/gc/traceable.rs', 'src/gc/external_memory.rs', 'gc-derive/src/lib.rs'],
 [('GcTraceable::external_memory_size', 'src/gc/traceable.rs')], ['external_memory_size()', 'adjustments received by V8'])
prop('C12', 'The wall-clock limit stops only the execution it guards',
 'A wall-clock limit terminates the execution it was armed for, once, no earlier than its deadline, and never if that execution finished and its guard was dropped before; then no later execution is disturbed. The guard reports that it triggered exactly when it terminated the isolate, and its watchdog thread is gone once the guard is dropped. A limit of zero means no limit.',
 ['schedules', 'histories'], 'all interleavings of the watchdog thread, the executing thread and time passing, within the preemption bound; one or two guards in sequence',
 'the tests sleep well before or after the deadline; the window in which the deadline passes while the guard is dropped is never hit', ['src/security/timeout_guard.rs'],
 [('watchdog thread waiting on a channel with timeout', 'src/security/timeout_guard.rs')], ['calls to terminate_execution with their time', 'was_triggered()', 'live watchdog threads'])
prop('C13', 'The CPU limit stops only the execution it guards',
 'When the CPU time of an execution exceeds its limit, that execution\'s isolate is terminated, exactly once, and its enforcer reports it; no other isolate is affected. Once the enforcer has been dropped no expiry of its timer, however late it is processed, terminates anything. The kernel timer carries exactly the configured limit, measures CPU time of the executing thread and is deleted with the enforcer; a limit of zero, or a timer that cannot be created or armed, leaves no enforcer and no timer behind.',
 ['histories', 'schedules', 'fault_sequences'], 'every sequence of creating (with timer faults), expiring, rearming and dropping two enforcers, expiries that are delivered after the drop included; the drop placed before every synchronization step of the signal thread; bursts of simultaneous expiries',
 'tests let one timer expire in one order; expiries that race with the drop of the enforcer or come in bursts are not tried', ['src/security/cpu_enforcer.rs'],
 [('registry of live enforcers consulted by the signal thread', 'src/security/cpu_enforcer.rs'), ('POSIX per-thread CPU timer', 'src/security/cpu_enforcer.rs')],
 ['calls to terminate_execution', 'was_terminated()', 'arguments of timer_create, timer_settime and timer_delete'])
prop('C33', 'ReadableStream follows its contract in JavaScript',
 'A ReadableStream in worker code delivers every enqueued chunk once and in order, whether the read came before or after the chunk; closing takes effect after the queued chunks, an error or a cancel ends all pending and later reads and settles reader.closed; a stream has at most one reader, cancel reaches the source exactly once with its reason, pull is called only while the consumer waits for data, and both branches of a tee see every chunk.',
 ['histories', 'schedules', 'fault_sequences'], 'every sequence of enqueue, close, error, getReader, read, releaseLock and cancel up to the stated depth; every pull source of the listed kinds (synchronous, asynchronous, failing); every order of reads and cancels of the two tee branches',
 'tests read one prepared stream to the end', ['src/runtime/streams.rs'], [('JavaScript stream implementation installed in every context', 'src/runtime/streams.rs')],
 ['settlement of read(), cancel() and closed promises', 'calls of the source\'s pull and cancel'])
prop('C30', 'Cryptographic results are the standard ones, and nothing forged is accepted',
 'crypto.subtle.digest, HMAC, PBKDF2, RSASSA-PKCS1-v1_5 and ECDSA P-256 give exactly the results of the standards for data and keys of every length, taken from the bytes a view covers at the time of the call; importKey copies the key. verify() accepts every valid signature and no other: none that is changed in a bit, cut, extended or made for other data, another key, hash or algorithm. A key is used only with the algorithm it was made for; unknown hashes, curves and lengths that are not whole bytes are refused. getRandomValues fills exactly the bytes of the view it returns, refuses other arrays and more than 65536 bytes; random values and UUIDs (version 4) do not repeat.',
 ['inputs', 'histories'], 'all listed lengths around the block sizes of the hashes, kinds of views, formats and algorithms in combination; every single-bit change and truncation of signatures, data and keys; all histories of imports, signatures, verifications and changes to the source buffers up to the stated depth',
 'the tests check one known digest and one round trip per algorithm', ['src/runtime/crypto'],
 [('crypto.subtle', 'src/runtime/crypto/mod.rs')], ['results compared with implementations written from the standards', 'results of verify'])
prop('C31', 'Text and base64 conversions are exact',
 'TextEncoder, TextDecoder, btoa and atob compute exactly what their standards define: UTF-8 with replacement of each maximal invalid sequence (or a TypeError when fatal), lone surrogates replaced when encoding, byte order mark handling, legacy encodings by label, encodeInto never splitting a character and reporting what it did; base64 round-trips all bytes and what is not base64 (the URL-safe letters are accepted too) is refused.',
 ['inputs'], 'all byte sequences over the boundary bytes of UTF-8 up to the stated length with every last byte, in every kind of view; all strings of boundary code units up to the stated length with every destination size; all base64 inputs over a class alphabet up to the stated length; long inputs around powers of two',
 'tests convert a few words; overlong, truncated and surrogate sequences and sizes of the destination are not tried', ['src/runtime/text_encoding.rs', 'src/runtime/bindings/web_api.rs'],
 [('native conversion over encoding_rs', 'src/runtime/text_encoding.rs'), ('table driven base64', 'src/runtime/bindings/web_api.rs')], ['results and exceptions of encode, encodeInto, decode, btoa, atob'])

prop('C26', 'A precompiled worker behaves as its source does',
 'A worker given as a bundle of source and compiled code (made with create_code_cache and pack_code_cache) does exactly what a worker given as that source does: same answers, logs, results and failures, on every way it can be run. Compiled code that is missing, cut, extended, made of another source or by another V8 only costs time: the source decides. Packing and unpacking give back exactly what was packed, for every source and code; what is not a whole bundle (cut, other magic number, a length beyond its end, source that is not UTF-8) is refused, runs nothing and leaves nothing behind.',
 ['inputs', 'histories'], 'every bundle of sources and codes of a few characters and every prefix and changed byte of it; every script of a set that covers the language and the ways to fail × host × kind of event × every kind of damage of the compiled code, cut at every byte',
 'the tests run one script with its intact compiled code', ['src/snapshot.rs', 'src/worker.rs', 'src/execution_context.rs', 'src/runtime/mod.rs'],
 [('V8 code cache next to the source, rejected by V8 when it does not fit', 'src/snapshot.rs')], ['result of unpack_code_cache()', 'answers, logs and results compared with those of the plain source'])
prop('C14', 'The heap limit stops a worker, not the process',
 'A worker that uses more JavaScript heap than its limit is stopped, wherever it does so: while its script is loaded, in a handler, a promise job, a timer, a stream source, a getter the host reads, background work or while its context is reset. The process goes on, whatever the allocation was; nothing further of the worker runs; the execution ends at once, before any other limit, and is reported as a memory limit; its client gets no answer that looks complete. The next executions of a pooled isolate, of this worker and of others, are unharmed and have the configured heap limit again.',
 ['inputs', 'schedules', 'histories', 'fault_sequences'], 'every place where the heap can be full relative to the steps of an execution for every kind of script, load and host, and every way of allocating with a really full heap',
 'the tests allocate in one way in a handler and look at the reported reason only', ['src/security/heap_limit.rs', 'src/security/termination.rs', 'src/worker.rs', 'src/execution_context.rs', 'src/pool.rs', 'src/locker_managed_isolate.rs'],
 [('near-heap-limit callback that terminates the isolate and grants headroom', 'src/security/heap_limit.rs'), ('limit lowered again before the next execution', 'src/pool.rs')], ['result of exec()', 'response and body received', 'what the worker logs after it was stopped', 'heap limit given to V8', 'survival of the process'])
prop('C15', 'An execution ends with the reason that ended it',
 'The result of an execution tells what happened to it: a script that runs past the wall-clock limit ends with the wall-clock timeout, one that uses up its CPU time with the CPU timeout, an external abort as aborted, a thrown exception as an exception with its message, and an execution that finished before any limit as a success. Each execution is ended in bounded time wherever it is stuck (synchronous loop, microtask loop, waiting for an operation that never answers, or several of them one after the other), nothing of it runs on once its limit is exceeded (no queued promise job, no timer that is due), and a limit that ended one execution leaves no mark on the next one.',
 ['schedules', 'histories', 'fault_sequences'], 'every place of a limit expiry relative to the steps of an execution (each host call, each task poll) for every kind of script, limit configuration and host, with a further execution afterwards',
 'the tests let one limit expire well after the script got stuck; expiries near the end of the execution or in a second execution are not tried', ['src/worker.rs', 'src/execution_context.rs', 'src/execution_helpers.rs', 'src/security/timeout_guard.rs', 'src/security/cpu_enforcer.rs'],
 [('termination reason computed from the guards after execution', 'src/execution_helpers.rs')], ['result of exec()', 'result of the following exec()', 'calls to terminate_execution'])
prop('C18', 'A fetch handler\'s answer is delivered as it was given',
 'For every way a fetch handler can answer (respondWith a value, a promise, later or from a callback, return it, an ES module default export), the client receives exactly once the status, the headers and the body that were given; a handler that fails (throws or rejects with anything, null and undefined included) or answers with something that is not a Response is answered with a 500, and the execution itself ends accordingly.',
 ['inputs', 'schedules'], 'every combination of answering style, answered value, delay and body kind, and every order of the operations involved up to the stated deviation bound',
 'the tests answer in two styles with an Error or a Response', ['src/worker.rs', 'src/runtime/bindings/fetch.rs', 'src/execution_helpers.rs', 'src/event_loop.rs'],
 [('response converted and sent from JavaScript through a one-shot channel', 'src/execution_helpers.rs')], ['status, headers and body received', 'result of exec()'])
prop('C19', 'A streamed response body arrives complete or visibly failed',
 'The client of a streamed response receives every chunk the worker enqueued, in order and unchanged, and then the end; when the body fails, or the execution is over before its end, the client sees an error and never a truncated body that looks complete. This holds for every pace of the client, also when the buffer between the two is full.',
 ['schedules', 'histories', 'fault_sequences'], 'every interleaving of the producing worker and of a fast or slow client for every kind of body, within the deviation bound',
 'the tests read short streams with a fast client', ['src/runtime/stream_manager.rs', 'src/runtime/streams.rs', 'src/event_loop.rs', 'src/worker.rs', 'src/execution_context.rs'],
 [('stream manager channels between JavaScript and the client', 'src/runtime/stream_manager.rs')], ['chunks and end received by the client'])
prop('C20', 'Work announced with waitUntil runs to its end',
 'Work that a fetch handler announces with waitUntil is completed before the execution ends, in every style of answering, also when the handler itself fails, and also when more work is announced while waiting; the answer is not held back by it, and work that fails is reported without disturbing the rest.',
 ['schedules', 'inputs'], 'every combination of up to two announced pieces of work of each kind with each style of answer, and every order of the operations involved up to the stated deviation bound',
 'the tests announce one promise that settles in the handler', ['src/runtime/bindings/fetch.rs', 'src/execution_helpers.rs', 'src/worker.rs', 'src/event_loop.rs'],
 [('request-complete flag set after all announced promises have settled', 'src/execution_helpers.rs')], ['which work had finished when the execution ended', 'answer received', 'result of exec()'])
prop('C21', 'A client that leaves ends the work for it',
 'When the client of a streamed response leaves, at whatever moment, the worker is told (its source is cancelled and its abort signal fires), gets a bounded grace period to finish, and the execution ends by itself after that, even if the body never ends; work announced with waitUntil is still completed. Nothing the client does makes the execution fail or hang.',
 ['schedules', 'fault_sequences'], 'every moment of leaving (before the first chunk up to after the last) for every kind of body and worker reaction, within the deviation bound',
 'the tests let the client leave once, after the first chunk', ['src/event_loop.rs', 'src/runtime/stream_manager.rs', 'src/execution_helpers.rs', 'src/runtime/streams.rs'],
 [('client disconnect polled by the event loop, with a grace period', 'src/event_loop.rs')], ['end of the execution', 'cancellation seen by the source', 'finished background work'])
prop('C37', 'A forwarded response passes through unchanged',
 'A worker that answers with the response of its own fetch (as it is, wrapped anew, or after awaiting) passes on status, headers and body chunks, in order and complete, or the failure; this goes on after the handler has returned and while the execution is over, as long as the client keeps the receiver, for every pace of the origin and the client.',
 ['schedules', 'fault_sequences'], 'every origin behaviour listed, way of forwarding, pace of the client and later use of the isolate, all interleavings within the deviation bound',
 'the tests forward one buffered body', ['src/event_loop.rs', 'src/runtime/stream_manager.rs', 'src/runtime/streams.rs', 'src/runtime/bindings/fetch.rs'],
 [('origin body pumped into the stream handed to the client', 'src/event_loop.rs')], ['status, headers, chunks and end received by the client'])

prop('C16', 'Timers fire as asked: once, in order, never after being cleared',
 'A timeout runs its callback exactly once, no earlier than asked, with the arguments given; an interval runs again and again until cleared; timers that are due run in the order of their due times, and for equal times in the order in which they were set. A cleared timer never runs again, also when it is cleared by itself or another callback; unknown identifiers are ignored; a callback that throws or rejects disturbs no other timer. Any delay value is accepted, and a timer of one request never runs in another one served by the same context.',
 ['histories', 'schedules'], 'every list of timer actions (set, set from a callback, clear, clear from a callback, throw, wait for an operation) up to the stated depth over the listed alphabet, with every order of the operations involved up to the deviation bound; every delay of a list of unusual values',
 'the tests set one timeout or one interval and wait', ['src/runtime/bindings/timers.rs', 'src/runtime/scheduler.rs', 'src/runtime/callback_handlers.rs', 'src/event_loop.rs', 'src/runtime/mod.rs', 'src/execution_helpers.rs'],
 [('scheduler task with a delay queue and a callback map in JavaScript', 'src/runtime/scheduler.rs')], ['order and time of callback runs', 'their arguments', 'result of exec()'])
prop('C17', 'Each operation settles once, with its own outcome',
 'Every operation a worker asks its host for (fetch, assets, worker bindings, storage, KV, database) reaches the host exactly once with the arguments given, and its promise settles exactly once with the outcome the host gave to that very operation, for any number of operations in flight and any order of completion; a failure, a dropped answer or unusable arguments reject the promise. An operation that was left behind never settles one of a later request.',
 ['schedules', 'histories', 'inputs', 'fault_sequences'], 'all selections of up to two operations of all kinds and outcomes, started together, one after the other, from timers or left behind, with every order of the answers and task polls up to the deviation bound; every combination of the listed argument values',
 'the tests run one operation with a well-behaved host', ['src/event_loop.rs', 'src/runtime/bindings/fetch.rs', 'src/runtime/mod.rs', 'src/execution_helpers.rs', 'src/worker.rs', 'src/execution_context.rs'],
 [('callback identifiers map to resolve/reject functions', 'src/runtime/bindings/fetch.rs')], ['operations and arguments seen by the host', 'settlement of each promise'])

prop('C22', 'A finished request leaves nothing running',
 'Once a request or task has ended, whatever its code left behind (timers, intervals, operations in flight, half-read bodies, sockets) stops: none of it runs, asks the host for anything, keeps an operation open or uses processor time, neither while the context waits to be used again nor after the worker is gone; and none of it runs in, delays or changes the answer of a later request in the same context.',
 ['histories', 'schedules', 'inputs'], 'all selections of leftovers of 17 kinds, for requests answered in 9 ways, followed by the next request at once or later, with every order of task polls and host answers up to the deviation bound',
 'the tests look at single requests and never at the time between two of them', ['src/pool.rs', 'src/execution_context.rs', 'src/runtime/scheduler.rs', 'src/request_context.rs'],
 [('the context is parked and reused', 'src/pool.rs'), ('timers and operations of a request', 'src/runtime/scheduler.rs')], ['console output and host operations after the end', 'operations still in flight', 'task polls while idle', 'answer of the next request'])
prop('C39', 'Worker code cannot take the host down',
 'No call of a function the runtime gives to worker code, with whatever arguments (objects that throw when looked at, detached or huge buffers, numbers out of range, missing arguments), and no replacement or removal of the globals the runtime relies on, makes the process abort, crash or run for ever; such a worker may fail, but its execution ends within its limits and other workers in the same process, also in the same isolate, work as before.',
 ['inputs', 'histories'], 'every reachable function of the global scope called and constructed with every combination of the listed hostile arguments; every listed sabotage of every global at three moments, followed by an execution of another worker',
 'the tests call functions with well-formed arguments', ['src/runtime/bindings/fetch.rs', 'src/runtime/bindings/websocket.rs', 'src/runtime/crypto', 'src/execution_helpers.rs', 'src/worker.rs', 'src/execution_context.rs', 'src/runtime/scheduler.rs'],
 [('arguments are converted to native values', 'src/runtime/bindings/websocket.rs'), ('the response object is read', 'src/execution_helpers.rs')], ['process exit', 'result of the execution', 'responses of another worker afterwards'])
prop('C23', 'Tenants, workers and versions never share state',
 'In the pinned pool a request runs only the code of its own owner, worker and version with the environment given for it, and finds in its globals nothing that another owner, worker, version or environment left; isolates are never shared between owners, and an isolate (a context) that serves one request serves no other one until that has ended.',
 ['histories', 'schedules'], 'all histories of requests over the listed owners, workers, versions, environments and endings, overlapping or not, up to the stated depth, against a reference model of the pool',
 'tests run a few requests of two workers one after the other', ['src/pool.rs', 'src/execution_context.rs'],
 [('isolates tagged with the owner', 'src/pool.rs'), ('contexts keyed by worker, version and environment', 'src/pool.rs')], ['code, environment, globals and isolate that served each request'])
prop('C24', 'Warm contexts are reused exactly when they may be',
 'A request whose worker, version and environment match a context kept in an isolate of its owner is served by that context (with the state of its module, and with the warm-hit callback called once with the operations that the context was created with); contexts whose request was cut short, whose script failed or that reached the reuse limit are not used again; no isolate keeps more contexts than configured, and the least recently used one makes room. A configuration of no kept contexts keeps none.',
 ['histories', 'fault_sequences'], 'all histories of requests with every ending (answered, thrown, expired, dropped) up to the stated depth, for every configuration listed, against a reference model of the cache',
 'tests check one warm hit and one miss', ['src/pool.rs', 'src/execution_context.rs'],
 [('context cache of an isolate with LRU eviction', 'src/pool.rs')], ['contexts created, their use counts', 'calls of the warm-hit callback'])
prop('C25', 'The pool keeps its limits and its books',
 'The pinned pool never holds more isolates than configured once the overload that made it grow is over, never gives an owner more isolates at once than its limit (the request is refused with an error that says so), takes a free isolate of the owner before making room by dropping the least recently used free one, and gives the isolate back whatever ends a request (answer, failure, limit, a dropped future); the statistics it reports equal what happened.',
 ['histories', 'schedules', 'fault_sequences'], 'all histories of overlapping requests of several owners and of their endings up to the stated depth, for every configuration listed, against a reference model of the pool',
 'tests fill the pool once and look at the statistics', ['src/pool.rs'],
 [('thread-local pool with overcommit and reclaim', 'src/pool.rs')], ['statistics', 'isolate that served each request', 'refusals'])
prop('C32', 'Headers, query parameters and form data keep every value',
 'Headers, URLSearchParams and FormData are ordered lists of name-value strings: append adds one, set replaces all of a name, delete removes them, get gives the first (for headers: all, joined by ", "), getAll and iteration give all in order; header names ignore case and cookies are never joined. Objects made from another one, from pairs, a record or any iterable hold the same entries and are independent of their source and of what they hand out. Every query string can be read (also with "+", "=" in values, malformed escapes) and whatever the parameters hold survives writing and reading.',
 ['histories', 'inputs'], 'all sequences of operations over the listed names and values up to the stated depth; all query strings and names/values over the listed tokens up to the stated length',
 'the tests do a handful of operations with plain words', ['src/runtime/bindings/web_api.rs'],
 [('values in a Map or a list', 'src/runtime/bindings/web_api.rs')], ['results of get, getAll, has, iteration, toString after each operation'])
prop('C40', 'A URL and its parts always agree',
 'Reading a URL gives exactly its protocol, user name, password, host, port, path, query and fragment; a relative reference (path, "..", absolute path, query, fragment, other host) resolves against a base as RFC 3986 says. After any change of a part, of href or of searchParams, the parts, href, origin and searchParams still describe the same URL and the other parts are unchanged; no query string makes reading a URL fail.',
 ['inputs', 'histories'], 'every combination of the listed parts; every listed reference against every listed base; all sequences of changes up to the stated depth',
 'the tests parse five URLs and change none', ['src/runtime/bindings/web_api.rs'],
 [('URL class', 'src/runtime/bindings/web_api.rs')], ['all properties of the URL after each step'])
prop('C34', 'structuredClone copies exactly and shares nothing',
 'structuredClone returns a value of the same shape (types, values, keys, order, shared and circular references, several views on one buffer) that shares no object with the original, whatever plain data, collections, dates, regular expressions, errors, buffers and views are nested in each other; functions and symbols anywhere in it make it throw a DataCloneError; the original is unchanged.',
 ['inputs'], 'every value up to the stated nesting depth over the listed leaves and containers, with references back to any earlier object',
 'the tests clone three objects', ['src/runtime/bindings/web_api.rs'],
 [('recursive copy with a map of seen objects', 'src/runtime/bindings/web_api.rs')], ['structure of the copy'])
prop('C35', 'Aborting happens once and reaches every listener',
 'A signal is aborted at most once; its reason is the first one given (whatever value; an AbortError if none). Each listener registered then is called exactly once, in the order of registration, unless removed before its turn, even if others throw; nothing is called later. throwIfAborted throws exactly that reason. A timeout signal aborts exactly when its time is over with a TimeoutError.',
 ['histories', 'schedules'], 'all sequences of registrations, removals and aborts with all listed reasons and listener behaviours up to the stated depth; all sequences of timeout signals and timers',
 'the tests abort with one listener', ['src/runtime/bindings/web_api.rs'],
 [('AbortSignal', 'src/runtime/bindings/web_api.rs')], ['calls of listeners', 'aborted, reason, throwIfAborted'])
prop('C38', 'A task is reported once, with what it answered, when its work is done',
 'A task event runs the handler exactly once with the task id, attempt, payload, source and scheduled time it was sent with (JSON unchanged) and ends in exactly one result. A response given explicitly wins over a return value; otherwise the returned value is the data; a handler that throws or rejects (whatever value) is reported as failed with that message. The result comes only after everything announced with waitUntil has settled, however it settles; what a failing handler announced is still done. A worker without a handler for the event, or whose handler fails, is never reported as successful, and nothing hangs. The next task is not affected.',
 ['inputs', 'schedules', 'histories'], 'every way to register a handler, every listed answer, moment of answering and announced work; all orders of timers and operation completions up to the stated preemptions; two tasks in a row',
 'the tests run a few handlers that return one object', ['src/worker.rs', 'src/execution_context.rs'],
 [('trigger_task_handler and __taskResult', 'src/worker.rs')], ['the TaskResult sent to the host', 'the log of the handler and of its announced work'])
prop('C27', 'A handler sees the request as it was sent, and can pass it on',
 'The Request a fetch handler gets has the method, URL, header names and values of the request that was sent, whatever they are (header names that mean something to JavaScript included), and a body of exactly the bytes that were sent, in order, however they were cut into pieces and whenever they arrive. A body reads the same through every way to read it: whole, chunk by chunk, through tee(), clone(), a Request or Response made of it, in background work after the answer, and when it is answered back to the client or passed on with fetch(request), fetch(request, init) or a request made of it, which also keep method, URL and headers unless told otherwise. A request without body has none; a body that fails fails its reader, and no part of it is passed on as if it were whole; a body is read once. Once the request is over, the source of a body nobody reads any more is released.',
 ['inputs', 'schedules', 'histories'], 'every way to read or pass on a body × body (none, buffered, streamed in pieces: empty, cut inside a character, large, many, failing) × handler style × host; every URL × method × header set of a list of odd ones; every order of the arrival of pieces with the reads, up to the deviation bound; the next request of the same worker',
 'the tests send one header and a buffered body through one way of reading', ['src/execution_helpers.rs', 'src/worker.rs', 'src/execution_context.rs', 'src/runtime/stream_manager.rs', 'src/runtime/bindings/fetch.rs', 'src/runtime/bindings/web_api.rs', 'src/runtime/bindings/streams.rs'],
 [('request body pumped into a stream of the stream manager, Request class over it', 'src/runtime/stream_manager.rs')], ['what the handler reports about its request', 'requests the operations handler gets', 'bytes and ending of the answer', 'fate of the channel that feeds the body'])

prop('C28', 'The environment of a worker is exactly what was configured',
 'A worker sees in env exactly the configured variables and bindings, under their names and with their values whatever characters those contain (a binding replaces a variable of the same name), as globalThis.env and as the argument of a module handler, from its first statement on. Nothing the worker does changes, hides or replaces env or its entries, for this event or the next; each binding offers the methods of its type and addresses the host under its own name.',
 ['inputs', 'histories'], 'every listed variable name, value, binding name and type; every listed attempt to change the environment during the script or an event, followed by another event',
 'the tests read two variables and try one assignment', ['src/worker.rs', 'src/execution_context.rs', 'src/runtime/bindings/fetch.rs'],
 [('setup_env', 'src/worker.rs')], ['all own properties of env seen by the worker', 'operations that reach the host'])
prop('C36', 'A body gives back what was put into it, once',
 'text(), arrayBuffer(), json() and the stream of a Request or Response give exactly the bytes the body was made of (strings, buffers, all kinds of views, Blobs, query parameters, streams of strings, buffers or views), clones each give all of it, a failing stream fails them with its error; a body is consumed once and later uses are refused with a TypeError. Blobs and their slices hold the bytes of their parts whatever happens to those later. formData() gives every field of an urlencoded or multipart body. Status, headers and other properties are kept by clones, and messages never share headers.',
 ['inputs', 'histories'], 'every listed kind of body, consumer and number of clones; all streams up to the stated number of chunks of all kinds; all blobs, slices and forms over the listed parts',
 'the tests use strings and one Uint8Array', ['src/runtime/bindings/web_api.rs', 'src/runtime/streams.rs'],
 [('bodies wrapped in ReadableStreams', 'src/runtime/bindings/web_api.rs')], ['results of the consumers', 'bodyUsed', 'properties of copies'])
prop('C29', 'A WebSocket carries every message once, in order, and ends once',
 'What a worker sends over a WebSocket (made with new or by a fetch with an upgrade) reaches the peer once, in order and unchanged, text as text and bytes as bytes, up to the close; what the peer sends reaches the worker as exactly one message event each, in order, until the worker closes. open comes once and first; a connection that was refused, failed, was lost or was closed by either side gets exactly one close event, last, with the code and reason given (1006, not clean, when it was lost), and readyState says what is the case in every handler. Sending before the connection is open and invalid close codes are refused with the named errors; a value that cannot be converted sends nothing. Handlers and listeners are called once each in order, not after their removal, even if others throw. All this holds again for the next request.',
 ['inputs', 'schedules', 'fault_sequences'], 'every way to connect and to listen, every listed action of the worker at every listed moment, every listed behaviour of host and peer (refuses, answers nonsense, sends, closes, drops, fails, never answers a close), all orders of timers and world events up to the stated preemptions; two requests in a row',
 'the tests check argument validation on a socket without connection', ['src/runtime/scheduler.rs', 'src/runtime/bindings/websocket.rs', 'src/runtime/callback_handlers.rs'],
 [('one task per connection between the worker and the host', 'src/runtime/scheduler.rs'), ('state machine of the class', 'src/runtime/bindings/websocket.rs')], ['messages at the peer', 'log of all handlers with readyState'])
prop('C42', 'Everything a worker logs reaches the host, once and in order',
 'Every console call (log, info, warn, error, debug, trace) of a worker, wherever in its code it happens (at the top level, in handlers, timers, streams, microtasks, listeners or background work), reaches the host exactly once, with its level and the text of its arguments joined by spaces, in the order of the calls; so does what was logged before the code threw or was stopped by a limit. A console call never throws, whatever its arguments are.',
 ['inputs', 'schedules', 'fault_sequences'], 'every listed value with every method, all lists of listed values and all selections of calls in all places of a program up to the stated number, ends by exceptions or by a limit at every point of a loop that logs',
 'the tests log a few strings and compare nothing', ['src/runtime/bindings/console.rs'],
 [('log callback past the scheduler', 'src/runtime/bindings/console.rs')], ['levels and messages at the operations handle'])
prop('C41', 'Requests that run at the same time do not disturb each other',
 'Of several requests that run at the same time on one thread (in isolates of their own, or in one isolate with multiplexing), each gets exactly the status, body and result that it would get alone, whatever the others do: wait, stream, compute, fail, run into their memory, CPU or wall-clock limit, lose their client or be dropped by the caller. Each runs in its own context; a limit ends the request that exceeded it and no other, and only time in which a request itself computes counts for its CPU limit; the background work of each is done once; afterwards no isolate stays in use and the next requests are served.',
 ['schedules', 'fault_sequences'], 'every pair (thorough: triple) of the listed kinds of requests, all orders of operation completions, timers and task scheduling up to the stated deviations, and limits that expire, clients that leave or callers that give up at every point',
 'the tests run requests one after the other', ['src/pool.rs', 'src/execution_context.rs', 'src/worker.rs', 'src/security/timeout_guard.rs', 'src/security/cpu_enforcer.rs'],
 [('guards of each execution suspended while another one runs', 'src/security/mod.rs')], ['response and result of each request', 'the execution that ran while a CPU timer counted', 'pool statistics'])
