T = "stateless model checking of the implementation under a controlled scheduler (preemption-bounded enumeration of all interleavings)"
SA = ("Threads are switched at every pthread operation, atomic access and explicit point of the harness; plain accesses between them are "
      "checked by a vector-clock race detector, so an unsynchronised access is reported rather than missed.",
      "Sequentially consistent memory.")
W = "The tests run each scenario under whichever schedule the machine happens to produce; the property quantifies over all schedules."

P("C01", "The bounded thread-safe queue is linearizable and never loses a wake-up",
  "Concurrent operations on the bounded blocking queue behave as if performed one at a time in an order consistent with real time: every element "
  "pushed is popped exactly once, in order, and no more than the capacity is ever queued. A caller blocked in push or pop returns as soon as the "
  "queue's state allows it; closing lets consumers drain what is left and then tells each of them the queue has ended, and interrupting makes every "
  "blocked or later operation fail with the interrupting error.",
  ["schedules", "histories"], "all interleavings of up to 3 threads with 1-3 operations each, queue capacities 1-2, and spurious wake-ups",
  W, ["src/eckit/container/Queue.h"], [("mutex and two condition variables", "src/eckit/container/Queue.h")],
  [dict(name="c01", src=["c01_queue.cc"], **SCHED)], T,
  "Each recorded history of calls and returns is checked against a sequential bounded queue by a brute-force linearizability checker; calls still "
  "pending when nothing can run any more must be blocked in the model too.",
  bound="2 threads x up to 2 operations and selected 3-thread programs, at most 2 preemptions, 1 spurious wake-up", assumptions=SA)

P("C02", "The thread pool runs every task once, waits for them and shuts down cleanly",
  "Every task pushed to the thread pool is executed exactly once and deleted exactly once; waiting returns only when all tasks pushed before it "
  "have ended, and reports the error of a task that failed; destroying or shrinking the pool ends exactly the threads it should, losing no "
  "queued task, and no caller is left blocked.",
  ["schedules", "histories"], "all interleavings of a main thread, up to one other client and 1-2 pool threads, over short programs of push, "
  "push-list, wait, resize and destruction", W, ["src/eckit/thread/ThreadPool.cc", "src/eckit/thread/ThreadPool.h"],
  [("queue and counters under mutex/condition pairs", "src/eckit/thread/ThreadPool.cc"), ("thread start and stop", "src/eckit/thread/ThreadControler.cc")],
  [dict(name="c02", src=["c02_threadpool.cc"], **SCHED)], T,
  "The harness's tasks record execution and destruction; the monitor checks counts at every wait and after destruction; blocked-forever states are deadlocks.",
  bound="programs of up to 2 operations (plus selected longer ones and two clients), 1-2 threads, 1-2 preemptions", assumptions=SA)

P("C03", "The producer/consumer pipeline delivers every item once, in order, and ends",
  "Running a producer and a consumer through the bounded pipeline gives the consumer exactly the produced items, each once, in order and unmodified "
  "while it is being consumed. If either side fails the run ends with that failure reported to the caller and never hangs, and the same pipeline "
  "object can be used again.",
  ["schedules", "fault_sequences"], "all interleavings of the two sides, 0-4 items, 1-3 slots, a failure at every production, consumption or end-of-data query", W,
  ["src/eckit/runtime/ProducerConsumer.h"], [("slots guarded by mutex/condition pairs", "src/eckit/runtime/ProducerConsumer.h")],
  [dict(name="c03", src=["c03_prodcons.cc"], **SCHED)], T,
  "Items carry their number twice, written around a scheduling point, so a slot reused too early shows; failure plans are enumerated together with the schedules.",
  bound="0-3 items, 1-3 slots, 1-2 preemptions, every failure position, reuse after failure", assumptions=SA)

P("C04", "The background-writing handle delivers everything in order or reports why not",
  "Bytes written to the asynchronous handle reach the wrapped handle exactly once and in the order written, whatever buffer limits are in force, "
  "and no more than the limit is kept queued. A flush or close that succeeds means everything written so far was delivered; if any background "
  "write failed or was short, the next flush or close (or an earlier write) fails and says why, and neither closing nor destroying ever hangs.",
  ["schedules", "fault_sequences"], "all interleavings of client and writer thread, up to 3 writes of sizes around the limit, a failing or short write at each position", W,
  ["src/eckit/io/AsyncHandle.cc", "src/eckit/io/AsyncHandle.h"], [("writer thread and buffer queue", "src/eckit/io/AsyncHandle.cc")],
  [dict(name="c04", src=["c04_async.cc"], **SCHED)], T,
  "The wrapped handle records what arrives, with scheduling points inside its write; flush/close results are compared with what had arrived.",
  bound="0-3 writes, limits 1/5/64, rounding 1/4, flush in between or not, 1-2 preemptions, every failure position", assumptions=SA)

P("C05", "The double-buffered copy is complete on success and reports every failure",
  "A double-buffered copy between two handles that returns normally has put exactly the source's bytes into the destination and returned their "
  "number, also when either side asked for the transfer to be restarted from an earlier position. A read or write that fails, or is "
  "short, makes the copy fail with that error; in every case both handles are closed, nothing touches them after the copy returned, and it never hangs.",
  ["schedules", "fault_sequences"], "all interleavings of the reading and writing threads, 0-6 bytes in blocks of 2, 1-3 buffers, faults and restarts at every block on either or both sides", W,
  ["src/eckit/io/DblBuffer.cc", "src/eckit/io/DblBuffer.h"], [("ring of buffers with per-buffer condition", "src/eckit/io/DblBuffer.cc"), ("restart loop", "src/eckit/io/DblBuffer.cc")],
  [dict(name="c05", src=["c05_dblbuffer.cc"], **SCHED)], T,
  "Source and destination are in-memory handles which fail, end early or ask for a restart at an enumerated operation.",
  bound="1-3 buffers of 2 bytes, 0-6 bytes, full or single-byte reads, size known or not, 1 preemption", assumptions=SA)

P("C06", "The pool of open files gives a file to one user at a time and forgets nobody",
  "A file checked out of the pool belongs to one thread until it is returned; a thread that asks for a file which nobody has, or removes it, never stays blocked, "
  "whoever else waits for what. Files not in use are kept open up to the capacity, least recently used ones are closed first, one that is removed is closed as soon as it is returned, and a file is open exactly when it is in use or kept; "
  "whatever was written is in the file. When closing a file fails, the failure is reported and the pool stays usable.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the owner of up to two files with two threads running every pair of operations; all operation sequences to a depth on up to 3 files, with one failing close",
  W, ["src/eckit/io/FilePool.cc", "src/eckit/container/CacheLRU.cc"], [("mutex and condition", "src/eckit/io/FilePool.cc"), ("eviction", "src/eckit/container/CacheLRU.cc")],
  [dict(name="c06", src=["c06_filepool.cc"], **SCHED)], T,
  "A monitor records who has which file; when nothing can run any more, a thread may only wait for a file which somebody has; open descriptors are counted in /proc.",
  bound="3 threads, 2 files, 1-2 preemptions; sequences of 5-6 operations", assumptions=SA)

P("C07", "Threads, locks and shared, lazy or per-thread objects keep their promises",
  "A thread runs once; waiting for it returns only after it has ended, a failure inside it does not end the process, it sees the request to stop, and "
  "it is deleted exactly once, never while it runs. A reference-counted object is deleted exactly once, when its last reference is given up. An object made "
  "lazily is made once and is the same for every thread, also after a first attempt to make it failed; a per-thread object belongs to one thread and is "
  "deleted when that thread ends. Locks exclude other threads, are recursive where so declared, and are given back however their block is left; nobody "
  "keeps waiting on a condition which was signalled for it.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of 2-3 threads running every pair of short programs of references, uses, locks and signals; every way of starting, stopping, awaiting and owning a thread; failures when an object is first made",
  W, ["src/eckit/thread/ThreadControler.cc", "src/eckit/thread/Thread.cc", "src/eckit/thread/Once.h", "src/eckit/thread/ThreadSingleton.h", "src/eckit/thread/Mutex.cc",
      "src/eckit/thread/MutexCond.cc", "src/eckit/thread/StaticMutex.cc", "src/eckit/memory/Counted.h"],
  [("start handshake and self-deletion", "src/eckit/thread/ThreadControler.cc"), ("construction under the mutex", "src/eckit/thread/Once.h"), ("per-thread key", "src/eckit/thread/ThreadSingleton.h")],
  [dict(name="c07", src=["c07_threads.cc"], **SCHED)], T,
  "Monitors in the harness's threads and objects record who runs, owns and deletes what; blocked-forever states are deadlocks, unsynchronised accesses are races.",
  bound="2-3 threads, programs of up to 4 operations, 2-3 preemptions, 1 spurious wake-up", assumptions=SA)

P("C08", "A dispatcher hands every request to one handler, once, and forgets none",
  "Every request pushed to a dispatcher is given to one of its handlers exactly once and deleted exactly once afterwards; requests of one pusher are picked in the "
  "order pushed where handlers take the first. Whenever a handler would take a waiting request, some thread gets to it, also when handlers had declined it before and "
  "whatever was pushed or ended meanwhile; a handler that fails affects only the requests it had. Adding or removing threads starts or stops exactly that many, and a "
  "request removed from the queue is not handled.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the pushing threads with 1-3 handler threads (or as many as needed), for handlers taking the first, pairs, all, or one of each kind at a time",
  W, ["src/eckit/runtime/Dispatcher.h"], [("request queue under mutex/condition", "src/eckit/runtime/Dispatcher.h"), ("sleeping and awaking of idle handlers", "src/eckit/runtime/Dispatcher.h")],
  [dict(name="c08", src=["c08_dispatcher.cc"], **SCHED)], T,
  "Requests and handlers of the harness record who handled and deleted what; when nothing can run any more no request may be left which a handler would take.",
  bound="1-3 requests, 1-3 threads, 1-2 pushers, 1-2 preemptions", assumptions=SA)
