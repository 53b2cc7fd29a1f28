B = "bounded-exhaustive exploration of operation sequences on the real code against a reference model"
P("D01", "The on-disk B+tree is a sorted map, in any insertion order and after reopening",
  "Looking up, counting and range-scanning the on-disk B+tree gives exactly the keys inserted, with their latest values, in order, for every order "
  "of insertion and for every pair of range bounds, whether or not the bounds are present. Setting a key says whether it replaced one, and the contents are the same after "
  "the tree was flushed, closed and reopened (for writing or read-only).",
  ["histories", "inputs"], "all insertion orders of up to 7 (thorough: 9) keys, and all short insertion sequences into trees of up to 40 keys built in four orders; all range bounds",
  "The tests insert large random key sets and look keys up; they do not scan ranges whose bounds fall between pages, or reopen at every stage.",
  ["src/eckit/container/BTree.h", "src/eckit/container/BTree.cc"], [("page splitting", "src/eckit/container/BTree.cc"), ("page cache and flush", "src/eckit/container/BTree.cc")],
  [dict(name="d01", src=["d01_btree.cc"])], B,
  "Page sizes are chosen so that pages hold 4 or 5 entries, so few keys already build trees of three levels; after each history every key, every "
  "absent neighbour and every range is compared with std::map.",
  bound="pages of 4-5 entries; all orders of 7 keys; 2-3 further inserts at up to 13 positions into bases of 0-40 keys; reopen modes: none, read-write, read-only, preload, flush")

P("D02", "The transaction log recovers exactly the unfinished transactions after a crash",
  "Whenever the process dies, at any point of any history of beginning, updating and ending transactions, reopening the log works and recovery (and searching) gives "
  "every transaction begun and not ended exactly once, in order, with its last acknowledged contents (or those of the update under way), and none that was ended; a begun "
  "transaction also survives a power failure, and one ended for the record is at every moment either still recovered or found in the record. A killed process never leads to an id being used twice, and ended transactions kept for the record can be found again.",
  ["crash_points", "histories"], "every kill point (before each file system call, and in the middle of each write) of every history of up to 4 operations on up to 3 transactions, and "
  "loss of everything not synced for histories of up to 3",
  "There is no test of a crash: it needs the process killed at a chosen system call.",
  ["src/eckit/transaction/TxnLog.cc", "src/eckit/transaction/TxnLog.h", "src/eckit/serialisation/FileStream.cc", "src/eckit/container/MappedArray.cc"],
  [("temporary file and rename", "src/eckit/transaction/TxnLog.cc"), ("sync at close", "src/eckit/serialisation/FileStream.cc"), ("id counter in a mapped file", "src/eckit/container/MappedArray.cc")],
  [dict(name="d02", src=["d02_txnlog.cc"], rt=["fault.cc"]), dict(name="d02s", src=["d02_shared.cc"], rt=["fault.cc"])], "crash-point enumeration on the real code (system-call level), against a reference model",
  "The history runs in a ptrace-d child; the explorer decides at each file system call whether it is killed there; a fresh process then recovers.",
  bound="histories of up to 4 operations on 3 transactions; one kill", level="fault_enumeration", assumptions=("File system calls are atomic except that a write may be cut in half; renames are atomic.",))

P("D03", "Processes sharing locks, caches, queues and trees on disk do not interfere",
  "At most one process at a time holds a file lock or semaphore, every waiting process gets it, and the death of a holder releases it. "
  "Under any interleaving, values pushed on a shared queue are popped exactly once, keys set in a shared tree are there, shared arrays start as zeros and lose no locked update, "
  "and a cached file is made once, is never seen incomplete, and is made again after its maker failed or died. A cache with a limit removes the least recently used files to stay within it.",
  ["schedules", "crash_points", "histories"], "all interleavings of the system calls of 2 or 3 processes with up to 2 or 3 preemptions and up to one killed process; all sequences of 6 (7) requests to a cache with a limit",
  "The tests run one process.",
  ["src/eckit/io/FileLock.cc", "src/eckit/io/FileLocker.cc", "src/eckit/os/Semaphore.cc", "src/eckit/os/SemLocker.cc", "src/eckit/container/Recycler.h", "src/eckit/container/CacheManager.cc", "src/eckit/container/CacheManager.h", "src/eckit/container/BTree.cc", "src/eckit/container/MappedArray.cc", "src/eckit/container/SharedMemArray.cc"],
  [("lock of a file", "src/eckit/io/FileLock.cc"), ("get or create", "src/eckit/container/CacheManager.h"), ("eviction", "src/eckit/container/CacheManager.cc"), ("queue on a file", "src/eckit/container/Recycler.h")],
  [dict(name="d03", src=["d03_processes.cc"], rt=["procs.cc"])], "exhaustive exploration of interleavings of real processes at system calls (ptrace scheduler with a preemption bound), with kill points",
  "Mutual exclusion by flags in shared memory; conservation of values; contents of files; a model of the least recently used.",
  bound="2-3 processes, 2-3 preemptions, one killed process", level="bounded_exhaustive", assumptions=("System calls are atomic and processes share memory only under locks.",))
