B = "bounded-exhaustive exploration of operation sequences on the real code against a reference model"
P("I01", "Every readable data handle is exactly the byte sequence it describes",
  "Whatever sequence of reads (of any size), seeks, skips, rewinds, peeks, restarts and reopenings is made on a data handle - a file, memory, a mapped file, parts of a file, a "
  "chain of handles, or a buffering or peeking layer over another - every read returns exactly the bytes at the current position and leaves the "
  "rest of the buffer alone, and position and size agree. Merging, sorting, copying or sending a handle through a stream does not change the bytes it stands for; two "
  "readers of one pooled file do not disturb each other, and reading through a C or C++ stream gives the same bytes.",
  ["histories", "inputs"], "all operation sequences up to a depth over all small part lists, chains of up to three handles, and stacks of up to three layers",
  "The tests read a few handles from beginning to end; positions after mixed operations on composed handles are not visited.",
  ["src/eckit/io/DataHandle.cc", "src/eckit/io/FileHandle.cc", "src/eckit/io/PartFileHandle.cc", "src/eckit/io/PartHandle.cc", "src/eckit/io/MultiHandle.cc",
   "src/eckit/io/MemoryHandle.cc", "src/eckit/io/BufferedHandle.cc", "src/eckit/io/PeekHandle.cc", "src/eckit/io/SeekableHandle.cc", "src/eckit/io/PooledHandle.cc",
   "src/eckit/io/MMappedFileHandle.cc", "src/eckit/io/Offset.cc", "src/eckit/io/FOpenDataHandle.cc"],
  [("ranges and index", "src/eckit/io/PartFileHandle.cc"), ("chain of handles", "src/eckit/io/MultiHandle.cc"), ("buffer and eof state", "src/eckit/io/BufferedHandle.cc"),
   ("peeked bytes", "src/eckit/io/PeekHandle.cc")],
  [dict(name="i01", src=["i01_read.cc"])], B,
  "Each handle is built over known bytes; the model is a position in a string; after every operation position, size and estimate are compared, and at the end all that is left is read.",
  bound="operation sequences up to 3 (5 for pooled readers) over part lists of up to 3 ranges, chains of up to 3, layers of up to 3")

P("I02", "Bytes written through a data handle arrive complete and in order, or it fails",
  "Whatever sequence of writes, seeks, flushes, closes and reopenings is made on a data handle open for writing - a file (also appending or overwriting), memory, a buffering, "
  "duplicating, asynchronous or chained handle, or a C or C++ stream over one - the target then holds exactly the bytes written, in place. When a system "
  "call fails or writes less than asked, either everything still arrives or a failure is reported; once a file was flushed or closed successfully, its contents survive a power failure.",
  ["histories", "fault_sequences", "crash_points"], "all operation sequences up to a depth on each kind of handle and stack; all single failures and short writes of the system calls, and a power failure at each of them, "
  "for short scripts", "The tests write and read back without failures; no test makes a system call fail or looks at what is durable.",
  ["src/eckit/io/FileHandle.cc", "src/eckit/io/MemoryHandle.cc", "src/eckit/io/BufferedHandle.cc", "src/eckit/io/MultiHandle.cc", "src/eckit/io/TeeHandle.cc", "src/eckit/io/AIOHandle.cc",
   "src/eckit/io/RawFileHandle.cc", "src/eckit/io/FileDescHandle.cc", "src/eckit/io/FOpenDataHandle.cc", "src/eckit/io/HandleBuf.cc", "src/eckit/io/PooledFileDescriptor.cc", "src/eckit/io/FileBase.cc"],
  [("write loop, fsync of file and directory", "src/eckit/io/FileHandle.cc"), ("buffer flush", "src/eckit/io/BufferedHandle.cc"), ("growing", "src/eckit/io/MemoryHandle.cc"),
   ("next target", "src/eckit/io/MultiHandle.cc")],
  [dict(name="i02", src=["i02_write.cc"], rt=["fault.cc"])], B + "; fault enumeration at system-call level",
  "The model is a string and a position; targets are compared at every flush and close. With faults, the script runs in a ptrace-d child, the explorer chooses the failing call, and what was reported is compared with what is there.",
  bound="operation sequences up to 4-5; one fault (EIO, ENOSPC, short write or power failure) in scripts of up to 3 writes", level="fault_enumeration",
  assumptions=("A system call that succeeds does what it says; data not fsync'ed, and directory entries not fsync'ed, may be lost in a power failure.",))

P("I03", "A transfer between data handles is complete or fails, and closes what it opened",
  "Copying or saving one data handle into another returns the number of bytes moved and leaves exactly those bytes in the target, whatever sizes the reads return, also when a "
  "maximum size is given, the length is not known in advance, or the transfer is restarted from an earlier offset; the watcher sees the same bytes. If opening, reading, writing or closing either side fails, or the announced "
  "length does not come, the transfer fails; every handle it opened is closed once. Comparing two handles says whether their bytes are equal.",
  ["fault_sequences", "inputs"], "all patterns of read sizes, and every single failure (two for saving) or restart at every call, for sources of up to 7 bytes and several buffer sizes, and all pairs of 12 sources and 6 targets",
  "Tests transfer between well-behaved files; none makes a particular call fail or a read short.",
  ["src/eckit/io/DataHandle.cc", "src/eckit/io/DataHandle.h", "src/eckit/io/TransferWatcher.h"],
  [("transfer loops", "src/eckit/io/DataHandle.cc"), ("closing", "src/eckit/io/DataHandle.cc")],
  [dict(name="i03", src=["i03_transfer.cc"])], "bounded-exhaustive exploration of environment behaviours (read sizes, failures, restarts) of the real code",
  "Scripted source and target handles let the explorer choose the outcome of every call; a monitor checks opening and closing, the bytes moved and whether a failure was reported.",
  bound="sources of 0-7 bytes, buffers of 1-64 bytes, 1-2 failures or restarts")
