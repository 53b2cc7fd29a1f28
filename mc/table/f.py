P("F01", "Lists, maps and objects in fabric-attached memory answer as what they stand for",
  "Whatever sequence of operations is made on a list, a map, or an object in fabric-attached memory, also when it is opened again by name or descriptor in between, every answer is that of the list, map, or bytes it stands for, and nothing else in the region changes; "
  "what lies outside of an object is refused. "
  "Items put by several writers at once are all there afterwards, once, each writer's in its order, and counted, and a reader meanwhile finds whole items, and every item which is neither being put nor removed. A removal by one client while another removes or puts an item takes one item.",
  ["histories", "schedules"], "all sequences of 5 (6) operations on a list, 4 (5) on a map with keys of one bucket and of others, 2 (3) reads and writes at any position of an object; all interleavings of two writers, or a reader and a writer, at every operation on the fabric",
  "The tests run scripted sequences, and threads or processes under whichever schedule happens.",
  ["src/eckit/io/fam/FamList.cc", "src/eckit/io/fam/FamListIterator.cc", "src/eckit/io/fam/detail/FamListNode.h", "src/eckit/io/fam/FamMap.cc", "src/eckit/io/fam/FamMapIterator.cc", "src/eckit/io/fam/FamMapEntry.h",
   "src/eckit/io/fam/FamHandle.cc", "src/eckit/io/fam/FamObject.cc", "src/eckit/io/fam/FamRegion.cc", "src/eckit/io/fam/FamSession.cc"],
  [("links between items", "src/eckit/io/fam/FamList.cc"), ("buckets", "src/eckit/io/fam/FamMap.cc"), ("length and position", "src/eckit/io/fam/FamHandle.cc")],
  [dict(name="f01", src=["f01_fam.cc"], components=["eckit", "eckit_openfam_mock"]),
   dict(name="f01t", src=["f01_threads.cc"], components=["eckit", "eckit_openfam_mock"], **SCHED)],
  "bounded-exhaustive exploration of operation sequences on the real code against a reference model, and of all interleavings under a controlled scheduler (preemption-bounded)",
  "A deque, a list of pairs, a string of bytes; for several clients, what each put.",
  bound="sequences of 5 (6), 4 (5) and 2 (3) operations; two clients with 1-2 operations, 2-3 (3-4) preemptions",
  assumptions=("The fabric is the mock the library is built with: every operation on it is atomic.",))
