P("N01", "What is written to a log channel reaches all its targets, once and in order",
  "After a flush every target of a channel - stream, file, callback, or any combination of these with prefixes, colours, indentation and branches - has exactly what was written while it was a target, each line once, whole and decorated once, however long it is and however it was cut into pieces. "
  "Targets are deleted when nothing uses them any more, and not before. "
  "A message to the user arrives once, as what it is.",
  ["histories"], "all sequences of 4 (5) operations on a channel and 3 (4) on two; all texts of up to 6 (7) characters cut in all ways; lines of 24 lengths up to 1 MiB",
  "The tests write a few short lines to each kind of target.",
  ["src/eckit/log/ChannelBuffer.cc", "src/eckit/log/Channel.cc", "src/eckit/log/LineBasedTarget.cc", "src/eckit/log/WrapperTarget.cc", "src/eckit/log/TeeTarget.cc", "src/eckit/log/FileTarget.cc",
   "src/eckit/log/PrefixTarget.cc", "src/eckit/log/ColouringTarget.cc", "src/eckit/log/UserChannel.cc", "src/eckit/log/CallbackTarget.cc", "src/eckit/log/OStreamTarget.cc"],
  [("buffer and targets", "src/eckit/log/ChannelBuffer.cc"), ("lines", "src/eckit/log/LineBasedTarget.cc"), ("decoration", "src/eckit/log/WrapperTarget.cc"), ("users", "src/eckit/log/UserChannel.cc")],
  [dict(name="n01", src=["n01_log.cc"], variant="asan", components=["eckit"])], "bounded-exhaustive enumeration of operation sequences on the real code against a reference model",
  "A tree of targets which passes on one character at a time.",
  bound="3 (4) operations")

P("N02", "What is sent over a connection arrives complete and in order, or both sides know",
  "Whatever sequence of writes, reads and closings of output is made at the two ends of a connection, and however little the system takes or gives at a time, each end reads exactly the bytes the other wrote, in order, and then the end; a failing read or write is reported. "
  "The same holds for connections made of several, for values sent through streams and for data handles; values cut at any byte are refused. "
  "A connection belongs to one object at a time and is closed with it; connecting to nobody fails after the number of attempts given.",
  ["histories", "faults"], "all sequences of 3 (4) operations at two ends with up to one (two) reads or writes done in part or failing; streams cut at every byte; connections made of 1 to 3",
  "The tests check host names, options and text of end points; the kernel gives them whole messages.",
  ["src/eckit/net/TCPSocket.cc", "src/eckit/net/MultiSocket.cc", "src/eckit/net/TCPStream.h", "src/eckit/net/TCPStream.cc", "src/eckit/net/TCPServer.cc", "src/eckit/net/TCPClient.cc",
   "src/eckit/io/TCPSocketHandle.cc", "src/eckit/io/TCPHandle.cc", "src/eckit/net/Endpoint.cc", "src/eckit/net/NetMask.cc", "src/eckit/net/IPAddress.cc"],
  [("reads and writes", "src/eckit/net/TCPSocket.cc"), ("several", "src/eckit/net/MultiSocket.cc"), ("handles", "src/eckit/io/TCPSocketHandle.cc")],
  [dict(name="n02", src=["n02_net.cc"], components=["eckit"])], "bounded-exhaustive enumeration of operation sequences and system call results on the real code against a reference model",
  "Two queues of bytes.",
  bound="3 (4) operations")
