B = "bounded-exhaustive exploration of operation sequences on the real code against a reference model"
P("E01", "Decoding gives back exactly what was encoded, whatever the bytes",
  "For all data, of any length, decoding what Base64, the bit stream, the dictionary (LZW) compressor, the run-length and difference encoders or any of the compressors made "
  "gives back the same data, with the lengths they state; Base64 text is the standard one. A time limit on an encoder may make the result longer, never wrong. "
  "Truncated or damaged input is refused or decoded to something of the requested length, without touching other memory, and a truncated stream never passes for the whole.",
  ["inputs", "crash_points"], "all byte strings up to 2 bytes and all positions of a bit beyond, all bit-field sequences up to 4-5 fields, all short strings, all lengths of six patterns across every "
  "change of code width, every moment at which a time limit can pass, every truncation and bit flip of compressed data",
  "The tests encode and decode a few texts; the lengths at which a code width changes, or a limit passing between two passes, are not among them.",
  ["src/eckit/io/Base64.cc", "src/eckit/io/BitIO.cc", "src/eckit/io/Compress.cc", "src/eckit/utils/RLE.cc", "src/eckit/utils/Compressor.cc", "src/eckit/utils/LZ4Compressor.cc",
   "src/eckit/utils/SnappyCompressor.cc", "src/eckit/utils/BZip2Compressor.cc"],
  [("code widths and end marker", "src/eckit/io/Compress.cc"), ("padding", "src/eckit/io/Base64.cc"), ("repeat and block lengths", "src/eckit/utils/RLE.cc")],
  [dict(name="e01", src=["e01_encodings.cc"], variant="asan")], "bounded-exhaustive enumeration of inputs, lengths and limits on the real code against a reference encoder and round trip",
  "Base64 and bit streams are compared with an independent encoder; the others are inverted; the clock is the explorer's. Runs under the address sanitizer.",
  bound="lengths to 1350 bytes and around each width change to 65 kB; strings to 10-12 letters; see the sections")

P("E02", "A hash is a function of the bytes given to it",
  "Whatever pieces the bytes come in, and whether digests are taken or other hashes computed in between, the digest of a hash object is the one its algorithm defines for the bytes added since it was made or reset; "
  "asking for it changes nothing. Values are hashed as their bytes, strings as their characters.",
  ["histories", "inputs"], "all sequences of up to 5-6 additions, digests, resets and one-shot computations for each algorithm; all lengths to 288 with every cut",
  "The tests add once and take one digest of a short text.",
  ["src/eckit/utils/Hash.h", "src/eckit/utils/MD5.cc", "src/eckit/utils/MD4.cc", "src/eckit/utils/SHA1.cc", "src/eckit/utils/xxHashing.cc"],
  [("cached digest and context", "src/eckit/utils/MD5.cc"), ("cached digest and context", "src/eckit/utils/xxHashing.cc")],
  [dict(name="e02", src=["e02_hash.cc"], libs=["-lcrypto"])], B + ", with independent implementations of the algorithms",
  "The model is the string of bytes; digests are computed by OpenSSL (MD5, SHA-1) and from the specification (MD4, xxHash).",
  bound="sequences of 5 (6) operations; lengths 0..287")

P("E03", "What is read from a stream is what was written to it, or reading fails",
  "Any sequence of values - numbers, strings, blobs, lists, maps, nested objects - written to a stream is read back the same from memory, file, handle or pipe, and the count of bytes is right. "
  "Reading a value as another type, an object of an unknown or unrelated class, or beyond where the stream was cut fails instead of giving a value; writing without room fails and touches nothing else. "
  "An exception sent through a stream is raised where it is read.",
  ["inputs", "crash_points"], "all sequences of up to 3-4 values of nine kinds on each medium, all pairs of types with extreme values, every cut of every stream of up to 2-3 values, every amount of room",
  "The tests write a few values and read them back whole.",
  ["src/eckit/serialisation/Stream.cc", "src/eckit/serialisation/MemoryStream.cc", "src/eckit/serialisation/ResizableMemoryStream.cc", "src/eckit/serialisation/FileStream.cc",
   "src/eckit/serialisation/PipeStream.cc", "src/eckit/serialisation/HandleStream.h", "src/eckit/serialisation/ReanimatorBase.cc", "src/eckit/serialisation/Streamable.cc", "src/eckit/types/Types.cc"],
  [("tags and lengths", "src/eckit/serialisation/Stream.cc"), ("growing", "src/eckit/serialisation/ResizableMemoryStream.cc"), ("class lookup", "src/eckit/serialisation/ReanimatorBase.cc")],
  [dict(name="e03", src=["e03_stream.cc"], variant="asan")], "bounded-exhaustive enumeration of value sequences, media, cuts and room on the real code",
  "The values written are the model; under the address sanitizer.",
  bound="sequences of 3 (4) values; every cut and room of sequences of 2 (3)")

P("E04", "JSON and YAML text carries values without change, and other text is refused",
  "Whatever is written as JSON - any nesting, any string, any finite number with enough digits - is valid JSON in every format, and reading it gives back the same value; the same text read as YAML does too. "
  "A text is accepted as JSON exactly when it is JSON, with the value it states, and a text which was cut is refused. "
  "A table read from CSV has the fields of the text.",
  ["inputs"], "all trees of up to 5-6 nodes in five formats, all single characters and all pairs and triples of special ones, all texts of up to 6-7 tokens over alphabets of structure and number syntax, "
  "all texts within two edits of a literal, all escapes and surrogate pairs, every cut",
  "The tests read a dozen valid texts and write a few; what must be refused and unusual characters are not among them.",
  ["src/eckit/log/JSON.cc", "src/eckit/log/JSON.h", "src/eckit/parser/ObjectParser.cc", "src/eckit/parser/JSONParser.cc", "src/eckit/parser/StreamParser.cc", "src/eckit/parser/YAMLParser.cc",
   "src/eckit/parser/CSVParser.cc", "src/eckit/value/Value.cc"],
  [("separators and escapes", "src/eckit/log/JSON.cc"), ("grammar", "src/eckit/parser/ObjectParser.cc")],
  [dict(name="e04", src=["e04_text.cc"], variant="asan")], "bounded-exhaustive enumeration of trees and of texts on the real code against a reference parser",
  "A parser of exactly RFC 8259, written for this check, and the tree which was written.",
  bound="trees of 5 (6) nodes; texts of 6 (7) tokens")

P("E05", "Records of items are read as written; damaged ones are refused",
  "Items of any type - numbers, text, arrays, links to items of other records - set in a record and written to a file, memory or stream, alone or one record after another and with any compression, are each read back the same at the offset of their record, in any order and as often as asked. "
  "With checksums on, a record of which a byte was changed or the end is missing never gives an item a value other than the one written: reading it fails or does no harm, also when tried again. "
  "The estimated size is enough, and exact without compression.",
  ["inputs", "operation_histories", "crash_points"], "all items of all types with extreme values in each medium and compression; every byte of a record changed in three (six) ways and every cut, each item then read twice; all histories of 3 (4) records written or appended; chains of links over directories with keys of any characters",
  "The tests write a few records of arrays and read them back whole, and damage none.",
  ["src/eckit/codec/RecordWriter.cc", "src/eckit/codec/Record.cc", "src/eckit/codec/RecordReader.cc", "src/eckit/codec/RecordReader.h", "src/eckit/codec/RecordItemReader.cc", "src/eckit/codec/ReadRequest.cc",
   "src/eckit/codec/Data.cc", "src/eckit/codec/FileStream.cc", "src/eckit/codec/Session.cc", "src/eckit/codec/Metadata.cc", "src/eckit/codec/detail/Checksum.cc", "src/eckit/codec/detail/Base64.cc",
   "src/eckit/codec/types/scalar.cc", "src/eckit/codec/types/array/ArrayMetadata.cc", "src/eckit/codec/types/array/ArrayReference.cc"],
  [("sections and their index", "src/eckit/codec/RecordWriter.cc"), ("what is refused", "src/eckit/codec/Record.cc"), ("checksums", "src/eckit/codec/ReadRequest.cc")],
  [dict(name="e05", src=["e05_codec.cc"], variant="asan", components=["eckit_codec", "eckit"])], "bounded-exhaustive enumeration of values, histories of records, and damage to every byte, on the real code",
  "The values that were set are the model.",
  bound="every byte of a record of six items, changed in 3 (6) ways; histories of 3 (4) records")
