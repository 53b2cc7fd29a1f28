B = "bounded-exhaustive exploration of operation sequences on the real code against a reference model"
P("K01", "In-memory containers behave as the maps, sets, caches and buffers they are",
  "Whatever sequence of operations is made on a container - least-recently-used cache, expiring cache, dense map or set, trie, Bloom filter, buffer, list of buffers, growing or circular buffer - "
  "every query answers as for the map, set, or sequence of bytes it stands for, for all keys and bytes. Eviction takes the least recently used entry, and what leaves "
  "the cache is handed to the purge function once.",
  ["histories"], "all operation sequences up to a depth over small key sets (prefixes, empty keys, bytes 0 and 255) and sizes",
  "The tests follow one or two scripted sequences per container.",
  ["src/eckit/container/CacheLRU.cc", "src/eckit/container/Cache.h", "src/eckit/container/DenseMap.h", "src/eckit/container/DenseSet.h", "src/eckit/container/Trie.cc",
   "src/eckit/container/BloomFilter.cc", "src/eckit/io/Buffer.cc", "src/eckit/io/BufferList.cc", "src/eckit/io/BufferCache.cc", "src/eckit/io/CircularBuffer.cc"],
  [("recency list and map", "src/eckit/container/CacheLRU.cc"), ("range of children", "src/eckit/container/Trie.cc"), ("wrap-around and growth", "src/eckit/io/CircularBuffer.cc")],
  [dict(name="k01", src=["k01_containers.cc"], variant="asan")], B,
  "Standard containers are the model; everything that can be asked is compared after every operation, under the address sanitizer.",
  bound="sequences of 4-8 operations")

P("K03", "A search among points answers what comparing with every point would",
  "Whatever points are put in a search tree - built at once, inserted one by one, or both, with equal points among them, in memory or in a file that is opened again - the nearest point, the k nearest and all points within a radius are those found by comparing with every point, nearest first, each with what was stored with it. "
  "Going through the tree gives every point once, also after more were inserted. A grid searched by any loader, cached or not, answers the same.",
  ["inputs", "histories"], "all sequences of up to 4 (5) points of a 3x3 grid and all ways of building part and inserting the rest, all histories of inserting, searching and listing; every query point on, between and outside of them, every k and radii equal to, below and above the distances",
  "The tests search one regular set of points, build it at once, and compare with a brute force for a few queries.",
  ["src/eckit/container/KDTree.h", "src/eckit/container/KDMemory.h", "src/eckit/container/KDMapped.cc", "src/eckit/container/KDMapped.h", "src/eckit/container/kdtree/KDNode.cc", "src/eckit/container/sptree/SPNode.cc",
   "src/eckit/container/sptree/SPNodeQueue.h", "src/eckit/container/sptree/SPIterator.h", "src/eckit/geo/Search.cc", "src/eckit/geo/search/TreeMapped.cc", "src/eckit/geo/search/TreeMappedFile.cc", "src/eckit/geo/search/TreeMemory.cc"],
  [("what is not visited", "src/eckit/container/kdtree/KDNode.cc"), ("k nearest so far", "src/eckit/container/sptree/SPNodeQueue.h"), ("links between items", "src/eckit/container/sptree/SPIterator.h")],
  [dict(name="k03", src=["k03_space.cc"], components=["eckit_geo", "eckit_geometry", "eckit_spec", "eckit"])], "bounded-exhaustive enumeration of point sets, their histories and queries on the real code against comparison with every point",
  "Distances to every point, sorted.",
  bound="4 (5) points of 3x3, 5 (6) of a cross of five, 4 (5) corners of a box; grids of up to 91 points")
