B = "bounded-exhaustive enumeration of inputs on the real code against an independent reference"
P("G01", "A grid has exactly the points its description says, in every form",
  "A grid made from a description has exactly the points which its type, increments, row lengths, reference, area and order define, each once and in that order, whether they are iterated, "
  "listed, asked for as first and last or counted; its box holds all of them, and its own description and identifier make an equal grid with the same points. "
  "Iterators can be moved by any steps in both directions, cropping keeps exactly the points in the area in their order, renumbering to another order is one to one, and boxes contain and intersect as sets of points.",
  ["inputs", "histories"], "every combination of increments, row lengths, areas, references and orders from lists; every sequence of iterator moves to a depth; every pair of boxes from a lattice",
  "The tests check a few grids point by point; areas which do not fit the increments, rows left empty and boxes across the date line are many.",
  ["src/eckit/geo/Grid.cc", "src/eckit/geo/range/Regular.cc", "src/eckit/geo/grid/Regular.cc", "src/eckit/geo/grid/Reduced.cc", "src/eckit/geo/grid/regular/RegularLL.cc", "src/eckit/geo/grid/regular/RegularGaussian.cc",
   "src/eckit/geo/grid/reduced/ReducedGaussian.cc", "src/eckit/geo/grid/reduced/ReducedLonLat.cc", "src/eckit/geo/grid/reduced/HEALPix.cc", "src/eckit/geo/order/HEALPix.cc", "src/eckit/geo/grid/Unstructured.cc",
   "src/eckit/geo/iterator/Regular.cc", "src/eckit/geo/iterator/Reduced.cc", "src/eckit/geo/iterator/Unstructured.cc", "src/eckit/geo/area/BoundingBox.cc"],
  [("limits and cropping of ranges", "src/eckit/geo/range/Regular.cc"), ("boxes as sets", "src/eckit/geo/area/BoundingBox.cc"), ("descriptions", "src/eckit/geo/Grid.cc"), ("numbering", "src/eckit/geo/order/HEALPix.cc")],
  [dict(name="g01", src=["g01_grids.cc"], components=["eckit_geo", "eckit"])], B,
  "The points are computed from the definition: arithmetic sequences within the area, roots of Legendre polynomials found by bisection, and the published formula of HEALPix pixel centres.",
  bound="5x5 increments, 17 areas, 6 references, 5 orders; Gaussian grids to N=3 (5); HEALPix to Nside 8 (16); lists of up to 4 points; 4 (5) iterator moves; 360x360 boxes",
  assumptions=("Orders which go along meridians first, or alternate, are not implemented by the iterators and left out.",))

P("G02", "Grids used by several threads at once are those used by one",
  "Building grids and computing what they share (spaced values, Gaussian latitudes and weights, row lengths, rings, lists of points) in several threads at once gives in each thread what it gives alone, "
  "whichever thread is first; nobody sees a value before it is complete or has it changed while in use.",
  ["schedules"], "all interleavings of two threads, each with one of 11 operations on the shared caches, starting with empty caches",
  "The tests use grids from one thread.",
  ["src/eckit/geo/cache/MemoryCache.h", "src/eckit/geo/cache/RecordCache.h", "src/eckit/geo/util/linspace.cc", "src/eckit/geo/util/gaussian_latitudes.cc", "src/eckit/geo/util/reduced_classical_pl.cc", "src/eckit/geo/grid/reduced/HEALPix.cc", "src/eckit/geo/grid/Unstructured.cc"],
  [("shared values", "src/eckit/geo/cache/MemoryCache.h"), ("records", "src/eckit/geo/cache/RecordCache.h")],
  [dict(name="g02", src=["g02_threads.cc"], components=["eckit_geo", "eckit"], **SCHED)],
  "stateless model checking of the implementation under a controlled scheduler (preemption-bounded enumeration of all interleavings)",
  "What each operation gives is compared with what it gave when run alone; accesses are checked by a vector-clock race detector.",
  bound="2 threads, 1 preemption", assumptions=("Sequentially consistent memory.",))
