B = "bounded-exhaustive enumeration of inputs and operation sequences on the real code against an independent reference"
P("L01", "Matrices keep their entries, and every backend computes the same products",
  "A sparse matrix holds exactly the entries it was made from and shows them at their rows and columns whichever way they are visited, however it was made and after any sequence of transposition, removal of values, choice of rows, copies, moves and trips through streams, files and memory; an operation which is refused leaves it as it was, as does any operation the arrays of the user. "
  "Every available backend gives the product of the matrices, also for rows without entries, and refuses operands of the wrong shape. Tensors keep the entry at each set of indices through changes of layout, copies, moves, views and streams.",
  ["inputs", "histories"], "all matrices of up to 3x3 (4 or 5 cells) with 2 operations out of 11 from four sources (2x2 with 3), all patterns of entries in up to 6x2 (7x2), all lists of 2 (3) triplets, dumps cut or changed at any place, dense products up to 4x4x4 (5), tensors of up to 4 dimensions of up to 3",
  "The tests use a few fixed matrices without empty rows between others.",
  ["src/eckit/linalg/SparseMatrix.cc", "src/eckit/linalg/Matrix.cc", "src/eckit/linalg/Vector.cc", "src/eckit/linalg/Tensor.h", "src/eckit/linalg/sparse/LinearAlgebraGeneric.cc", "src/eckit/linalg/dense/LinearAlgebraGeneric.cc", "src/eckit/linalg/dense/LinearAlgebraEigen.cc", "src/eckit/linalg/sparse/LinearAlgebraEigen.cc", "src/eckit/linalg/allocator/StandardContainerAllocator.cc"],
  [("iterators and operations", "src/eckit/linalg/SparseMatrix.cc"), ("products", "src/eckit/linalg/sparse/LinearAlgebraGeneric.cc"), ("layouts", "src/eckit/linalg/Tensor.h")],
  [dict(name="l01", src=["l01_linalg.cc"], components=["eckit_linalg", "eckit"], variant="asan")], B,
  "Lists of (row, column, value) and the definition of the products.",
  bound="matrices of up to 5 cells; 2 (3) operations")
