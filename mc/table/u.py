B = "bounded-exhaustive enumeration of inputs and operation sequences on the real code against an independent reference"
P("U01", "Paths keep their place, file operations do as they say, URIs keep their parts",
  "Tidying, joining, splitting and relating paths never changes the place they denote. "
  "Operations on files and directories have their effect or fail and leave the tree as it was; a temporary directory is removed with all it contains and nothing outside of it. "
  "A URI has the parts its text gives, which are the same after writing, reading, streaming or changing other parts, with any bytes as values.",
  ["inputs", "histories"], "all paths of up to 9 (11) characters; all pairs of paths of three components; all sequences of 3 (4) of eleven operations on five names; all contents of a temporary directory; all URIs of combined parts; all texts of 5 (6) characters after six beginnings",
  "The tests use a few dozen paths and URIs with the parts in the usual places.",
  ["src/eckit/filesystem/LocalPathName.cc", "src/eckit/filesystem/PathName.cc", "src/eckit/filesystem/URI.cc", "src/eckit/filesystem/URIManager.cc", "src/eckit/filesystem/TmpDir.cc"],
  [("tidying", "src/eckit/filesystem/LocalPathName.cc"), ("authority and query", "src/eckit/filesystem/URI.cc"), ("removal of a tree", "src/eckit/filesystem/TmpDir.cc")],
  [dict(name="u01", src=["u01_paths.cc"])], B,
  "Places as steps up and names; a tree of names with shared contents; the grammar of URIs.",
  bound="paths of 9 (11) characters; 3 (4) operations")
P("U02", "Text is split, substituted, matched and converted exactly; hash order is stable",
  "Splitting, trimming, substituting variables and matching shell patterns have the result their definition gives for every text, and malformed text is refused. "
  "A number written as text, with or without a unit of size, is converted to that number, or refused if it is no number or does not fit the type. "
  "The order of nodes for a key does not depend on their order of arrival and does not change when another node goes; indices and coordinates of a hypercube are a bijection that growth of a dimension keeps.",
  ["inputs"], "all texts of up to 8 (10) characters over small alphabets; all patterns of up to 4 (5) items on all texts of 4 characters; all integers at the limits of eight types with eight units; all orders of 5 nodes; all cubes of up to 4 dimensions",
  "The tests use a few dozen texts, and no pattern with a character that is special elsewhere.",
  ["src/eckit/utils/Tokenizer.cc", "src/eckit/utils/StringTools.cc", "src/eckit/utils/Regex.cc", "src/eckit/utils/Translator.cc", "src/eckit/utils/RendezvousHash.cc", "src/eckit/utils/HyperCube.cc", "src/eckit/filesystem/PathExpander.cc"],
  [("pattern to regular expression", "src/eckit/utils/Regex.cc"), ("units", "src/eckit/utils/Translator.cc"), ("order of nodes", "src/eckit/utils/RendezvousHash.cc")],
  [dict(name="u02", src=["u02_text.cc"], variant="asan")], B,
  "Definitions of splitting, trimming and matching written anew; 128-bit arithmetic; sorting by digest.",
  bound="texts of 8 (10) characters, patterns of 4 (5) items")
