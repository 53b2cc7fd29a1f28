B = "bounded-exhaustive exploration of operation sequences on the real code against a reference model"
P("V01", "A value is independent of its copies, and values are ordered",
  "Changing a value - setting, appending, removing, also deep inside - changes no copy made of it, and shows exactly what was done to it. "
  "Values of any types are totally ordered, equality agrees with the order, and numbers are ordered by value. "
  "Streaming or cloning a value gives an equal one; conversions and arithmetic on integers give the exact result or fail.",
  ["histories", "inputs"], "all sequences of up to 4-5 of fifteen operations on two values sharing content; all triples of 58 values of every type; all pairs of extreme integers",
  "The tests check one type at a time with ordinary values; sharing after several operations and transitivity across types are not tried.",
  ["src/eckit/value/Value.cc", "src/eckit/value/Content.cc", "src/eckit/value/NumberContent.cc", "src/eckit/value/DoubleContent.cc", "src/eckit/value/ListContent.cc", "src/eckit/value/MapContent.cc",
   "src/eckit/value/OrderedMapContent.cc"],
  [("copy on write", "src/eckit/value/Value.cc"), ("comparison", "src/eckit/value/NumberContent.cc")],
  [dict(name="v01", src=["v01_value.cc"], variant="asan")], B + ", and of all triples of a set of values",
  "A tree without sharing; order of the extended precision values; 128-bit arithmetic.",
  bound="4 (5) operations; 58 values")

P("V02", "A configuration holds what was set, under its path, and nothing else",
  "After any sequence of sets (values, lists, configurations, also into itself), merges, removals and copies of configurations, each path has the value last set there with its type, other paths are unaffected, and keys keep their order. "
  "Asking for what is not there gives the default or fails; asking for another type converts exactly or fails; changing a copy or a part taken out changes nothing else. "
  "Writing a configuration and reading it gives it back.",
  ["histories"], "all sequences of 3-4 operations on two configurations with paths up to three deep and values of ten types",
  "The tests set and read a few paths once; sharing between configurations after several operations is not tried.",
  ["src/eckit/config/Configuration.cc", "src/eckit/config/LocalConfiguration.cc", "src/eckit/config/YAMLConfiguration.cc", "src/eckit/value/OrderedMapContent.cc"],
  [("setting below a path", "src/eckit/config/LocalConfiguration.cc"), ("lookup", "src/eckit/config/Configuration.cc")],
  [dict(name="v02", src=["v02_config.cc"])], B,
  "A tree without sharing.",
  bound="3 (4) operations")

P("V03", "Command lines and specifications give exactly the values stated",
  "Every command line gives each option the value stated last (or its default), the rest as arguments in order, or is refused as a whole; configuring another object passes on these values and nothing else. "
  "A specification gives back every value set, under its name in any case, to every type that can represent it, and nothing for other types; it equals its copies, and survives being written and read. "
  "In layers of specifications the first layer that can answer does, unless the name is hidden.",
  ["inputs", "histories"], "all command lines of up to 4 (5) of 24 tokens and up to 5 (7) of 7; all sequences of 3 (4) changes with 18 values; all pairs of specifications; all stacks of 4 (5) layers; all values of up to 3 of 12 scalars",
  "The tests try about forty command lines with one or two options, and a single layer.",
  ["src/eckit/option/CmdArgs.cc", "src/eckit/option/SimpleOption.cc", "src/eckit/option/VectorOption.cc", "src/eckit/option/MultiValueOption.cc", "src/eckit/spec/Custom.cc", "src/eckit/spec/Layered.cc", "src/eckit/spec/Layered.h"],
  [("parsing", "src/eckit/option/CmdArgs.cc"), ("typed lookup", "src/eckit/spec/Custom.cc"), ("layers", "src/eckit/spec/Layered.h")],
  [dict(name="v03", src=["v03_options.cc"], components=["eckit", "eckit_option", "eckit_spec"])], "bounded-exhaustive enumeration of command lines and operation sequences on the real code against a reference model",
  "A parser of command lines written anew; maps of tagged values and a list of such maps.",
  bound="4 (5) tokens; 3 (4) changes")

P("V04", "A resource has the value of the first of its sources that states one",
  "A resource has the value of its option on the command line, else of its environment variable, else of the configuration files, else its default; the more specific name and then the later file win. "
  "Every line of a configuration file counts, whatever its length and whatever the others, and names are not confused with one another. "
  "A resource keeps its value until it is told to configure itself again.",
  ["inputs"], "all configuration files of up to 6 (7) of 7 characters, up to 9 (10) of 4 and 7 (8) of 6; all command lines of 2 (3) of 7 tokens with all contents of 4 files, environment and 9 definitions; 22 line lengths up to 70000; 6 types from 4 sources",
  "The tests use one command line and three variables, and no configuration file.",
  ["src/eckit/config/Resource.h", "src/eckit/config/ResourceBase.cc", "src/eckit/config/ResourceMgr.cc", "src/eckit/config/Configurable.cc", "src/eckit/runtime/Main.cc"],
  [("sources", "src/eckit/config/ResourceBase.cc"), ("configuration files", "src/eckit/config/ResourceMgr.cc"), ("owners", "src/eckit/config/Configurable.cc")],
  [dict(name="v04", src=["v04_resources.cc"], components=["eckit"])], "bounded-exhaustive enumeration of configurations on the real code against a reference model",
  "A reader of configuration files and the order of precedence, written anew.",
  bound="files of 7 (10) characters; 2 (3) tokens")
