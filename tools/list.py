prop("C01", "Parsing is complete and maps every element to its own attribute",
     """Every element and attribute the CMSIS-SVD format allows in a device description is represented in the parsed
     device: its value appears in the attribute of the same meaning of the object for the element that carries it, and
     lists hold one entry per element, all of them, in document order. Nothing is taken from another element, and an
     element that is not there leaves its attribute empty.""",
     "inputs", "every well-formed SVD document (any tree of elements, any combination of present and absent optional parts, any nesting depth)",
     """The tests parse a fixed set of small files, one feature at a time; the claim covers every attribute of every level under every
     combination of present and absent siblings, including recursive clusters.""",
     ["parse.py", "model/parse.py"],
     [("Parser._parse_* methods", "src/svdsuite/parse.py"), ("SVD* dataclasses", "src/svdsuite/model/parse.py")], VF)

prop("C02", "The parser refuses exactly what it must, and warns exactly when it alters",
     """A description lacking a mandatory part, or holding a token outside its vocabulary, is refused with an exception, and
     every other description is accepted (an access keyword nobody knows is left out with a warning, not refused). The parser emits a warning when it drops a repeated element, strips
     surrounding blanks or substitutes a default for a missing part, and only then.""",
     "inputs", "every well-formed XML document offered to the parser",
     """Tests delete a handful of mandatory elements one at a time; the condition ranges over every combination of missing, repeated
     and malformed parts at every level and depth.""",
     ["parse.py", "util/parser_exception_warning.py"],
     [("text and attribute readers", "src/svdsuite/parse.py"), ("mandatory-element checks", "src/svdsuite/parse.py")], VF)

prop("C03", "Every parsed element knows its parent",
     """In the parsed device every object below the device refers to the object it is contained in, at every nesting depth, and to
     no other object.""",
     "inputs", "every well-formed SVD document, any nesting depth",
     """Tests look at the parents of a few elements of shallow documents; later stages walk parents from any element of any depth.""",
     ["parse.py", "model/parse.py"],
     [("parent assignment after construction", "src/svdsuite/parse.py")], VF)

prop("C06", "Numbers and booleans are read by the documented grammar",
     """A numeric text written in decimal, hexadecimal (0x) or binary (0b or #) form yields the integer it denotes, leading zeros
     included, and a boolean text yields true for 1/true and false for 0/false in any letter case. Any other text is
     refused instead of being turned into some value, and an absent text yields nothing.""",
     "inputs", "every text an element or attribute may hold",
     """Tests try a few literals; the claim quantifies over all strings.""",
     ["parse.py"], [("number and boolean readers", "src/svdsuite/parse.py")], VF)

PR = ["process.py", "model/process.py"]

prop("C07", "The processed device reports device, CPU and SAU data with their defaults",
     """The processed device states the same device-level, CPU and security-attribution data as the input, with optional values that
     are absent replaced by their documented defaults (32-bit size, read-write access, any protection, reset value 0, reset mask all
     ones of the size, and the CPU defaults) and nothing else changed.""",
     "inputs", "every device description, any combination of present and absent device, CPU and SAU parts",
     """Tests check the defaults of a few devices; the claim ranges over each combination of present and absent parts, zero values
     included.""", PR, [("device assembly", "src/svdsuite/process.py"), ("conversion to the finished device", "src/svdsuite/model/process.py")], VF)

prop("C08", "A derived element keeps its own values and takes the rest from its base",
     """For a peripheral, cluster, register or field with derivedFrom, each value the element states itself wins (also when it is zero,
     empty or false) and each value it does not state is taken from its base; an element without a base only has its own. Position
     values and dimension settings follow the same rule.""",
     "inputs", "every element, base element and combination of stated and unstated values",
     """Tests derive with a few attributes overridden at a time and rarely with falsy values; the claim quantifies over all subsets
     of attributes and all values.""", PR, [("element construction from parsed element and base", "src/svdsuite/process.py")], VF)

prop("C09", "Register properties come from the nearest enclosing level stating them",
     """Size, access, protection, reset value and reset mask of every element of the processed device are the element's own when stated,
     else those of the nearest enclosing cluster, peripheral or the device, else the default; access and write constraint of fields
     come from their register. A size widens to what its content needs, as documented, and nothing else alters inherited values.""",
     "inputs", "every tree of resolved elements at any nesting depth, every combination of stated and unstated values",
     """Tests use shallow trees with a handful of combinations; the claim is by induction over nesting depth.""", PR,
     [("property inheritance", "src/svdsuite/process.py")], VF)

prop("C10", "Dimension expansion yields the right names, indices and positions",
     """An element with dim becomes dim elements whose names and display names carry the n-th index in place of the placeholder and whose
     positions are the base position plus n times the increment; index lists, ranges and letter ranges are read as documented and
     the index count must match. A description whose names or indices do not fit the rules is refused.""",
     "inputs", "every dim, increment, index text, name, display name and derived/base combination",
     """Tests expand small arrays with ordinary indices; the claim covers every count and index text.""", PR,
     [("dimension processing", "src/svdsuite/process.py")], VF)

prop("C11", "A field's bit position means the same in each notation",
     """A field states its position as offset and width, as lsb and msb, or as [msb:lsb]; all three are read to the same lowest and highest
     bit, taken from the base when the field states none, and reported consistently as offset, width, range, lsb and msb. A position that
     is incomplete or malformed is refused.""",
     "inputs", "every field, every combination of the position elements of the field and of its base",
     """Tests use each notation with a few numbers; the claim covers mixes with a base, zero positions and every malformed text.""", PR,
     [("bit position of a field", "src/svdsuite/process.py")], VF)

prop("C12", "Absolute addresses and extents are right at every nesting depth",
     """The absolute address of a register or cluster is its peripheral's base address plus every offset on the way down to it; the extent reported for
     a peripheral or cluster is the one its content and address blocks give. This holds at every nesting depth.""",
     "inputs", "every tree of resolved elements, any nesting depth and any offsets",
     """Tests check addresses of a few elements one or two levels deep; the claim is inductive over depth.""", PR,
     [("address assignment and extents", "src/svdsuite/process.py"), ("finished elements", "src/svdsuite/model/process.py")], VF)

prop("C13", "Lists of the processed device are ordered by position, ties in a fixed order",
     """Peripherals, registers and clusters, fields and enumerated values come out in the documented order of their positions
     whatever the input order, and elements at equal positions are ordered by the documented secondary key.""",
     "inputs", "every processed device, elements at equal positions included",
     """Tests compare the order of a few lists without ties.""", PR,
     [("sorting of elements", "src/svdsuite/process.py")], VF)

prop("C14", "Processing drops or adds no element, and warns exactly when documented",
     """The processed device contains each resolved peripheral, cluster, register, field, interrupt, address block and enumerated value
     exactly once, in the list of its own parent, and nothing else; what processing alters or finds suspicious it reports with a
     warning, and it warns only then.""",
     "inputs", "every resolved device",
     """Tests count elements of small devices; the claim covers each element under each condition.""", PR,
     [("assembly of the finished device", "src/svdsuite/process.py"), ("validation", "src/svdsuite/process.py")], VF)

prop("C15", "Processing refuses exactly the descriptions it must",
     """A description with an element lacking a mandatory value after derivation, a duplicate name, an element reaching out of its container, or a size,
     name or position the rules exclude is refused with a processing error, and any other is accepted.""",
     "inputs", "every description, each rule at every level and depth",
     """Tests have one or two negative cases per rule; the claim is that the condition of refusal is right for all inputs.""", PR,
     [("validation", "src/svdsuite/process.py"), ("element construction", "src/svdsuite/process.py")], VF)

prop("C16", "What an element states arrives unchanged in the processed device",
     """Each value of a resolved element (names, descriptions, groups, constraints, actions, conditions, interrupts, address blocks, flags) is found, with the
     same meaning and unaltered apart from documented defaults, on the corresponding element of the processed device, and on no other.""",
     "inputs", "every resolved device",
     """Tests compare some attributes of some levels; a swapped or forgotten attribute, or one that is right only when another is
     present, passes them.""", PR,
     [("finished elements", "src/svdsuite/model/process.py"), ("assembly", "src/svdsuite/process.py")], VF)

prop("C17", "Overlapping addresses are reported unless declared as alternates",
     """Processing warns about a pair of peripherals, or of registers and clusters of one container, whose addresses overlap, unless they are related, directly or
     through a chain of alternate declarations, or share an alternate group; and it warns about no other pair. An alternate
     naming something that does not exist is tolerated.""",
     "inputs", "every set of siblings, any graph of alternate declarations",
     """Tests use two or three siblings; the claim covers chains of any length, cycles and any extents.""", PR,
     [("overlap checks", "src/svdsuite/process.py"), ("alternate closure", "src/svdsuite/process.py")], VF)

prop("C18", "Enumerated values are expanded, validated and kept for every bit pattern",
     """A container's enumerated values are read with don't-care bits expanded to each matching number and the default entry to all numbers
     the others leave. Repeated names or values, values named reserved and values outside the bit range are left out with a warning; an unreadable
     value or a second default is refused. Each value keeps its name and description. The finished field has the containers it states.""",
     "inputs", "every container, wildcard text, bit width and default",
     """Tests expand a few narrow fields; the claim is for all widths and texts.""", PR,
     [("enumerated value containers", "src/svdsuite/process.py")], VF)

RS = ["resolve/resolver.py", "resolve/graph.py", "resolve/graph_builder.py", "resolve/graph_elements.py"]

prop("C19", "derivedFrom means the element the lookup rules pick, or stays unresolved",
     """A derivedFrom path is looked up first among the siblings of the deriving element and then from the peripherals down, matching names
     part by part and the level of the deriving element, never the element itself; exactly one match is taken (of several registers, the
     only one outside an alternate group), several are refused, and none leaves the reference open until the path can be resolved.""",
     "inputs", "every description, any names, nesting and derivedFrom paths",
     """Tests resolve paths in small trees; the claim covers every tree, equal names in other scopes and paths through elements that do
     not exist yet.""", RS, [("path resolution", "src/svdsuite/resolve/resolver.py"), ("initial graph", "src/svdsuite/resolve/graph_builder.py")], VF)

prop("C20", "Resolution ends, handles bases before what derives from them, refuses cycles",
     """Each element is processed once, after its parent and its base; a circle of derivations, a repetition without progress and a
     reference that can never be resolved end in a processing error, so resolution terminates for every description.""",
     ["inputs", "histories"], "every description, any graph of derivations, any number of rounds",
     """Tests contain a few forward references and cycles; the claim is about every graph and every order in which references become resolvable.""",
     RS, [("rounds of resolution", "src/svdsuite/resolve/resolver.py"), ("element graph", "src/svdsuite/resolve/graph.py")], VF)

prop("C21", "A derived or replicated element gets copies of everything below its base",
     """An element that derives from a base has, besides its own children, a copy of every element below the base, with their own
     derivations still to be resolved; each replica of a dimensioned element has all children of the element, the element standing for the
     array itself does not appear in the result, and values of copies are independent of the originals.""",
     "inputs", "every description, any combination of derivation, nesting and dimensions",
     """Tests combine derivation with arrays in a few ways; the claim covers all combinations.""",
     RS, [("processing of one element", "src/svdsuite/resolve/resolver.py"), ("replication", "src/svdsuite/resolve/graph.py")], VF)

prop("C22", "Finished elements consist of all their resolved children, in order, sized to fit",
     """Every element is put together after all elements below it, from all of them except array templates, in the documented order; the size of a
     peripheral or cluster is the widest of its content, with content that states none counted by what it inherits; a field
     has at most one enumerated-value container per usage.""",
     "inputs", "every resolved element graph, any depth",
     """Tests check sizes and children of shallow trees.""",
     RS, [("finishing", "src/svdsuite/resolve/resolver.py"), ("bottom-up traversal", "src/svdsuite/resolve/graph.py")], VF)

prop("C04", "Keywords are read and written by the CMSIS-SVD vocabulary",
     """Every keyword of the format (processor names, endianness, access, protection, usages, data types, write and read side effects,
     SAU access) is read as the member of that meaning, the documented further spellings included (processor names and access in any letter
     case, access also in its deprecated short forms); any other text is refused, or left out with a warning where it is an access; and each member is written as the keyword that is read back as it.""",
     "inputs", "every text offered where a keyword is expected, and every member",
     """Tests try the listed keywords in one spelling; the claim is about every text, accepted or not.""",
     ["model/types.py"], [("from_str of each keyword type", "src/svdsuite/model/types.py")], VF)

prop("C05", "Unusual encodings are tried in the documented order before giving up",
     """A well-formed document is read as it is, without a warning. Otherwise the five common encodings are tried strictly, then the same five with recovery; the
     first that succeeds is used and a warning says so; when none does, the first syntax error is raised. Files and bytes are treated alike.""",
     "inputs", "every file or content, any outcome of each attempt",
     """Tests hold a few broken files that succeed at one step; the claim covers every sequence of outcomes.""",
     ["util/xml_parse.py"], [("safe_parse and safe_fromstring", "src/svdsuite/util/xml_parse.py")], VF)

prop("C23", "Serialization writes everything a description states, where the schema wants it",
     """The XML written for a description has one element or attribute for each value that is stated, with that value in a form the parser reads back as the same,
     at the place and in the order the CMSIS-SVD schema prescribes, for every child at every nesting depth, and none for a value that is not stated. The
     bytes, text and file variants hold the same document, as the arguments for layout and declaration ask.""",
     "inputs", "every description, any combination of stated and unstated values, any nesting",
     """Tests write a few small descriptions; the claim covers each combination of stated and unstated values at each level.""",
     ["serialize.py"], [("serializer of each level", "src/svdsuite/serialize.py"), ("Serializer entry points", "src/svdsuite/serialize.py")], VF)

prop("C24", "A processed device converts back into an equivalent explicit description",
     """The description made from a processed device states every value of it explicitly at every element, in the same order, with no derivation or
     dimension left, and each object below the device refers to the one it is contained in.""",
     "inputs", "every processed device, any nesting depth",
     """Tests convert a couple of devices and compare some values; the claim covers every attribute at every level.""",
     ["util/process_parse_model_convert.py", "process.py"], [("conversion of each level", "src/svdsuite/util/process_parse_model_convert.py")], VF)

prop("C25", "The register map lists every register at its absolute address",
     """The register map has one entry per peripheral, by ascending base address, spanning all its address blocks, and in it one entry for
     each register at any cluster depth, at the sum of the offsets on the way from the base address, with the properties and fields of that register.""",
     "inputs", "every processed device, any nesting depth, any address blocks",
     """Tests map shallow devices with one block each; the claim covers every depth and every arrangement of blocks.""",
     ["map.py"], [("map construction", "src/svdsuite/map.py")], VF)

prop("C26", "File, bytes and text entry points give the same result",
     """Parsing and processing from a file, from bytes and from a text holding the same document give the same device, as loading the
     document and handing it to the constructor does; the option for the resolver log is passed on by each.""",
     "inputs", "every document, through each entry point",
     """Tests use one entry point each; the claim is that they agree for every document.""",
     ["parse.py", "process.py"], [("from_svd_file, from_xml_content, from_xml_str", "src/svdsuite/parse.py, src/svdsuite/process.py")], VF)

prop("C27", "Validation gives the verdict of the published schema of the chosen version",
     """Validating a document against a version of the format gives the verdict of the schema published for that version: true when it conforms, else the
     schema's error or, if asked for a verdict only, false. All published versions are available, and the latest is the default.""",
     "inputs", "every document, every version, each entry point",
     """Tests validate a few files against some versions; the claim is about every document, and about the schemas themselves.""",
     ["validate.py", "schema/1.3.11.xsd"], [("Validator", "src/svdsuite/validate.py"), ("schemas", "src/svdsuite/schema/*.xsd")], VF)

EF = "static analysis: escape analysis of exceptions over the typed call graph"
MUT = "static analysis: interprocedural effect (ownership) analysis"

prop("C28", "Only the exception classes the package exports leave it",
     """Whatever goes wrong inside, an exception of the package's own that reaches a caller of a public function is one the package exports: a failure
     while resolving arrives as ProcessException, a malformed description as ParserException, a failed validation as ValidatorException.""",
     "inputs", "every failure, through each public function",
     """Tests provoke some failures; the claim is about every raise statement and every path from it to a caller.""",
     ["process.py", "resolve/exception.py"], [("translation of resolver failures", "src/svdsuite/process.py")], EF)

prop("C29", "No stage changes the objects it is given",
     """Processing leaves the parsed description as it was, converting and mapping leave the processed device as it was, serializing leaves the
     description as it was: nothing is assigned to, removed from, added to or reordered in any object reachable from the input.""",
     "inputs", "every input, each stage, any helper at any depth",
     """Tests look at results, not at what became of the input; using the same input twice is what breaks.""",
     ["process.py", "map.py", "serialize.py", "util/process_parse_model_convert.py"],
     [("processing", "src/svdsuite/process.py, src/svdsuite/resolve/"), ("conversion, map, serializer", "src/svdsuite/")], MUT)

prop("C30", "A result depends on the input only, not on earlier runs or on hashing",
     """No run leaves anything behind that a later one sees (module or class variables, kept mutable results, shared default arguments, process-wide
     settings), and no result depends on the order of a set, on object identity, time, randomness or the environment.""",
     "schedules", "every sequence of runs in one process, every hash seed",
     """Tests run each case once with one hash seed; influence between runs needs a history, hash order a different process.""",
     ["process.py", "parse.py", "resolve/graph.py"], [("every function", "src/svdsuite/")], "static analysis: shared-state and ordering analysis of every function")

prop("C31", "The package runs on what it declares to require",
     """Every module it imports is its own, in the standard library, or provided by a declared dependency; and its syntax and the standard library
     names it uses exist in every interpreter version its requires-python admits.""",
     "configurations", "every interpreter from the oldest declared one on, with the declared dependencies installed and nothing else",
     """Tests run on one interpreter in a development environment that has more installed.""",
     ["process.py", "validate.py", "resolve/logger.py"], [("imports and syntax", "src/svdsuite/"), ("declared requirements", "pyproject.toml")],
     "static analysis: import, name and syntax lint against the declared requirements")

prop("C32", "The resolver log does not influence the result",
     """Whatever the resolver log records, nothing of the graph, its nodes, the elements or the resolver is changed by it; without a file for
     the log, logging does nothing at all and needs nothing.""",
     "inputs", "every graph at every point of logging, with and without a log file",
     """Tests run without a log; that a run with one gives the same device is not tried.""",
     ["resolve/logger.py", "util/html_generator.py"], [("ResolverLogger", "src/svdsuite/resolve/logger.py"), ("drawing the graph", "src/svdsuite/resolve/graph.py")],
     MUT + "; gated value-flow comparison")

prop("C33", "A description written out and read again is the same description",
     """Parsing what the serializer wrote for a description yields an equal description: every attribute, list and order survives, for bytes, text and
     file, with and without pretty printing.""",
     "inputs", "every parsed or converted description",
     """A test writes and reads a few descriptions; the claim is about every combination of present, absent and unusual values.""",
     ["serialize.py", "parse.py"], [("serializer and parser together", "src/svdsuite/serialize.py, src/svdsuite/parse.py")],
     na="""The two directions are decided each by itself (C23: the tree and bytes written; C01, C02, C06: what is read from any tree). That they are inverse
 needs lxml's writer and reader composed on arbitrary text (blanks stripped on reading, control characters, indentation inserted by pretty printing), which are
 native code outside the analysed source, and an induction over nesting through both at once; no rule of this family decides it, and it is false for texts with
 outer blanks by design.""")

prop("C34", "Processed devices agree with SVDConv",
     """For every description SVDConv accepts, the processed device has the names, addresses, sizes and values SVDConv computes for it, and what SVDConv
     refuses is refused or warned about.""",
     "inputs", "every description",
     """Tests compare with notes taken from SVDConv runs on some files.""",
     ["process.py"], [("processing", "src/svdsuite/process.py")],
     na="""The oracle is another program, which is neither in the sandbox nor specified beyond its behaviour; the parts of it that the documentation states
 are claims C07-C22 against references of their own.""")

prop("C35", "Processing takes time and memory in proportion to the expanded device",
     """Parsing, resolving and finishing a description take time and memory in proportion to the number of elements of the expanded device, whatever the
     order and nesting of its references.""",
     "inputs", "every description",
     """Tests run on small devices without measuring.""",
     ["resolve/resolver.py", "resolve/graph.py", "process.py"], [("rounds of the resolver", "src/svdsuite/resolve/resolver.py")],
     na="""A runtime quantity: the number of rounds depends on the shape of the reference graph and the cost of a step on rustworkx, which no rule over the source
 bounds usefully (known to fail: a default value in a 32-bit field enumerates 2^32 values). That the rounds end is C20.""")

prop("C36", "The resolver log tells what the resolver did",
     """The HTML log shows every round, the elements processed in it, the placeholders resolved and the graph as it was at that moment.""",
     "inputs", "every run with a log file",
     """Tests do not look into the log.""",
     ["resolve/logger.py", "util/html_generator.py"], [("ResolverLogger", "src/svdsuite/resolve/logger.py")],
     na="""What the log ought to show is documented nowhere but in the code that writes it (pages, colours, layout by graphviz); a reference for it would be a copy
 of the code. That the log changes nothing is C32.""")

prop("C37", "Processing a converted device again changes nothing",
     """Converting a processed device to a description and processing that yields an equal processed device.""",
     "inputs", "every description that is processed",
     """A test does it for a few devices.""",
     ["process.py", "util/process_parse_model_convert.py"], [("processing and conversion together", "src/svdsuite/")],
     na="""Needs that the finishing steps are idempotent on their own results (sorted lists stay sorted, filtered ones filtered, sizes and addresses
 recomputed to the same numbers) through a graph fix-point and two recursions at once: the summaries of the stages are over arbitrary inputs, and composing them
 symbolically over recursive lists is out of this analyser's reach. The stages are decided each by itself (C07-C16, C24).""")
