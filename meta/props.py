def P(id, title, statement, over, qtext, why, files, mech, check=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if check: d["check"] = check
    else: d["na"] = na
    return d
PA = "yam-core/src/parsing/parser.rs"; SC = "yam-core/src/parsing/scanner.rs"; SO = "yam-core/src/parsing/source.rs"
TA = "yam-core/src/parsing/mod.rs"; LO = "yam-core/src/prelude/loader.rs"
NA = []
PROPS = [
P("C01", "Event streams are always well nested and framed",
  "For every input, the sequence of events delivered up to the stream end or the first error is a prefix of: stream start, then documents each made of a document start, exactly one root node and a document end, then stream end. Every sequence or mapping start is closed by its own end event, in proper nesting, and no event occurs outside the construct it belongs to.",
  ["inputs"], "every input (any token sequence the scanner can produce) and every nesting depth",
  "The nesting of events is a property of all paths through the parser's state machine and of unbounded stacks; the tests sample documents.",
  [PA], [("state machine", PA + " state_machine"), ("state stack", PA + " push_state/pop_state")],
  {"technique": "abstract interpretation of MIR extracting the parser's pushdown transition relation; complete reachability against the event grammar",
   "note": "All parser states x look-ahead token classes, all stack depths by procedure summaries. The scanner is assumed to be any token source. Default feature set; comment feature excluded (see DESIGN.md)."}),
P("C02", "Mapping children come in key/value pairs",
  "Between a mapping start event and its matching mapping end event, the child nodes always form complete key/value pairs: missing keys or values are delivered as empty scalars, so the number of child nodes is even for every input.",
  ["inputs"], "every input and every nesting depth",
  "Omitted keys and values can occur in any combination of block, flow and single-pair mappings; the tests cover a few combinations.",
  [PA], [("mapping states", PA + " block_mapping_key/value, flow_mapping_key/value, flow_sequence_entry_mapping_*")],
  {"technique": "abstract interpretation of MIR extracting the parser's pushdown transition relation; phase of every open mapping tracked over all reachable configurations",
   "note": "Same exploration as C01, reporting transitions that close a mapping between a key and its value."}),
P("C05", "Pulling events uses a bounded amount of native stack",
  "Pulling events one at a time, from the token scanner, the event parser or the high-level event iterator, uses an amount of native stack bounded by a constant, however deeply collections in the document nest. Arbitrarily deep nesting is reported as events or as an error, never as a stack overflow.",
  ["inputs"], "every document, of any nesting depth, read through the pull interfaces",
  "Tests use documents a few levels deep; stack exhaustion depends on unbounded nesting depth.",
  [PA, SC, "yam-core/src/parsing/parser_iter.rs"],
  [("explicit state stack instead of recursion", PA + " Parser.states"), ("explicit indent stack", SC + " Scanner.indents")],
  {"technique": "whole-program call-graph SCC analysis over type-resolved MIR",
   "note": "Call graph from resolved MIR callees (trait calls dispatched to every local implementation); no cycle reachable from the pull API and no recursive owned type. Client-supplied iterators behind a source are assumed not to call back into the parser."}),
P("C04", "Reading any input terminates",
  "For every input, scanning tokens, pulling events, iterating, and pushing events into a receiver finish after finitely many steps: no step loops without consuming input, and the stream of events always ends with the stream end or an error.",
  ["inputs"], "every byte sequence, however malformed or truncated",
  "Non-termination hides in rare combinations of characters, truncation points and line-break styles; a test suite only shows the inputs it holds.",
  [SC, PA, SO, "yam-core/src/parsing/parser_iter.rs"],
  [("scanner loops", SC), ("token fetching and stream end", SC + " fetch_more_tokens/fetch_stream_end"), ("state machine", PA + " state_machine"), ("push loaders", PA + " load*")],
  {"technique": "modular abstract interpretation of MIR (assume/guarantee scanner summaries with look-ahead sets) checking progress on every loop back edge; token-free cycle search in the extracted parser automaton",
   "note": "All scanner loops for all states and look-ahead bytes; all parser transitions at all stack depths. The source is assumed to advance by the bytes skipped; private unused code (BufferedBytesSource) excluded; default feature set."}),
P("C06", "Reading never panics",
  "For every input shorter than 4 GiB, pulling events, iterating, and pushing events into a receiver never panics: no failed assertion, arithmetic overflow, out-of-range index, missing value or unreachable arm. Malformed input is always reported as an error, and exhausting the native stack on deeply nested input is the only exception.",
  ["inputs"], "every byte sequence, however malformed or truncated, under overflow checks",
  "Panics hide behind conditions that only rare combinations of malformed constructs establish; a test suite shows their absence only for the inputs it holds.",
  [SC, PA, SO, "yam-core/src/parsing/parser_iter.rs", "yam-core/src/parsing/char_utils.rs"],
  [("scanner assertions, unwraps and subtractions", SC + " insert_token, unroll_indent, remove_simple_key, fetch_value"), ("state stack", PA + " pop_state"), ("push loaders", PA + " load_document, load_node")],
  {"technique": "abstract interpretation of MIR proving every panic site infeasible, with checked invariants on simple keys, indentation stack and token queue, and an event-grammar typestate for the push loaders",
   "note": "All scanner states and look-ahead bytes, all parser states and token classes, all nesting shapes of the push loaders. Assumes additive 32-bit counters do not overflow (inputs under 4 GiB) and enough native stack when pushing. Library routines by their documented panic conditions."}),
P("C10", "Reported positions match the input consumed",
  "For every input, the position the reader reports after consuming any part of it is exact: the byte offset equals the number of bytes consumed, the line is one more than the number of line breaks consumed (CR LF, CR and LF each count once), and the column is the number of bytes since the last break plus one. The reader never consumes past the end of the input.",
  ["inputs"], "every byte sequence and every point at which a token, event or error is produced",
  "Position drift appears only after particular constructs, line-break styles or escapes; tests compare few spans.",
  [SC], [("mark updates", SC + " skip_blank/skip_non_blank/skip_linebreak/skip_ws_to_eol and callers of Source::skip*")],
  {"technique": "modular abstract interpretation of MIR with ghost counters relating the position mark to source consumption at every call and return",
   "note": "Every scanner function for all states and look-ahead bytes. Helper methods of the source are used with their summarised meaning (bytes skipped, what remains ahead). Columns count bytes."}),
P("C11", "Quoted and plain scalars carry exactly the text that was written",
  "For every input, the value of a quoted or plain scalar is the text between its delimiters with escapes replaced, doubled quotes halved, line breaks folded and nothing else changed, lost or added. Exactly the escape sequences of YAML 1.2 are understood, with their values, and every byte that can be text is accepted. Text never runs over a comment, a mapping colon, a flow indicator of the surrounding collection, or the end of the input.",
  ["inputs"], "every byte sequence inside a flow scalar, of any length and any mix of escapes, blanks and line breaks",
  "Folding and buffers that must be reset interact over whole scalars; tests contain a few escapes and a few folds, each in isolation.",
  [SC], [("quoted scalars", SC + " scan_flow_scalar/resolve_flow_scalar_escape_sequence"), ("plain scalars", SC + " scan_plain_scalar")],
  {"technique": "abstract interpretation of MIR with symbolic buffer contents, in lock step with a reference transducer for flow scalars",
   "note": "Any number of iterations (runs of equal bytes are folded to one symbol in program and reference alike). Block scalars and the end of a plain scalar by indentation are not covered."}),
P("C14", "Aliases refer to the latest anchor of that name in their own document",
  "In every input, an alias event carries the identifier of the node most recently anchored under exactly the alias's name earlier in the same document, and an alias to a name not anchored there is an error. Anchor identifiers are positive and never shared by two anchored nodes of a stream, a node without an anchor carries none, and anchors never survive the end of their document, whichever reading interface is used.",
  ["inputs", "histories"], "every input and every mix of reading interfaces",
  "Which anchors are in force depends on the whole preceding document history; the tests alias a handful of names.",
  [PA], [("anchor registration", PA + " register_anchor/parse_node"), ("document end", PA + " document_end"), ("push interface", PA + " load")],
  {"technique": "abstract interpretation of MIR: synchronous product with the token grammar plus a frame analysis of the anchor map over all parser steps",
   "note": "Oracle: reference transducer's registrations. Drivers outside the step function that touch the map are interpreted against the event grammar."}),
P("C15", "Tag shorthands resolve through their own document's directives",
  "For every input, a tag shorthand resolves to the prefix its handle was given by a directive of the same document (or by an earlier document when tags are kept), the secondary handle to the core namespace unless redefined, and local and verbatim tags stay as written; a named handle that was not declared is an error. All tag directives of a document are in force together, a handle or version declared twice is an error, and nothing else changes the declared handles.",
  ["inputs", "histories"], "every input, every sequence of directives, with tags kept or not",
  "Directive sets and document sequences are unbounded; the tests declare one or two handles.",
  [PA], [("directives", PA + " parser_process_directives"), ("resolution", PA + " resolve_tag"), ("document end", PA + " document_end")],
  {"technique": "abstract interpretation of MIR with a symbolic finite-map domain: resolution by handle class, directive processing on symbolic directive sequences, frame over all parser steps",
   "note": "Directive sequences up to three handles with a version at any place, symbolic handles and prefixes; the frame condition covers all states and token classes."}),
P("C22", "Results depend only on the input bytes",
  "Parsing, loading, serialising and deserialising are functions of their arguments: the same input gives the same events, nodes or output however often and in whatever order the library was used before. No global mutable state, ambient environment, clock, randomness or memory address influences a result.",
  ["inputs", "histories"], "every input and every history of earlier calls in the process",
  "A test process observes one history; hidden state shows only across particular sequences of calls.",
  ["yam-core/src/lib.rs", "yam-serde/src/lib.rs", PA, SC],
  [("all parser state owned by the parser value", PA), ("ordered maps only", PA + " tags/anchors")],
  {"technique": "effect analysis over all resolved call sites, types and statics (MIR)",
   "note": "Every function of both library crates is inspected for statics with mutable/interior-mutable state, ambient-input calls and address observation."}),
P("C26", "Events render the token stream exactly",
  "The events are the image of the scanned tokens under YAML's structure: no token is lost, repeated or attached to another node, so every scalar event has the text and style of its own token, every node has exactly the anchor and tag written on it, omitted nodes are empty plain scalars without properties, and every event's position is that of the token it stems from. A well-formed token sequence is accepted and any other is rejected.",
  ["inputs"], "every token sequence and every nesting depth",
  "Lost or misattached tokens show only for particular combinations of properties, empty nodes and context.",
  [PA, TA], [("productions", PA + " parse_node, *_key, *_value, *_entry"), ("look-ahead", PA + " peek_token/fetch_token/skip")],
  {"technique": "abstract interpretation of MIR; synchronous product of the extracted transition relation with a reference token-grammar transducer",
   "note": "Oracle: libyaml-style token grammar (vsa/refparser.py). Tag resolution and directives are decided by C15; the scanner's tokens are the input."}),
P("C27", "All reading interfaces deliver the same events",
  "Peeking, pulling, iterating, and pushing events into a receiver all deliver the same event sequence: peeking never consumes or changes what comes next, each event is delivered exactly once, in order and with its own position, whichever mixture of interfaces is used between events and documents. After the stream end or an error has been pulled the pull interface yields nothing more, and the high-level event iterator translates every event other than comments to its counterpart with the same content and stops early only with the error recorded.",
  ["inputs", "histories"], "every input and every interleaving of peek, next and load calls",
  "Interleavings of the interfaces are unbounded; tests use one interface at a time.",
  [PA, "yam-core/src/parsing/parser_iter.rs"], [("peek/next_event", PA), ("push loaders", PA + " load*"), ("event iterator", "yam-core/src/parsing/parser_iter.rs")],
  {"technique": "typestate by abstract interpretation of the delivery functions' MIR (pending-event obligation)",
   "note": "Every pull wrapper, every function taking an event receiver, and the event iterator are interpreted with the producer replaced by a symbolic event; receivers are assumed not to panic."}),
P("C08", "Loading passes on every event once and reports every error",
  "Loading hands every event of a document to the receiver exactly once, in order and with its position, before the next is read. Any error met while loading is returned unchanged, never swallowed or replaced, and nothing is delivered after it. Loading everything succeeds only when the end of the stream was reached; loading one document never begins a second, and the documents returned are those that were collected.",
  ["inputs"], "every document, nesting and error position",
  "An error can occur at any event of any nesting; tests load a handful of invalid texts and look at whole results.",
  [PA, LO, "yam-core/src/node/yaml.rs"], [("event forwarding", PA + " load/load_document/load_node/load_sequence/load_mapping"), ("loading functions", LO + " load_from/load_single/load_*_from_parser/load_single_source")],
  {"technique": "typestate by abstract interpretation of MIR (event in flight, error in flight), per function with contracts for its callees",
   "note": "The contracts make the argument inductive over nesting. Receivers are symbolic; which events come is C01's matter."}),
P("C16", "Loading builds exactly the tree the events describe",
  "For every sequence of events, the loaded documents are exactly the trees described: every node is an element of the sequence, or a key or value of the mapping, it occurs in, in order, or the root of its document, with keys and values never confused or dropped whatever they are. Collections and scalars carry their own tag unless it is a core schema tag; a scalar's value is made from its own text, style and tag. An alias stands for the complete node of its anchor, tag included.",
  ["inputs", "histories"], "every event sequence; up to three open collections, any number of elements and documents",
  "Pending keys, tags and anchors interact across nesting; the defect repaired here needed a tagged or unresolvable key, which no test has.",
  [LO, "yam-core/src/node/yaml_data.rs"], [("tree builder", LO + " on_event/insert_new_node"), ("scalar values", "yam-core/src/node/yaml_data.rs value_from_cow_and_metadata")],
  {"technique": "abstract interpretation of MIR: synchronous product of the loader with a reference tree builder over all reachable loader states",
   "note": "Tags and anchors are symbolic and decided only where the code asks. Node types enter through their operations, which C17 decides. How a plain text resolves to a number is not covered (C13)."}),
P("C17", "Typed access to a node answers exactly for the type it has",
  "For every node of every kind, each typed accessor or conversion yields the node's own contents if the node has that type and nothing otherwise, and the type tests agree with each other. Clones are equal, equality is of kind, tag and contents, and conversions into nodes keep the value. Indexing yields the element at that position or the value of the entry with that key.",
  ["inputs"], "every kind of node and any contents",
  "Thirty-odd accessors times ten kinds of node times two node types; the tests take the kind each accessor is meant for.",
  ["yam-core/src/node/yaml.rs", "yam-core/src/node/spanned_yaml.rs", "yam-core/src/node/yaml_data.rs", "yam-core/src/prelude/mod.rs"], [("accessors", "yam-core/src/node/yaml.rs, spanned_yaml.rs"), ("kind tests", "yam-core/src/prelude/mod.rs YamlDocAccess"), ("indexing", "yam-core/src/node/yaml.rs Index/IndexMut")],
  {"technique": "abstract interpretation of MIR per method and node kind with symbolic contents, against a complete outcome table",
   "note": "About a thousand method and kind combinations. Owned/borrowed/mutable forms of a payload count as the payload."}),
P("C03", "Accepted texts are exactly those of the YAML grammar",
  "A text is accepted without an error exactly if it is a YAML 1.2 stream, and the events are those the specification assigns to it.",
  ["inputs"], "every text", "The language is infinite; the test suite samples a few hundred texts.",
  [SC, PA], [("scanner", SC), ("parser", PA)],
  na="block structure in YAML is indentation sensitive: acceptance depends on unbounded column counters compared across lines, so equivalence with the grammar needs relational reasoning over runtime quantities no static analysis here can bound; the token-level half is decided (C01, C02), flow scalar text is (C11)"),
P("C12", "Block scalars carry the text under their header's rules",
  "The value of a literal or folded block scalar is its lines without their indentation, with the folding and trailing line breaks its header asks for.",
  ["inputs"], "every block scalar", "Indentation, chomping and folding combine without bound.",
  [SC], [("block scalars", SC + " scan_block_scalar")],
  na="which blanks are content depends on an indentation detected at run time from the first non-empty line and compared with unbounded column counters; the buffer domain used for C11 cannot relate run lengths of blanks to such counters without losing the contents"),
P("C13", "Plain scalars resolve to the type of the core schema",
  "A plain scalar without a tag is null, boolean, integer or floating point exactly if the core schema says so, with that value, and text otherwise.",
  ["inputs"], "every plain text", "The number grammars have infinitely many members and near misses.",
  ["yam-core/src/node/scalar.rs"], [("resolution", "yam-core/src/node/scalar.rs parse_from_cow")],
  na="the decision and the value are those of the standard library's number parsing at run time; its accepted language and rounding are outside the source that is analysed"),
P("C18", "Loading what was emitted gives back the same document",
  "Emitting any document and loading the result yields an equal document.",
  ["inputs"], "every document", "Documents nest and combine contents without bound.",
  ["yam-core/src/treat", SC, LO], [("emitter", "yam-core"), ("loader", LO)],
  na="relates the output of one program to the behaviour of another on unbounded run-time strings; there is no syntactic or dataflow obligation that implies it short of C03 and C12"),
P("C19", "Reading takes time linear in the input",
  "The work done for an input grows linearly with its length.",
  ["inputs"], "every input", "Cost is a property of growth, not of any one input.",
  [SC, PA], [("scanner", SC), ("parser", PA)],
  na="needs amortised bounds on run-time quantities (queue lengths, pending keys, indentation levels per byte); C04 decides that every loop makes progress, which is the part a static argument reaches"),
P("C20", "Serialising a value and reading it back yields the value",
  "For every serialisable value, deserialising its serialised form as the same type yields an equal value.",
  ["inputs"], "every value of every supported type", "Types and contents are unbounded.",
  ["yam-serde"], [("serde adaptors", "yam-serde")],
  na="quantifies over user types' own generated code and run-time contents; the adaptors in the tree are incomplete (string escapes, trailing content), so there is no exact static contract to hold them to"),
]
