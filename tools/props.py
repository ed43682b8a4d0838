"""What each check runs: Verus templates (deciding), replay harness crate, level and note."""
COMMON = " Trusted: Verus and Z3, the extraction (attributes, comments and visibility dropped; each rewrite listed in the evidence), the assumed contracts of std functions listed there. If a change puts a function outside the verifier's reach the check says so and only the bounded replay decides that run."
PROPS = {
    "P01": dict(verus=["P01"], harness="core", level="proof", note="For all texts and chunk tables: every read of every source representation equals the flat text (Verus contracts on the extracted functions). Bounded only: snapshot isolation (replay)." + COMMON),
    "P02": dict(verus=["P02"], harness="core", level="proof", note="For all texts and all admissible batches: contiguous text and rope buffer end up with exactly the edited text and the exact affected range (Verus contracts on apply_edits_range and everything it calls). std's stable sort, String::replace_range, Vec::drain and splice have assumed contracts." + COMMON),
    "P03": dict(verus=["P03"], harness="core", level="proof", note="For all byte strings: every scanner returns the scalar answer (Verus contracts, loop invariants, model of core::simd lane operations)." + COMMON),
    "P04": dict(verus=["P04"], harness="core", level="proof", note="For every text, every chunking and every admissible position: all 25 cursor functions and the two searching methods of Source answer as the flat text does (Verus contracts; chunk_at used by its contract, discharged by the P01 check). The searched-for text is arbitrary. Unchecked get_unchecked slices are checked for bounds and boundaries. std's str::find, starts_with and char_indices have assumed contracts." + COMMON),
    "P05": dict(verus=["P05"], harness="kit", level="proof", note="For every text (up to 2^31 bytes), every chunking and every boundary: the line table, both conversions, their round trip and their order (Verus contracts and lemmas; Source methods used by their contracts, discharged by the P01 check). Assumed: encode_utf16, binary_search, char_indices." + COMMON),
    "P06": dict(verus=["P06", "P07"], harness="core", level="proof", note="Proved for all texts: every LexerState function leaves tokens tiling [0, position), add_eof and finish_with_cache close the tiling and hand the cache exactly the tokens of the run, new_with_cache keeps only tokens that a run from scratch produces first, for any lexer whose tokens depend on text up to one token ahead (abstract step function). Bounded only: that a lexer built from the helpers has this form, whole relexing sessions (replay)." + COMMON),
    "P07": dict(verus=["P07"], harness="core", level="proof", note="For every text, configuration and start: every scanning helper produces exactly the described token or leaves the state untouched, terminates and stays inside its region (Verus contracts on lexer state, scanning configs and helpers; cursor functions used by their contracts, discharged by the P04 check)." + COMMON),
    "P08": dict(verus=["P08"], harness="core", level="proof", note="For every sequence of allocations and drops: contracts on all functions of SyntaxArena and ChunkPool over an explicit heap (blocks in use, contents of memory), and a driver over arbitrary histories of any number of arenas whose invariant is disjointness, unchanged contents and exact ownership of every chunk. Rewritten for the verifier: UnsafeCell and NonNull to plain addresses, &self to &mut self, the thread-local pool to a parameter; writes through pointers to calls that demand ownership, alignment and, for slices, initialised elements. Assumed: the global allocator hands out disjoint blocks below 2^48, layout rules of Rust types. Not covered: use of one arena from several threads at once, iterators that make or drop other arenas, returned references outliving their arena (rustc)." + COMMON),
    "P09": dict(verus=["P09"], harness="core", level="proof", note="For every tree that fits in u32 lengths: contracts on all functions of green trees, red trees and the cursor, with lemmas that the leaves tile the span (contracts assume the address of a node fits in usize). Assumed: the text a source gives for a span (P01)." + COMMON),
    "P10": dict(verus=["P10"], harness="core", level="proof", note="For every token sequence (u32 lengths) and every grammar: contracts on all functions of ParserState, TokenSource and TreeSink; attempts take any grammar that leaves the trees in front of it alone (trait contract standing for the closure, checkpoints well nested). Assumed: the arena keeps what it is given (P08). Error constructors by their contracts, discharged by the P19 check. Bounded only: arbitrary programs end to end (replay)." + COMMON),
    "P11": dict(verus=["P11"], harness="core", level="proof", note="For every operator table (a trait of uninterpreted functions), every notion of operand and every token sequence: contracts on parse, parse_expr, the default prefix, binary, unary, postfix and OperatorInfo against a grouping predicate on the real trees, with lemmas on neighbouring operators and a verified table-driven grammar composed from them. The closures given to the helpers are a trait contract (partial correctness of the recursion). Assumed: node identity is modelled by value in checkpoint_before." + COMMON),
    "P12": dict(verus=["P12"], harness="core", level="proof", note="For every old tree, token sequence and chain of edits whose texts fit in u32 lengths: contracts on all functions of IncrementalContext and on try_reuse, incremental_node, incremental_opt, leaf_behind, promote and the copying and comparing helpers; lemma that untouched text is the same at the mapped place. That equal reuse conditions give the tree of a fresh parse is a property of the grammar, checked by bounded replay only, with the session layer. Assumed: the language's tables, the stable sort of the edits, the arena (P08), END_OF_STREAM is not trivia." + COMMON),
    "P13": dict(verus=["P13"], harness="core", level="proof", note="For every history: contracts on all functions of ParseSession and on parse_with_lexer against a trait contract for caches; dereferencing a root pointer requires that the arena it was made in is still owned. Cells are verified as plain fields (commit_generation as if it took &mut self). Assumed: committed roots lie in the arena of the current generation (callers of commit_generation), arenas keep their nodes until dropped (P08), the parser state by its contracts (P10, P12). The forwarding implementations for &mut caches are under the same contracts; the replay runs with recycled memory overwritten." + COMMON),
    "P14": dict(verus=["P14"], harness="kit", level="proof", note="For every history of one thread: contracts on all operations of MemoryVfs over a map model of its locked tables (HashMap, RwLock, AtomicU32 assumed; fewer than 2^32 creations). The listing names every document once, and line maps are made from the latest text. Bounded only: clones share their documents (replay)." + COMMON),
    "P15": dict(verus=["P15"], harness="kit", level="proof", note="For every history of updates by one thread: the definitions filed per name and file are exactly those of the file's latest version (invariant over update_file_symbols), lookup, query_file and query follow (DashMap, Vec::retain and str::contains assumed; the iterator chain of query becomes a verified filter loop)." + COMMON),
    "P16": dict(verus=["P16"], harness="kit", level="proof", note="For every document and configuration whose columns fit in usize: the printer writes exactly the layout the rules ask for (contracts on all Printer functions against a recursive layout function), and lemmas that fitting groups are written flat and texts are kept in order; contracts on Document::{render, text, concat, group, indent, join, from}, AsDocument for text, options, lists and documents, FormatConfig::{default, new, with_*}. Extraction: join takes its documents as a vector, iterated by removal. Assumed: String, trim_end_matches, str::repeat, the derived Clone of Document." + COMMON),
    "P17": dict(verus=["P17"], harness="kit", level="proof", note="For every tree, text and theme: contracts on the theme lookup, the scope list, both visitor functions, highlight and highlight_with_language, with the theorem that the segments tile and spell the text (red and green trees by their contracts, discharged by the P09 check; parsers by a trait contract: trees as long as the text, leaves on characters). Assumed: HashMap, rfind, split, derived Clone, fewer than 2^31 dots in a name. The language constants become calls, trait impls inherent functions." + COMMON),
    "P18": dict(verus=["P18"], harness="kit", level="proof", note="For every list of segments: contracts on all exporters, on highlighting and exporting in one step, and on both escaping functions against exact outputs, with theorems that a reader of the HTML, of the JSON strings and of the terminal output gets the text back (format! is replaced by a builder, piece by piece). That the JSON as a whole is valid is checked by the bounded replay; the exact output of the HTML diagnostics emitter is proved by the P19 check." + COMMON),
    "P19": dict(verus=["P19", "P19h", "P19l"], harness="kit", level="proof", note="For every source, diagnostic, localizer and URI: contracts on every function of the four emitters against their exact output, on source_lines, and on to_diagnostic and the Diagnostic builders, with theorems that the carets stand under the characters of the span (line map and sources by their contracts, discharged by the P05 and P02 checks; HTML escaping by the P18 check). format! and serde_json::json! are replaced by builders, piece by piece; str::lines, chars, HashMap and serde_json's writing of a value by assumed contracts. Precondition: spans on character boundaries, text below 2 GiB." + COMMON),
    "P20": dict(verus=["P20"], harness="kit", level="proof", note="For every set of folders and every URI (Url, Path and DashMap by assumed contracts: paths are component sequences)." + COMMON),
    "P21": dict(verus=["P21"], harness="core", level="proof", note="For every sequence of pieces: contracts on all SourceBuffer functions and a lemma that the pieces appear once, in order, with the required spacing. Assumed: char::is_alphanumeric (uninterpreted), String, Default." + COMMON),
    "P22": dict(verus=["P22"], harness="kit", level="proof", note="For every tree and text: contracts on Visitor::walk_node (for any visitor, and as the reference finder runs it), PreOrder::new and next with a full walk on top, SimpleReferenceFinder, UniversalSymbolProvider, TokenType/ElementType::is_universal; theorem that the leaves met are the leaves of the tree (red and green trees by their contracts, discharged by the P09 check; Source::get_text_in by its contract, P01). Preconditions: well-formed trees inside the address space, name leaves on characters of the text. Assumed: Arc<str>, String, derived Clone and Debug." + COMMON),
    "P23": dict(verus=["P23"], harness="kit", level="proof", note="For every sequence of terminal events and every handler (completeness, indentation, exit and outcome may depend on everything handled before): contracts on LineBuffer::new, insert, backspace, cursor_offset, full_text, clear, is_empty, OakRepl::new and OakRepl::run (loop invariant: buffer and handled texts are what the events read so far come to); theorem that characters typed in a row are the text. Termination is not claimed (the terminal decides). Extraction: `run` gets the terminal as a parameter, the output macros become calls that may fail and change the line shown (`ensures` on what the line and the cursor are whenever an event is waited for; columns up to 65535), other output is dropped. Assumed: String::insert/remove/push_str/char_indices/chars().count()/join, no text longer than isize::MAX, KeyModifiers::contains." + COMMON),
    "P24": dict(verus=["P24"], harness="kit", level="proof", note="For every tree, text, rule set and configuration: contracts on RuleSet::{new, default, add_rule, add_rules, applicable_rules_for_node, applicable_rules_for_token, apply_node_rules, apply_token_rules}, FormatContext::{new, enter, is_inside, parent_kind}, Formatter::{new, add_rule, format, format_node, format_token}, FormatOutput::new, Document::{render, text, concat, group, indent} and the three built-in rules (their bodies, by mechanical expansion of the `define_rules!` text); theorems: with rules that write what is there the output is the code but for blanks and line ends, and the built-in rules are such. Assumed: a rule is a function of what it is handed and calls the children formatter only for its own node (trait objects), that the list `define_rules!` builds holds those three rules, sort_by is a stable sort, filter, Arc<str>, derived clones and equality; columns stay below usize::MAX." + COMMON),
    "P25": dict(verus=["P25"], harness="kit", level="proof", note="For every stream of lines, language service and searcher: contracts on JsonRpcRequest::from_json, JsonRpcNotification::from_json, JsonRpcResponse::to_json, McpServer::{new, with_search, handle_tool_call, handle_notification, handle_request, run} (loop invariant: what has been written is the answers to the lines read, all flushed whenever a line is awaited). Termination is not claimed (the client decides). Extraction: async and await are dropped (one task), the two streams are traits the loop is handed, json! is expanded to value constructors and matches on string literals to comparisons. Assumed: serde_json reads and writes messages as functions of their text (derived impls), tokio's read_line, write_all and flush, trim, that tools.json is JSON (the harness reads the list and calls every tool in it), that the language service and the searcher answer as functions." + COMMON),
    "P27": dict(verus=["P27"], harness="kit", level="proof", note="For every comment and every list of comments: contracts on Comment's constructors, builders and formatted_text, on all of CommentCollector (but comments_mut) and on CommentProcessor's constructor, builders, process_comments, insert_comments_at_position and insert_trailing_comment, against exact outputs, with a theorem that apart from white space a comment is printed as its marks around all of its content (a block of several lines with a star before each). Extraction: format! is replaced by a builder piece by piece, filter/collect and sort_by by functions with their assumed meaning, map/collect and the loops over vectors by index loops over the same bodies. Assumed: str::trim and str::lines drop white space only, sort_by is stable." + COMMON),
    "P26": dict(verus=["P26"], harness="kit", level="proof", note="For every file system that is a tree, tree, symbol index and resolver: contracts on LanguageService::{get_source, with_root, with_roots, document_symbols, workspace_symbols, list_all_files, definition} and on the From conversions of roles and symbols to what clients are told; list_all_files also terminates on a tree. Extraction: async and await are dropped (with_roots makes its futures in order and awaits them together), iterator chains name their assumed meaning, the shared closure is called directly. Assumed: the file system, the symbol table and the resolver answer as functions (their own properties are P14, P15, P20), get_root gives the same well-formed tree each time, join_all answers in the order of the futures, into_iter/map/flatten/collect. child_at_offset and span by the contracts P09 proves." + COMMON),
}
NOT_APPLICABLE = {}
