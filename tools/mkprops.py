#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here; edit and rerun)."""
import json, os
C = "projects/oak-core/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("P01", "Every source representation shows the same flat text",
 "Whatever representation holds a document (a plain string, contiguous source text, a rope buffer or its snapshot, a streaming chunk buffer or its snapshot), its length, the chunk, character and text read at any character boundary, and the result of searching for a character or string from any offset agree with the same document kept as one flat string. A snapshot keeps showing the text it was taken from while its buffer is edited or appended to afterwards.",
 ["inputs", "histories"], "every valid UTF-8 text, every way of splitting it into chunks, every character-boundary offset or range, every pattern, every later edit",
 "Existing tests read a handful of short single-chunk ASCII texts; chunk seams, multi-byte characters next to seams and texts longer than one 4096-byte chunk need a quantifier over all texts and splits.",
 [C+"source/mod.rs", C+"source/text.rs", C+"source/rope.rs", C+"source/streaming.rs"],
 [("chunk table: starts[i] is the sum of the lengths of the chunks before i", "source/rope.rs rebuild_starts, source/streaming.rs push_str"), ("assembling a range from several chunks", "text_in_chunks"), ("locating the chunk of an offset by binary search", "chunk_at / chunk_index")],
 ["Source::length, chunk_at, get_text_in, get_char_at, get_text_from, find_char_from, find_str_from", "RopeBuffer::snapshot, ChunkedBuffer::snapshot"],
 [("chunks/starts/len", "chunk table of rope and streaming sources", "source/rope.rs, source/streaming.rs")])
prop("P02", "Applying text edits gives exactly the edited text",
 "Applying a batch of non-overlapping edits, given in any order and all expressed in coordinates of the text before the batch, leaves exactly the text obtained by replacing each edited span by its new text, in contiguous source text and in rope buffers alike, however often batches follow each other. The affected range that is returned starts at the first edited offset and covers every replaced text in the new document, so everything before it is unchanged.",
 ["inputs", "histories"], "every text, every batch of non-overlapping edits in every order, every sequence of batches",
 "Unit tests apply one or two edits to one short text; chunk splits, several edits with accumulated offset shifts, edits at chunk seams and repeated batches are never combined.",
 [C+"source/text.rs", C+"source/rope.rs"],
 [("edits applied from the last to the first so earlier offsets stay valid", "apply_edits_range"), ("splitting chunks at span ends and replacing whole chunks", "RopeBuffer::split_at, boundary_index, replace_range")],
 ["SourceText::apply_edits, apply_edits_range", "RopeBuffer::apply_edits, apply_edits_range"])
prop("P03", "Vectorised byte scanners agree with byte-by-byte scanning",
 "Each accelerated scanner (skipping blanks, identifier characters or digits, and finding the first of one to four given bytes) returns, for every byte string and every combination of searched bytes, exactly the position a byte-by-byte scan would give, and reads nothing outside the given bytes.",
 ["inputs"], "every byte string of every length and every searched byte, including bytes above 0x7f, matches in every lane and in the unaligned tail",
 "Tests cover a few ASCII strings; errors show only for particular byte values (signed comparison), lanes, or lengths around the 16/32-byte block size.",
 [C+"source/simd.rs"], [("block compare, movemask, trailing/leading zero count, scalar tail", "source/simd.rs")], ["SimdScanner::*"])
prop("P04", "Cursor navigation and search do not see chunk seams",
 "Moving a source cursor forward (peeking, advancing, skipping, taking while a condition holds), testing whether the rest starts with a pattern, and searching for a character or string give, over any chunked source and from any character boundary, exactly what they give over the same text in one piece; the cursor position is always a character boundary of the text and never passes its end.",
 ["inputs", "histories"], "every text, every split into chunks, every start offset, every sequence of cursor operations and every pattern",
 "Cursor tests use one chunk; a pattern or run of characters that straddles one or several seams, possibly with multi-byte characters, is not exercised.",
 [C+"source/cursor.rs", C+"source/mod.rs"], [("refreshing the cached chunk when the position leaves it", "SourceCursor::ensure_chunk"), ("matching across chunk ends", "SourceCursor::starts_with, find_str, find_char, take_while")],
 ["SourceCursor::*", "Source::find_char_from, find_str_from"], [("chunk/offset", "cached chunk and absolute position", "source/cursor.rs")])
prop("P05", "Line maps convert between offsets and positions consistently",
 "For every document, the line and UTF-16 column reported for an offset at a character boundary are the number of line feeds before it and the number of UTF-16 units between the last line feed and it; converting that position back gives the same offset, and positions follow the order of offsets. A column that no character of a line has leads to the next character of that line or, past the last one, to the end of that line including its line feed, never outside the document (documents of at most 2^31 bytes).",
 ["inputs"], "every text (any mix of ASCII, multi-byte and astral characters, LF and CRLF) and every offset or position",
 "Tests convert a few positions in one short ASCII text; surrogate pairs, final line without newline and offsets on line starts need all inputs.",
 ["projects/oak-vfs/src/line_map.rs"], [("sorted line start table and binary search", "LineMap::from_source, offset_to_line_col_utf16, line_col_utf16_to_offset")], ["LineMap::*"])
prop("P06", "Incremental re-lexing equals lexing from scratch",
 "Lexing an edited document with the tokens cached for the old document gives the same tokens as lexing the new document from scratch, provided the reported edit offset is not after the first difference and no token of the lexer depends on more than the text before it, itself and the token after it; the tokens, including the final end-of-stream token, tile the document without gaps or overlaps, and each token covers at least one byte except the last.",
 ["inputs", "histories"], "every pair of old and new text with every admissible edit offset, every lexer built from the shared helpers that looks at most one token ahead, every chain of edits",
 "Tests lex fixed files from scratch; reuse of cached tokens after insertions, deletions and edits at the very end is only visible for particular edit positions.",
 [C+"lexer/mod.rs"], [("prefix of cached tokens reused up to the re-lex point minus a backtrack margin", "LexerState::new_with_cache")], ["LexerState::new_with_cache, add_token, advance_until, finish_with_cache", "Lexer::lex"], [("tokens/token_start/cursor", "tokens so far tile [0, token_start)", "lexer/mod.rs LexerState")])
prop("P07", "Lexical scanning steps consume exactly what they describe",
 "The shared scanning helpers (whitespace and newline, line and block comments with and without nesting, quoted strings with escapes, identifiers, numbers, fixed keywords) either match and produce one token from the old position to the end of the longest text their description allows, or fail and leave position and tokens untouched. An unterminated comment or string consumes up to the end of its region and never loops or passes the end of input.",
 ["inputs"], "every input text, every configuration of delimiters, and every start position",
 "Language tests hit a few well-formed literals per language; nested or unterminated constructs, escapes right before the end and delimiters split by seams are not sampled.",
 [C+"lexer/mod.rs", C+"lexer/scan_string.rs", C+"lexer/scan_comment.rs", C+"lexer/scan_white_space.rs", C+"lexer/scan_identifier.rs", C+"lexer/scan_number.rs"],
 [("cursor moved only after a successful match", "scan functions"), ("nesting depth counter", "scan_comment.rs")], ["WhitespaceConfig::scan, CommentConfig::scan, StringConfig::scan, LexerState::scan_*"])
prop("P08", "The syntax arena hands out disjoint, aligned, stable memory",
 "Every allocation from the syntax arena (of values aligned to at most 8 bytes; iterators that yield as many items as announced) is aligned for its type, lies inside one chunk the arena owns and no other arena or pool holds, overlaps nothing the arena handed out before, holds the values it was given and keeps them until the arena is dropped, also when filling a slice allocates from the same arena. Provenance entries are found under their number and stay in place as more are added. Dropping an arena gives every one of its chunks back exactly once, to the pool of the thread (at most 64 of the standard size) or to the allocator with the size it was allocated with; when the arenas are dropped and the thread has ended no memory is left.",
 ["inputs", "histories"], "every sequence of allocations of every size and alignment, and every order of arena creation and drop",
 "Tests allocate a few small values; alignment padding at chunk ends, oversize allocations and pool reuse after several drops need all sequences.",
 [C+"memory/arena.rs"], [("bump pointer with alignment rounding, fresh chunk when it does not fit", "SyntaxArena::alloc*"), ("thread-local chunk pool", "recycle_chunk")], ["SyntaxArena::alloc, alloc_slice_copy, alloc_slice_fill_iter"], [("ptr/end", "bump window of the current chunk", "memory/arena.rs")])
prop("P09", "Tree spans tile the text and navigation is consistent",
 "In every syntax tree the length of a node is the sum of the lengths of its children, the absolute spans of siblings are adjacent and stay inside their parent, so the leaves of a tree tile its span without gap or overlap. Iterating children and asking for a child by index give the same element at the same span; the child and the leaf reported for an offset are the ones whose span contains it, and there is one exactly for offsets inside the node. A cursor shows the element at its path with that element's true offset, whatever moves led there: into the first child, over to the next sibling, out to the parent, on to the next element in reading order with or without the children; a move that is impossible answers false and, for the single moves, changes nothing.",
 ["inputs", "histories"], "every tree shape, every node and every offset, every sequence of cursor moves",
 "Tests look at a few fixed trees; empty nodes, zero-width tokens and offsets on boundaries are not sampled.",
 [C+"tree/green_tree.rs", C+"tree/red_tree.rs", C+"tree/cursor.rs"], [("text_len summed at construction", "GreenNode::new"), ("absolute offset carried by red nodes", "RedNode::children, leaf_at_offset, child_index_at_offset")], ["GreenNode, RedNode, RedLeaf, Cursor"])
prop("P10", "Parsing loses no text and backtracking leaves no trace",
 "Building a tree through the parser state loses no text: every operation except the explicitly skipping ones (advance, advance_until, advance_until_any) puts each token it passes into the tree, once and in order, so a parse that only uses them spells its whole input and its root is as long as the input, whatever interleaving of bumping, expecting, wrapping (checkpoint, checkpoint_before and finish_at), recording errors and recovering the grammar performs. The skipping operations still keep every token the grammar never sees, and stop exactly where they were sent. A failed speculative attempt (try_parse) restores the position and the tree under construction to what they were before it. Errors are recorded at the start of the current token, or at the end of the text, and name the source being parsed.",
 ["inputs", "programs"], "every token sequence and every well-nested sequence of parser operations",
 "Existing parser tests compare snapshots of a few source files; arbitrary interleavings of checkpoints, restores, error recovery and missing tokens are not explored.",
 [C+"parser/state.rs", C+"parser/mod.rs"], [("sink of children truncated or wrapped at checkpoints", "ParserState::checkpoint, restore, finish_at, bump, try_parse"), ("trivia pushed before it is skipped", "skip_trivia")], ["ParserState::*", "parse"], [("sink/tokens position", "children so far spell the consumed input", "parser/state.rs")])
prop("P11", "Operator parsing respects precedence and associativity",
 "The operator-precedence parser (PrattParser with the helpers binary, unary and postfix, precedences below 255) groups every expression by the precedences and associativities the grammar's tables give. In a left operand every operator that could have taken the next one binds tighter, or equally tight if it is not right-associative; in a right operand every operator on its left edge binds tighter than the operator in front, or equally tight if that one is right-associative (non-associative operators group like left-associative ones); the operand of a prefix operator takes exactly the operators at least as tight as the prefix operator; a postfix operator applies to the whole expression in front that no operator in it keeps back. An expression parsed with a minimum precedence holds no operator on its left edge looser than the minimum, and parsing stops at the first token that is no infix or postfix operator of at least the minimum. Each node holds its operands and its operator, with the trivia behind it, in order and nothing else, and the expression is one tree on the stack.",
 ["inputs", "programs"], "every operator table and every expression of every length and nesting",
 "Language tests contain a few expressions each; mixes of prefix, infix and postfix operators at equal precedence with different associativity are hardly present.",
 [C+"parser/pratt.rs", C+"parser/state.rs"], [("precedence climbing with minimum precedence; nodes wrapped around the left operand found on the stack", "PrattParser::parse, binary, unary, postfix; ParserState::checkpoint_before, finish_at")], ["PrattParser::parse, parse_expr; binary, unary, postfix"])
prop("P12", "Incremental parsing gives the tree of a parse from scratch",
 "Reparsing an edited document with the previous tree (a lossless tree of the old text) and the edits at hand gives a tree with the same kinds, structure, lengths and text as parsing the new document from scratch, for every batch of non-overlapping edits and along whole editing sessions, for grammars that decide the extent of each reusable node from its own tokens and the kind of the token behind it. A subtree is reused only if it has the requested kind, it stood at the place that corresponds to the current position, no edit touches its old text, its leaves equal in kind and length the tokens it stands for, and the token behind these is of the same kind and length as the leaf that was behind it; the reused copy is equal to the original and afterwards the parser stands behind exactly those tokens. Without such a subtree nothing is consumed and the rule is parsed as usual.",
 ["inputs", "histories"], "every document, every batch of edits, every sequence of edits",
 "Only a few incremental tests exist, with one edit each; whether a reused subtree is really clean depends on the offset arithmetic of several edits and on what was behind it.",
 [C+"parser/state.rs", C+"parser/session.rs", C+"parser/mod.rs", C+"tree/cursor.rs"], [("mapping new offsets to old ones and testing for dirty ranges; comparing the subtree with the tokens and the token behind it", "IncrementalContext::new, map_new_to_old, is_dirty; ParserState::try_reuse, incremental_node, incremental_opt")], ["ParserState::incremental_node", "parse_with_lexer with a cache and edits"])
prop("P13", "Parse sessions never expose freed or stale trees",
 "Whatever mix of successful parses, abandoned parses, prepared generations, hand-made commits and repeated lexing happens, the last root a parse session hands out is the root of the last commit, unchanged and in memory that has not been released, until a newer one is committed; the tree handed out for reuse is that same tree as soon as a generation has been prepared. A parse with a lexer commits its tree exactly if it succeeds, and gives the grammar the tokens of the new text and the last committed tree. The tokens a session answers with (all of them, their number, single ones) are those of the last lexer output since the generation was prepared, and there are none if there was no such output or it failed.",
 ["histories"], "every sequence of prepare, lex, parse, commit and abandon steps",
 "Tests run one or two successful parses in a row; an abandoned parse between two others is never tried.",
 [C+"parser/session.rs", C+"parser/mod.rs"], [("two arena generations; the older one is dropped at prepare unless the last commit lies in it", "ParseSession::prepare_generation, commit_generation, parse_with_lexer")], ["ParseSession as ParseCache and LexerCache; parse_with_lexer"], [("arena_active, arena_old, last_root, committed", "owner of the last committed tree", "parser/session.rs")])
prop("P14", "The in-memory file system is a map from paths to documents",
 "For every history of writes and removals through any clone of the in-memory file system, reading, existence and metadata queries and the listing answer exactly what a map from path to latest content answers. A document has an identifier that stays the same while it exists, differs from the identifier of every other document, is never handed out again, and converts back to its path. Text read earlier does not change afterwards, and the line map of a document describes its current text. (Fewer than 2^32 creations.)",
 ["histories", "inputs"], "every sequence of writes and removals over every set of paths, through every clone",
 "Unit tests write and read one or two files; overwriting, removing and recreating paths and comparing identifiers across such histories is not covered.",
 ["projects/oak-vfs/src/vfs/memory.rs", "projects/oak-vfs/src/lib.rs"], [("three maps kept in step: contents, path to identifier, identifier to path", "MemoryVfs::write_file, remove_file")], ["MemoryVfs as Vfs / WritableVfs"], [("files, ids, uri_to_id, next_id", "documents and their identifiers", "vfs/memory.rs")])
prop("P15", "The symbol index reflects the latest version of every file",
 "After any history of file updates, looking up a qualified name in the symbol index finds a definition exactly if the latest version of some file contains one, and gives the last one in the most recently updated of those files; nothing from an older version of a file remains and updating one file never hides what another defines. The symbols listed for a file are exactly those of its latest version, and a search lists one definition for every known name that matches.",
 ["histories"], "every sequence of updates over any number of files sharing names",
 "The index has no test that updates two files with common names or re-indexes a file.",
 ["projects/oak-resolver/src/lib.rs"], [("definitions filed per name with the file they come from; the old version of a file is retracted before the new one is filed", "GlobalSymbolTable::update_file_symbols")], ["GlobalSymbolTable::lookup, query_file, query"], [("file_symbols, qualified_symbols", "latest symbols per file and definitions per name", "oak-resolver/src/lib.rs")])
prop("P16", "Pretty printing preserves text and layout rules",
 "Printing a layout document writes every literal text once and in order (blanks at line ends are dropped when trimming is configured, and a final line ending is added when configured). A group is laid out flat exactly if it contains no hard break and its flat width, counted in bytes from the current column, does not pass the maximum width; otherwise the breaks directly inside it, not those of inner groups, become a line ending followed by one indentation text per enclosing indent. Hard breaks always break; what is outside every group is laid out flat. Joining documents puts the separator between each two of them; a text, an option or a list converts to its text, to nothing, or to its elements in order. A new configuration indents by four spaces up to 100 columns, and each setter changes what it names (the indentation text and its columns go with the style) and nothing else.",
 ["inputs"], "every document, every page width and indentation configuration",
 "Tests print a few small documents at one width; nested groups, exact-fit widths and multi-byte text need all documents.",
 ["projects/oak-pretty-print/src/document/mod.rs", "projects/oak-pretty-print/src/document/printer.rs", "projects/oak-pretty-print/src/config/mod.rs"], [("recursive rendering with the broken flag of the closest group, width test before each group", "Printer::render, newline, will_break, check_width, finalize"), ("the separator between each two", "Document::join")], ["Document::render, join", "AsDocument, ToDocument", "FormatConfig::with_*"])
prop("P17", "Highlight segments are the tokens in order, styled by the most specific scope",
 "Highlighting a parsed text gives one segment per leaf of the tree, in order, each with the leaf's byte range, the source text of that range and the style the theme has for the leaf; so for a tree that covers the text the segments lie next to each other and together spell the whole source. The style of a leaf is decided by its scopes (role name with language, role name, category with universal name, universal name, category with language): for each scope the longest part of it, cut at dots from the right, that the theme names; among these the one with the most segments, the first of them if several are equally specific; otherwise the theme's style called none, or the plain style.",
 ["inputs"], "every tree over every text and every theme, role name, language name and category",
 "Tests compare one or two small examples against built-in themes.",
 ["projects/oak-highlight/src/highlighter/mod.rs"], [("choosing the scope: longest named prefix, deepest of all scopes", "HighlightTheme::resolve_style, resolve_styles"), ("scopes of a role", "get_token_scopes"), ("walking the tree in order with absolute offsets", "HighlightVisitor, RedNode::children")], ["OakHighlighter::highlight_with_language, highlight", "HighlightVisitor::segments", "HighlightTheme::resolve_style, resolve_styles, get_token_style, get_element_style"])
prop("P18", "Exported markup contains the text exactly once, escaped",
 "Exporting highlighted source keeps the text of the segments: reading the HTML (dropping tags, resolving references) gives back the texts of all segments in order and nothing else, for themes whose colours contain no markup characters; the JSON is valid and reads back to exactly the given spans, styles, texts and source; on a terminal the text appears unchanged, with every style closed again. In the HTML form of a diagnostic, the code, message, location, quoted lines, label messages and help read back unchanged. No character of any of these texts is read as markup.",
 ["inputs"], "every text including markup characters, references, quotes, backslashes, control characters and text that looks like escaped text; every segmentation and style",
 "Tests export tame identifiers only.",
 ["projects/oak-highlight/src/exporters/mod.rs", "projects/oak-diagnostic/src/lib.rs"], [("escaping functions", "html_escape, json_escape"), ("writing tags and fields around escaped text", "HtmlExporter, JsonExporter, AnsiExporter, HtmlEmitter")], ["Exporter::export, OakHighlighter::highlight_format", "HtmlEmitter::render, render_localized"])
prop("P19", "Diagnostics point at the right place in the source",
 "For every label whose span lies on character boundaries (or beyond the end, which counts as the end): every text emitter (console, plain, HTML) shows the line and column of the span's start, both from one and counted in lines and characters, quotes each line from that of the start to that of the end with exactly that line's text (without its line end) and number, and draws carets exactly under the characters of the span if it lies on one line (one caret if it is empty), or one caret under the last character of the span on its last line if it covers several; the LSP emitter gives the zero-based lines and UTF-16 columns of both ends. The diagnostic made from an error with an offset has one label that covers exactly the character at that offset, or nothing at the end of the text. Moving an error into a source file reaches every kind of error that can name one and changes nothing else.",
 ["inputs"], "every source text and representation, every diagnostic with any labels, every error",
 "Tests render one diagnostic for ASCII text.",
 ["projects/oak-diagnostic/src/lib.rs", "projects/oak-vfs/src/line_map.rs", "projects/oak-core/src/errors/mod.rs"], [("offset to line and column, quoted lines, marker padding and length", "ConsoleEmitter, PlainTextEmitter, HtmlEmitter::render_snippet, source_lines"), ("UTF-16 ranges", "LspEmitter::render_localized"), ("label of an error", "OakError::to_diagnostic")], ["Emitter::render, render_localized", "DiagnosticProvider::to_diagnostic"])
prop("P20", "Workspace lookup finds the closest enclosing folder",
 "After any sequence of initialising, adding and removing workspace folders, the folder reported for a URI is one whose path encloses the URI's path, component by component, and no other workspace folder encloses it more deeply; nothing is reported exactly if no folder encloses it or the URI is no local path.",
 ["histories", "inputs"], "every sequence of folder changes and every URI",
 "Not tested.",
 ["projects/oak-lsp/src/workspace.rs"], [("longest enclosing folder over all folders", "WorkspaceManager::find_root")], ["WorkspaceManager::find_root, is_within_workspace, list_folders"])
prop("P21", "Emitted words never merge",
 "Text emitted through the source buffer consists of every pushed piece once and in order, with a single space between two consecutive non-empty pieces exactly if the first ends and the second begins with a word character, and nothing else, so two words pushed one after another never merge.",
 ["inputs", "histories"], "every sequence of pushed pieces",
 "Tests push two or three ASCII pieces; empty pieces between words and non-ASCII word characters are not sampled.",
 [C+"source/buffer.rs"], [("space decision from the last emitted character", "SourceBuffer::push")], ["SourceBuffer::push, finish; ToSource::to_source_string"], [("last_char", "last character emitted so far", "source/buffer.rs")])
prop("P22", "Tree walks meet every element once, in order; symbols and references follow",
 "Walking a syntax tree, by a visitor that walks the children of each node it is handed or by the pre-order iterator, meets every node and every leaf exactly once, in document order, a node before everything below it, each with the byte range it has in the text; the leaves met are the leaves of the tree. The symbols of a document are exactly the nodes with the definition role, in that order, each with the node's byte range, the given URI, the text of its first direct name leaf as name (<Kind> if there is none) and the name of the innermost definition around it as container. A reference search reports exactly the name leaves whose text is the given name, in order, at their byte ranges.",
 ["inputs"], "every tree (any depth, width, empty nodes and leaves), every text and representation, every searched name",
 "Tests walk hardly any tree, and no nested definitions.",
 [C+"visitor/mod.rs", "projects/oak-symbols/src/lib.rs", "projects/oak-navigation/src/lib.rs"], [("offsets of children while walking", "PreOrder::next, RedChildren::next"), ("container handed down", "UniversalSymbolProvider::collect_symbols"), ("comparing the text of a name leaf", "SimpleReferenceFinder::visit_token")], ["Visitor::walk_node, PreOrder", "UniversalSymbolProvider::document_symbols", "SimpleReferenceFinder::find"])
prop("P23", "REPL: the text typed is the text edited, and each complete text is handed over once",
 "In a REPL session the text being composed is always what the keys typed so far come to: a character goes in at the cursor, which counts characters; backspace takes out the character before it, and at the start of a line joins the line to the one before; left and right move the cursor by one character inside its line; Ctrl-C empties the text. Enter hands the whole text (its lines joined by line feeds) to the handler exactly when the handler calls it complete, once, and starts again with an empty text; otherwise it opens a new line indented by as many spaces as the handler asks for. The session ends when the handler says so, or on Ctrl-D with nothing typed. While a key is waited for, the terminal is raw and its line shows the prompt (the continuation prompt exactly if a line was opened since the text was begun), then the line of the cursor, marked as the handler says, with the cursor as many columns in as the prompt and the text before the cursor have characters; a text is handled, and the session left, with the terminal as it was. No sequence of keys, with any characters, makes it panic.",
 ["inputs", "histories"], "every sequence of terminal events, every character, every handler (whose answers may depend on what it handled before)",
 "No test drives the REPL; text that is not ASCII is typed by no test.",
 ["projects/oak-repl/src/lib.rs"], [("byte offset of the cursor", "LineBuffer::insert, backspace"), ("joining lines, cursor after the join", "LineBuffer::backspace"), ("events in any order", "OakRepl::run")], ["LineBuffer::*", "OakRepl::run"])
prop("P24", "Formatting applies the first rule that answers, and keeps the code",
 "Formatting a tree writes each node and each leaf by the rule of highest priority (of those with the same priority, the one added first) that applies to it and has something to say; where none does, a node is its formatted children in order and a leaf its text. Rules are shown the node's depth and the kinds around it, the children format the same for every rule, an error of a rule is the error of formatting, and the document is printed by the layout rules under the given configuration. With the built-in rules and any rules that write what is there, the output is the text of the tree but for blanks and line ends; `changed` holds exactly if the output differs from the source. A rule that conflicts, in either direction, with one in the set is refused and leaves the set as it was.",
 ["inputs", "histories"], "every tree, text, configuration and rule set",
 "The tests format no tree with more than one rule, and none checks that code survives.",
 ["projects/oak-pretty-print/src/formatter/mod.rs", "projects/oak-pretty-print/src/rules/mod.rs", "projects/oak-pretty-print/src/builtin_rules/mod.rs"], [("order of the rules after adding", "RuleSet::add_rule"), ("children in order, each at its place", "Formatter::format_node"), ("first answer wins", "RuleSet::apply_node_rules, apply_token_rules"), ("what is written for a comma", "create_builtin_rules")], ["Formatter::new, add_rule, format", "RuleSet::*", "FormatContext::enter, is_inside, parent_kind"])
prop("P25", "MCP server: every request is answered once, in order, with what the service says",
 "The MCP server reads lines until the stream ends. Each line that is a request gets exactly one answer, in the order of the requests, one line each, with the request's id, version 2.0 and exactly one of result and error, and every answer has been written and flushed before the next line is awaited; notifications, blank lines and lines that are no message get none and do not end the session. `initialize` answers with the protocol version, the capabilities and the server's name; `tools/list` with the list of tools, each of which can be called; `tools/call` with the text the tool yields or error -32000 (a missing argument or an unknown tool is named): hover text is what the language service says for that file and offset, search results what the searcher finds with the given limit (5 when none is given), and setting a file's content writes it to the file system. Any other method is error -32601 and names the method.",
 ["inputs", "histories"], "every stream of lines, every language service and searcher",
 "The crate's tests run no session.",
 ["projects/oak-mcp/src/lib.rs"], [("answers in order, one per request", "McpServer::run"), ("tools by name, arguments by name", "McpServer::handle_tool_call"), ("methods", "McpServer::handle_request")], ["McpServer::new, with_search, run", "tools.json"])

prop("P26", "A language service's stock answers follow the file system, the trees and the symbol index",
 "What every language service answers unless it says otherwise. Listing all files below a place gives, for any file system whose directories form a tree, exactly the files at or below it, each as often as directories list it (once, where every file lies in one directory), and ends; places that are neither file nor readable directory add nothing. `with_root` runs the given function on the file's tree, `with_roots` once on the tree of every file that has one, answering in the order the files were named, however long each takes. Document symbols are the symbols the index holds for the file, one item each in the same order (nothing when the file has no text or no tree), workspace symbols those whose names match the query; each item carries the symbol's name, place, container, role and the kind that belongs to its role. The definition of an offset is the leaf itself when a leaf of the root covers it; for a child of the root that is a reference (or a root that is one, when no child covers the offset) it is the place of the symbol the index knows by that text, or else the start of the module the resolver finds, and otherwise nothing; a file without text or tree has none. The source is what the file system says.",
 ["inputs", "histories"], "every file system, tree, symbol index and order in which answers become ready",
 "The crate's tests do not call the stock answers.",
 ["projects/oak-lsp/src/service.rs", "projects/oak-lsp/src/types.rs"], [("every file once, and it ends", "LanguageService::list_all_files"), ("what a name leads to", "LanguageService::definition"), ("answers in the order asked", "LanguageService::with_roots")], ["LanguageService default methods", "From<SymbolInformation> for WorkspaceSymbol, StructureItem"])
prop("P27", "Comments are printed completely, in order and at their place",
 "A comment is printed as the opening mark of its kind, a blank, its content without surrounding white space, and for blocks a blank and the closing mark; a block of several lines gets a line of its own for the opening mark, each line of the content behind the given indentation and a star, and the closing mark, indented, last; a comment with nothing but white space keeps it between its marks. So apart from white space and these marks nothing of a comment is lost or added. A collector keeps what is added, in order; asked for the comments before or after an offset or within a range it gives exactly those that lie there completely, in the order it keeps them, likewise the trailing ones; sorting puts them in the order of their starts, keeps those with the same start in their order and loses none. A processor that is to preserve comments gives one text for each, in order, printed or as collected according to its setting; one that is not gives none. Inserting at an offset appends each comment that ends there or before and is not trailing, on an indented line of its own; inserting a trailing comment appends a blank and the first trailing comment that starts there or later, if any.",
 ["inputs", "histories"], "every comment, list of comments, offset, indentation and setting",
 "The crate's tests do not touch comments.",
 ["projects/oak-pretty-print/src/comment/mod.rs"], [("lines of a block behind stars", "Comment::formatted_text"), ("which comments lie where", "CommentCollector::comments_before, comments_after, comments_in_range"), ("appending in order, stopping after the first", "CommentProcessor::insert_comments_at_position, insert_trailing_comment")], ["Comment, CommentCollector, CommentProcessor"])


if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
