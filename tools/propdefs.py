"""The properties, as written to properties.jsonl, and how each is decided, as written to MANIFEST.json."""

HOOKS = None
NOT_APPLICABLE = []
NOTES = ("Every check is ./check.py ID TIER: it builds a harness crate from /repo's working tree (AddressSanitizer with debug assertions where the code under test is unsafe or hands out references; "
         "ThreadSanitizer and Miri from a source copy in .build/shadow), runs 8 shards of generated workloads, and merges the monitors' verdicts. Exit 2 means no verdict.")

CORE = "projects/oak-core/src/"
NOTE_ASAN = "Held on the counted executions, compared step by step with an independent reference model, under AddressSanitizer and debug assertions; the generator decides which inputs are reached. Trusts the reference model in /verif/harness."
NOTE_NAT = "Held on the counted executions, compared with an independent reference model, with debug assertions on; the generator decides which inputs are reached. Trusts the reference model in /verif/harness."

DEFS = [
    dict(
        id="C01", title="Every source representation reads as the one string it holds",
        statement="However a text is stored (contiguous, rope, chunk stream, or a snapshot of one) and however it is cut into chunks, every read operation of the source and cursor API (length, chunk lookup, character and slice access at character boundaries, forward and backward stepping, skipping by a predicate, prefix tests, searching for a character or substring) gives the answer the plain string gives. Chunks tile the text exactly, and a cursor's position always equals the number of bytes it has moved over.",
        over=["inputs", "configurations"], quant="All texts of 1- to 4-byte characters, all divisions into chunks, all offsets on character boundaries, all sequences of cursor operations.",
        why="Unit tests read a few ASCII literals stored in one chunk; none cuts a text inside a search needle, a run, or next to multi-byte characters.",
        files=[CORE + "source/mod.rs", CORE + "source/text.rs", CORE + "source/rope.rs", CORE + "source/streaming.rs", CORE + "source/cursor.rs"],
        mech=[("Source trait and its chunked implementations", CORE + "source/{mod,text,rope,streaming}.rs"), ("SourceCursor chunk stepping and searches", CORE + "source/cursor.rs")],
        observe=["return values of Source and SourceCursor methods"],
        technique="differential runtime monitoring against a plain-string model, ASan build", note=NOTE_ASAN),
    dict(
        id="C02", title="Edits are exact splices and snapshots never change",
        statement="Applying a batch of non-overlapping edits, in any order, to an editable source yields the text obtained by splicing each replacement into the original text (insertions at one place in the order given, before what replaces the text there), and the reported affected range covers every changed byte of the new text and lies within it. A snapshot or clone taken earlier keeps its text whatever happens to the buffer afterwards, and appending to a chunk stream only extends it.",
        over=["histories", "inputs"], quant="All texts, all batches of non-overlapping edits on character boundaries in any order (insertions where another edit starts or ends included), all interleavings of edits, appends, snapshots and reads.",
        why="Unit tests apply one or two ASCII edits to a short buffer and never hold a snapshot across later edits.",
        files=[CORE + "source/text.rs", CORE + "source/rope.rs", CORE + "source/streaming.rs", CORE + "source/buffer.rs"],
        mech=[("apply_edits ordering and splicing", CORE + "source/{text,rope}.rs"), ("copy-on-write chunks shared with snapshots", CORE + "source/{rope,streaming}.rs")],
        observe=["text, length and affected range after each batch; text of every held snapshot"],
        technique="history monitoring against a splice model, ASan build", note=NOTE_ASAN),
    dict(
        id="C03", title="Vectorised byte scanners equal scalar scanning and stay in bounds",
        statement="Each fast byte scanner (whitespace, identifier, digit, hexadecimal digit, space/tab prefixes, first of up to four bytes, and the like) returns exactly what examining the bytes one at a time returns. It reads no byte outside the slice it is given, whatever the slice's length and alignment.",
        over=["inputs"], quant="All byte slices (lengths around and far beyond the vector width, all alignments, all 256 byte values, all stop positions).",
        why="Tests run a handful of short ASCII strings, which stay on the scalar tail; out-of-bounds reads are invisible to them.",
        files=[CORE + "source/simd.rs", CORE + "lexer/scan_string.rs", CORE + "lexer/scan_number.rs", CORE + "lexer/scan_white_space.rs"],
        mech=[("SimdScanner block loop and scalar tail", CORE + "source/simd.rs"), ("prefix counters", CORE + "lexer/scan_*.rs")],
        observe=["returned index; faults on guard pages around the slice"],
        technique="guard pages + ASan, differential against scalar loops", note=NOTE_ASAN),
    dict(
        id="C04", title="Lexer toolkit tokenises exactly, whatever the chunk layout",
        statement="A lexer written with the scanning toolkit (whitespace, line and block comments, strings with escapes, identifiers, numbers, keyword and prefix tests, take-while and skip helpers) moves over and emits exactly the spans that a character-by-character reading of its configuration defines, however the source is chunked. The emitted tokens tile the text from 0 to its length in order, followed by one zero-length end-of-stream token.",
        over=["inputs", "configurations"], quant="All texts, all scanner configurations (markers, nesting, quotes, escapes, Unicode whitespace), all chunk layouts, all helper call sequences.",
        why="Tests tokenise a few valid snippets from one chunk; unterminated, nested, escaped and chunk-straddling constructs are not sampled.",
        files=[CORE + "lexer/mod.rs", CORE + "lexer/scan_string.rs", CORE + "lexer/scan_comment.rs", CORE + "lexer/scan_identifier.rs", CORE + "lexer/scan_number.rs", CORE + "lexer/scan_white_space.rs"],
        mech=[("LexerState scanning helpers", CORE + "lexer/mod.rs"), ("configurable scanners", CORE + "lexer/mod.rs, lexer/scan_*.rs")],
        observe=["tokens, positions and return values after every helper call"],
        technique="differential monitoring against a character-level reference lexer, ASan build", note=NOTE_ASAN),
    dict(
        id="C05", title="Relexing with a cache equals lexing from scratch",
        statement="For any history of edits, lexing the edited text with the tokens cached from the previous text yields the same token sequence (kinds and spans) and ends with the same single end-of-stream token as lexing the new text with an empty cache. This holds for insertions, deletions, truncations, edits at token edges, an unchanged text, and a cache left behind by a failed or absent lex.",
        over=["histories", "inputs"], quant="All texts, all edit histories, all cache states reachable by them.",
        why="Tests relex one edited snippet; truncation, growth at the end and edits touching token edges are not covered.",
        files=[CORE + "lexer/mod.rs", CORE + "parser/session.rs"],
        mech=[("LexerState::new_with_cache prefix reuse", CORE + "lexer/mod.rs"), ("LexerCache", CORE + "lexer/mod.rs, parser/session.rs")],
        observe=["token list after every relex; number of tokens reused"],
        technique="differential history monitoring (incremental vs fresh), ASan build", note=NOTE_ASAN),
    dict(
        id="C06", title="Built trees are exactly what was built, with exact lengths and positions",
        statement="Whatever sequence of tokens, nested nodes, checkpoints, wraps and restores builds a tree, the finished tree holds exactly those kinds, lengths and provenance in order, and every node's length is the sum of its children's. Viewed with absolute positions, siblings abut, each child lies inside its parent, leaf texts concatenate to the covered text, and looking up the child or leaf at an offset finds the unique one containing it. Tokens of a parsed text are covered completely and once.",
        over=["histories", "inputs"], quant="All builder call sequences, all texts of the toy language, all offsets.",
        why="Tests build one or two small trees by hand and read a couple of lengths.",
        files=[CORE + "tree/green_tree.rs", CORE + "tree/red_tree.rs", CORE + "tree/mod.rs", CORE + "parser/state.rs"],
        mech=[("TreeSink checkpoints and node finishing", CORE + "parser/state.rs"), ("RedNode positions and lookups", CORE + "tree/red_tree.rs")],
        observe=["kinds, lengths, spans, lookups of every element"],
        technique="lock-step model monitoring of tree building, ASan build", note=NOTE_ASAN),
    dict(
        id="C07", title="Tree traversals visit every element once, in source order",
        statement="Pre-order iteration, the visitor's default walk and stepping a tree cursor each visit every node and leaf below their start exactly once, in source order, with its true span. After any sequence of cursor moves the cursor is on the element that sequence of moves leads to, at that element's offset, and a move that cannot be made says so and leaves the cursor in place.",
        over=["histories", "inputs"], quant="All trees (deep, wide, with empty nodes and empty leaves), all start elements, all sequences of cursor moves.",
        why="Tests step through one small tree in one order.",
        files=[CORE + "tree/cursor.rs", CORE + "visitor/mod.rs", CORE + "tree/red_tree.rs"],
        mech=[("Cursor frame stack and offsets", CORE + "tree/cursor.rs"), ("PreOrder and Visitor::walk_node", CORE + "visitor/mod.rs")],
        observe=["element, offset and result after each move; sequence of visited elements"],
        technique="event-sequence monitoring against a nested-list model, ASan build", note=NOTE_ASAN),
    dict(
        id="C08", title="Incremental parsing gives the tree a fresh parse gives",
        statement="After any history of edits, parsing the new text in a session that holds the previous tree gives the same tree (kinds, lengths, nesting, provenance of its tokens) and the same diagnostics as parsing the new text in a fresh session. This holds whichever nodes are reused, wherever the edits fall, for edits that change tokens only through what follows or precedes them, and for texts with errors.",
        over=["histories", "inputs"], quant="All texts, all edit histories (insertions, deletions, replacements at token edges, batches of edits), all source representations.",
        why="Tests reparse one snippet after one edit; nodes whose meaning depends on neighbouring tokens are never edited around.",
        files=[CORE + "parser/state.rs", CORE + "parser/mod.rs", CORE + "parser/session.rs", CORE + "tree/cursor.rs"],
        mech=[("reuse test and edit translation", CORE + "parser/state.rs (IncrementalContext, try_reuse)"), ("generations of trees", CORE + "parser/session.rs")],
        observe=["tree and diagnostics after every incremental parse; number of nodes reused"],
        technique="differential history monitoring (incremental vs fresh), ASan build", note=NOTE_ASAN),
    dict(
        id="C09", title="Arena allocations are aligned, disjoint, stable, and all given back",
        statement="Every value, slice or provenance record placed in a syntax arena is at least 8-byte aligned, overlaps no other live allocation of any arena, and keeps its contents and address until that arena is dropped, however much is allocated later and whatever other arenas on any thread do. Filling a slice from an iterator exposes exactly the items written. Dropping an arena on any thread gives its memory back: a thread keeps at most a bounded pool (64 chunks of 64 KiB), and nothing once it has ended.",
        over=["histories", "schedules", "inputs"], quant="All allocation sequences and sizes (empty, chunk-sized, larger than a chunk), all numbers of live arenas, all moves of arenas between threads.",
        why="No test holds allocations of several arenas across drops and reuse, crosses threads, or measures what is given back; the code is unsafe and its faults are silent.",
        files=[CORE + "memory/arena.rs"],
        mech=[("bump allocation and chunk retirement", CORE + "memory/arena.rs"), ("thread-local chunk pool", CORE + "memory/arena.rs")],
        observe=["addresses and contents of all held allocations; allocator byte counters"],
        technique="allocation-history monitors under ASan, Miri in the thorough tier", note=NOTE_ASAN),
    dict(
        id="C10", title="A parse session never exposes or reuses freed trees",
        statement="Through any history of successful parses, failed parses, manual generation changes and moves between threads, the last tree a session reports is the intact tree of its latest successful parse or absent, and right after a successful parse it is present. No parse reads a tree whose memory was given back, whatever else has recycled that memory in between.",
        over=["histories", "schedules"], quant="All session histories, including consecutive failures, all interleavings of several sessions on one thread, all thread moves.",
        why="Tests parse successfully once or twice in a session; failed parses between successes and recycled memory are not exercised, and stale reads do not fail a test.",
        files=[CORE + "parser/session.rs", CORE + "parser/mod.rs", CORE + "memory/arena.rs"],
        mech=[("generation swap and last tree", CORE + "parser/session.rs"), ("lifetime-extended arena and old tree", CORE + "parser/mod.rs")],
        observe=["the session's last tree re-read after every step; ASan reports; overwritten recycled memory"],
        technique="ASan plus memory-scribbling history monitor", note=NOTE_ASAN),
    dict(
        id="C11", title="Operator-precedence parsing groups as the operator table says",
        statement="For any table of prefix, infix and postfix operators with precedences and associativities, the expression tree built groups operands as the table prescribes: higher precedence binds tighter, left-associative chains nest left, right-associative ones nest right, and operators below the requested minimum are left unread. Every token appears once and in order (trivia included), parentheses override the table, and a missing operand is reported without losing input.",
        over=["inputs", "configurations"], quant="All operator tables (all precedences, mixed associativities), all token sequences, all minimum precedences.",
        why="Tests parse a couple of four-token expressions with one table.",
        files=[CORE + "parser/pratt.rs", CORE + "parser/state.rs"],
        mech=[("precedence climbing loop and binary/unary/postfix builders", CORE + "parser/pratt.rs"), ("checkpoint before an existing node", CORE + "parser/state.rs")],
        observe=["s-expression of the tree, number of diagnostics"],
        technique="differential monitoring against an independent precedence-climbing model, ASan build", note=NOTE_ASAN),
    dict(
        id="C12", title="Parser state navigation and backtracking are exact",
        statement="Peeking, matching, consuming and skipping report and move over exactly the tokens present, leaving out trivia where they say so. Restoring a checkpoint or abandoning an attempt returns position and partial tree to what they were, for any nesting of attempts; a failed `try_parse` also withdraws the errors it recorded, while `try_parse_with_error` keeps them. The tree finished afterwards contains each consumed token once and in order.",
        over=["histories", "inputs"], quant="All token streams, all sequences and nestings of navigation, attempts, restores and finishing calls, on all source representations.",
        why="Tests make one attempt over a handful of tokens.",
        files=[CORE + "parser/state.rs"],
        mech=[("TokenSource navigation", CORE + "parser/state.rs"), ("checkpoint / restore / try_parse", CORE + "parser/state.rs")],
        observe=["current token, position, tree length and errors after every operation"],
        technique="lock-step model monitoring, ASan build", note=NOTE_ASAN),
    dict(
        id="C13", title="Threads parsing independently get what they get alone",
        statement="Any number of threads parsing, relexing, editing and reading at once, each with its own session, over shared sources, snapshots, lexers and parsers, obtain exactly the results they obtain alone. Trees, tokens and snapshots read from several threads at once, or moved between threads, keep their contents, and no thread's work causes a data race.",
        over=["schedules", "histories"], quant="All interleavings of threads with their own sessions; sessions, trees and snapshots shared for reading or handed over.",
        why="Tests are single-threaded; the types are declared safe to share by hand.",
        files=[CORE + "parser/session.rs", CORE + "memory/arena.rs", CORE + "source/rope.rs", CORE + "source/streaming.rs"],
        mech=[("hand-written Send/Sync of arena and session", CORE + "memory/arena.rs, parser/session.rs"), ("copy-on-write chunks", CORE + "source/rope.rs")],
        observe=["results per thread vs sequential; ThreadSanitizer reports"],
        technique="stress with injected delays, sequential-equivalence oracle, TSan and ASan builds",
        note="Held on the interleavings that happened (threads started at a barrier, random pauses); TSan reports races whether or not they did harm. Trusts the sequential run as oracle."),
    dict(
        id="C14", title="Diagnostics carry the right place, source and text",
        statement="Every error recorded while lexing or parsing carries the position of the token it is about (or the end of the text), the identity of the source it came from, and its message; diagnostics of a parse list lexical errors first and then syntax errors in the order recorded, and always point into the text. Attributing an error to a source sets that on every kind of error that has one and changes nothing else; copying an error preserves it, and its rendering shows its key, message, offset and source.",
        over=["inputs", "histories"], quant="All error kinds and contents, all points of all token streams, all source representations and identities.",
        why="Tests construct two or three errors and look at one field.",
        files=[CORE + "errors/mod.rs", CORE + "errors/display.rs", CORE + "errors/source.rs", CORE + "errors/from_std.rs", CORE + "parser/state.rs", CORE + "source/text.rs"],
        mech=[("error recording in the parser state", CORE + "parser/state.rs"), ("OakError construction, cloning, attribution, display", CORE + "errors/")],
        observe=["kind, offset, source id, texts and rendering of every error"],
        technique="runtime assertion monitors with an independent model, ASan build", note=NOTE_ASAN),
    dict(
        id="C15", title="Serialised spans, tokens and provenance read back unchanged",
        statement="Ranges, optional ranges, shared strings, token streams, token provenance and role vocabularies serialise to their documented wire form (a range as its named bounds, roles by their snake-case names) and read back as equal values, whatever their contents and whichever reader is used. Malformed ranges and unknown roles are refused rather than read as something else.",
        over=["inputs"], quant="All ranges (empty, reversed, extreme bounds, other bound types), all token streams, all provenance records, all roles.",
        why="Tests serialise one or two values.",
        files=[CORE + "serde_range.rs", CORE + "serde_arc_str.rs", CORE + "lexer/mod.rs", CORE + "tree/metadata.rs", CORE + "language/mod.rs"],
        mech=[("range and optional range adapters", CORE + "serde_range.rs"), ("token stream adapter", CORE + "lexer/mod.rs")],
        observe=["serialised value and value read back"],
        technique="round-trip and wire-form monitors, ASan build", note=NOTE_ASAN),
    dict(
        id="C16", title="The in-memory file system acts as one map of uris, ids and texts",
        statement="All clones of an in-memory file system, used from any threads, act as one map: every read returns the text of the latest write of that uri, or nothing after its removal, and concurrent operations take effect in some single order. Writing a file again keeps its id, uri and id look each other up while the file exists, and the id of a removed file resolves to nothing and never comes to name another file. A source once handed out keeps its text, and listings and metadata describe exactly the files present.",
        over=["histories", "schedules"], quant="All histories of writes, overwrites, removals and lookups over any uris and texts, all interleavings through clones.",
        why="Tests write one file and read it back from one thread.",
        files=["projects/oak-vfs/src/vfs/memory.rs", "projects/oak-vfs/src/vfs/mod.rs"],
        mech=[("shared maps of contents and ids", "projects/oak-vfs/src/vfs/memory.rs")],
        observe=["return values of every operation; timestamps of invocation and return in the concurrent runs"],
        technique="history monitoring against a map model, linearizability check of concurrent logs", note=NOTE_NAT),
    dict(
        id="C17", title="Line and column positions convert exactly, whatever the text",
        statement="For every text and source representation, converting a byte offset at a character boundary to a line and column and back returns the same offset. A new line starts exactly after each line feed, columns count the units of their kind (bytes, or UTF-16 code units) from the line's start, line ranges tile the text, and an offset past the end is treated as the end.",
        over=["inputs"], quant="All texts (any characters, line endings, line lengths), all offsets, all source representations and edits of them.",
        why="Tests look at one short ASCII text.",
        files=["projects/oak-vfs/src/line_map.rs"],
        mech=[("LineMap construction and searches", "projects/oak-vfs/src/line_map.rs")],
        observe=["line, column, offset, line start and end of every sampled offset"],
        technique="differential monitoring against counting from the start", note=NOTE_NAT),
    dict(
        id="C18", title="The symbol table is the union of the files' current symbols",
        statement="After any history of updating and removing files, a query returns exactly the symbols, with multiplicity, that the files' latest updates contain and that match it; looking up a qualified name finds a current symbol of that name exactly when one exists, and the symbols of a file are those of its latest update in order. Updating or removing one file never changes what is found for the others, also when threads update different files at once.",
        over=["histories", "schedules"], quant="All histories of updates and removals, names shared between and within files, all interleavings of updates of different files.",
        why="Tests update one file once.",
        files=["projects/oak-resolver/src/lib.rs", "projects/oak-symbols/src/lib.rs"],
        mech=[("global symbol table and per-file index", "projects/oak-resolver/src/lib.rs")],
        observe=["results of lookup, query and query_file after every step and at rest"],
        technique="history monitoring against a multimap model, concurrent stress", note=NOTE_NAT),
    dict(
        id="C19", title="A file belongs to the deepest workspace folder that contains it",
        statement="Whatever folders have been added and removed, the root found for a file is the deepest current folder that contains it, path component by path component, and nothing when no folder does. A folder whose name merely begins like another's, or a file beside a folder, never counts as contained.",
        over=["histories", "inputs", "schedules"], quant="All sets of folders (nested, equal prefixes, encoded characters), all files, all histories of adding and removing folders, other threads asking meanwhile.",
        why="No test places nested or similarly named folders.",
        files=["projects/oak-lsp/src/workspace.rs"],
        mech=[("find_root over the folder list", "projects/oak-lsp/src/workspace.rs")],
        observe=["root found for every file after every change"],
        technique="history monitoring against a path-component model", note=NOTE_NAT),
    dict(
        id="C20", title="Imports resolve to the first existing candidate, in documented order",
        statement="An import resolves to a path that exists: relative to the importing file's directory first, then to each search root in the order they are listed. When no candidate exists nothing is resolved, a resolved name is a file uri that leads back to that path, and replacing the search roots, or creating or removing files, takes effect at once, while other threads resolve too.",
        over=["inputs", "configurations", "schedules"], quant="All directory trees (shadowing names, non-ASCII names, spaces), all search roots and their order, all import texts.",
        why="Tests do not touch the resolver's file lookups.",
        files=["projects/oak-resolver/src/lib.rs"],
        mech=[("StandardResolver candidate search", "projects/oak-resolver/src/lib.rs")],
        observe=["resolved uri, existence of the file it names"],
        technique="differential monitoring against an independent candidate search in a scratch tree", note=NOTE_NAT),
    dict(
        id="C21", title="Every diagnostic format shows the right place and text, escaped",
        statement="Whatever the text and diagnostic, the plain, console, HTML and protocol renderings show every label's line and column (counted as the format documents), the source line it is on, its message and the diagnostic's severity, code, message, notes and suggestions, and text from outside cannot break out of the format. Turning a syntax, unexpected-character, unexpected-token, expected-token, expected-name or trailing-comma error into a diagnostic labels exactly the character at the error's offset (nothing at the end of the text). A diagnostic serialises and reads back unchanged.",
        over=["inputs", "configurations"], quant="All texts and labels (multi-byte characters, ends of line and text, several lines), all diagnostic contents, all formats.",
        why="Tests render one ASCII diagnostic and check that the output is not empty.",
        files=["projects/oak-diagnostic/src/lib.rs"],
        mech=[("emitters and error conversion", "projects/oak-diagnostic/src/lib.rs")],
        observe=["rendered text, positions and fields of every format"],
        technique="re-reading monitors over rendered output", note=NOTE_NAT),
    dict(
        id="C22", title="Highlighting keeps every character and styles it by its best scope",
        statement="Highlighting a text yields segments whose texts concatenate to the text, one per token, each styled by the most specific of its scopes the theme knows. Every export format carries exactly that text, escaped for the format so that re-reading it gives the text back, with the segments' styles.",
        over=["inputs", "configurations"], quant="All texts, all themes, all segment lists and styles, all formats and exporter settings.",
        why="Tests highlight one snippet and look for a substring.",
        files=["projects/oak-highlight/src/highlighter/mod.rs", "projects/oak-highlight/src/exporters/mod.rs", "projects/oak-highlight/src/themes/mod.rs"],
        mech=[("highlight visitor", "projects/oak-highlight/src/highlighter/mod.rs"), ("exporters", "projects/oak-highlight/src/exporters/mod.rs"), ("scope resolution", "projects/oak-highlight/src/themes/mod.rs")],
        observe=["segments, exported text re-read"],
        technique="re-reading monitors and reference styling model", note=NOTE_NAT),
    dict(
        id="C23", title="Pretty printing breaks a group exactly when it does not fit",
        statement="Printing a document keeps all of its text in order; a group without hard line breaks stays on one line exactly when its flat form fits in the columns left on the line, and any other group breaks at each of its own lines, indented as nested. Formatting a tree asks the applicable rules of each node and token from the highest priority down and takes the first answer; tokens no rule answers for are printed as they stand in the source. Comments keep their words and order and are found by range, before, after and trailing exactly as placed.",
        over=["inputs", "configurations"], quant="All documents, widths and indentations; all rule sets over all trees.",
        why="Tests print two or three fixed documents.",
        files=["projects/oak-pretty-print/src/document/mod.rs", "projects/oak-pretty-print/src/document/printer.rs", "projects/oak-pretty-print/src/formatter/mod.rs", "projects/oak-pretty-print/src/rules/mod.rs", "projects/oak-pretty-print/src/comment/mod.rs"],
        mech=[("document printer", "projects/oak-pretty-print/src/document/printer.rs"), ("rule engine", "projects/oak-pretty-print/src/formatter/mod.rs")],
        observe=["printed text, its lines' widths and indentation, rules applied"],
        technique="differential monitoring against a reference printer", note=NOTE_NAT),
    dict(
        id="C24", title="Every MCP request is answered once, in order, and listed tools work",
        statement="The server answers each request it reads exactly once, in order, under the request's id, with a result or an error, and answers no notification; malformed and unknown requests do not end the session. Every tool it lists can be called with its listed arguments, and each call reaches exactly the service named with exactly the arguments given: text set for a file is the text its later readers get, and a search asks for the query and limit requested.",
        over=["inputs", "histories"], quant="All sequences of requests, ids and arguments, all workspace contents.",
        why="Tests do not run a session.",
        files=["projects/oak-mcp/src/lib.rs"],
        mech=[("MCP server loop and tool dispatch", "projects/oak-mcp/src/lib.rs")],
        observe=["every line the server writes"],
        technique="trace checking of request/reply sessions against a workspace model", note=NOTE_NAT),
    dict(
        id="C25", title="The REPL shows, keeps and submits exactly what was typed",
        statement="Whatever keys are typed (characters, backspace, arrows, Enter, interrupt, end of input), no sequence panics, the current line is shown with the cursor after as many characters as precede it, and Enter on a complete input hands the handler exactly the text typed, line by line with its indentation. Further lines of an input get the prompt for further lines, and entered lines stay on the screen. Interrupting discards the input; while the handler works and on leaving, the terminal is in its former mode.",
        over=["inputs", "histories"], quant="All key sequences, all texts (wide and multi-byte characters, several lines), both handler answers.",
        why="The editor needs a terminal; no test drives it.",
        files=["projects/oak-repl/src/lib.rs"],
        mech=[("line buffer and key loop", "projects/oak-repl/src/lib.rs")],
        observe=["handled lines, bytes written to the terminal, terminal mode"],
        technique="history monitoring of the real editor on a pseudo-terminal against an editor model", note=NOTE_NAT),
    dict(
        id="C26", title="Drawings show the graph or tree they were given, whole and readable",
        statement="Every layout places each node exactly once, at finite coordinates, with its size, label and type, joins the centres of the ends of every edge between known nodes, and reports bounds that enclose the nodes; layered, compact, grid and hierarchical layouts overlap no nodes that fit their cells and respect the edges of acyclic graphs. Neighbours, connectivity and cycles are those of the graph, whatever cycles, self-loops, repeated edges or unknown ends it has. Exported SVG, HTML and JSON are well-formed and carry exactly the layout's boxes, lines, labels and styles, whatever characters these contain.",
        over=["inputs", "configurations"], quant="All graphs, trees and syntax trees, all layouts and their settings, all labels and styles, all formats.",
        why="Tests lay out three nodes and look for substrings.",
        files=["projects/oak-visualize/src/graph/mod.rs", "projects/oak-visualize/src/layout/mod.rs", "projects/oak-visualize/src/tree/mod.rs", "projects/oak-visualize/src/render/mod.rs", "projects/oak-visualize/src/geometry/mod.rs"],
        mech=[("layouts", "projects/oak-visualize/src/layout/mod.rs"), ("rendering and export", "projects/oak-visualize/src/render/mod.rs")],
        observe=["positions, edges and bounds of every layout", "exported text re-read"],
        technique="invariant monitors over layouts and re-reading monitors over exports", note=NOTE_NAT),
    dict(
        id="C27", title="Document symbols and references are exactly those in the tree",
        statement="The symbols of a document are its definition nodes in document order, each with its name, its exact range and its enclosing definition, whatever the nesting. The references found to a name are exactly the name leaves whose text equals it, in order and with exact ranges. Conversions between symbol, workspace and outline records keep name, place and container.",
        over=["inputs"], quant="All trees (nested, damaged, with repeated and multi-byte names), all names.",
        why="Tests cover one flat snippet.",
        files=["projects/oak-symbols/src/lib.rs", "projects/oak-navigation/src/lib.rs", "projects/oak-structural-view/src/lib.rs"],
        mech=[("symbol walk", "projects/oak-symbols/src/lib.rs"), ("reference finder", "projects/oak-navigation/src/lib.rs")],
        observe=["list of symbols and references"],
        technique="differential monitoring against a nested-list model", note=NOTE_NAT),
    dict(
        id="C28", title="Language-service answers follow the files, trees and symbols of the moment",
        statement="Listing the files below a folder gives every file in it, at any depth, exactly once. Document and workspace symbols, the definition behind a reference (a symbol, else an imported file) and work on the trees of one or several files answer from the current sources, trees and symbol index of exactly the files asked for. A missing file, a missing tree or an offset outside the text gives an empty answer, not a panic.",
        over=["inputs", "histories"], quant="All workspaces and programs, all offsets, all histories of file updates.",
        why="Tests use one mock with constant answers.",
        files=["projects/oak-lsp/src/service.rs"],
        mech=[("LanguageService default methods", "projects/oak-lsp/src/service.rs")],
        observe=["answers of every default method after every change"],
        technique="history monitoring against a model of files, trees and symbols", note=NOTE_NAT),
    dict(
        id="C29", title="The disk file system shows and changes exactly what it names; watching tells all",
        statement="Through the disk file system and the file helpers, every read, listing, existence test and metadata query answers as the disk stands, by whatever name a file is given (path, relative path, file uri with escapes), and a line map is that of the file's text. Writing, creating and removing change exactly the file or folder named, with the folders above it, and nothing else: a file written keeps its rights and its other names (hard and symbolic links), a link removed leaves what it led to; a failed operation changes nothing. A watcher reports every change of a watched file or folder, in order and as what it is, and no change of anything not (or no longer) watched.",
        over=["histories", "inputs", "faults"], quant="All histories of operations over files, folders and names (existing or not, of the wrong kind, with spaces and several-byte characters); all histories of watching, unwatching and changes.",
        why="Tests write and read one temporary file; wrong names, wrong kinds, uris with escapes and unwatching are never exercised.",
        files=["projects/oak-vfs/src/vfs/disk.rs", "projects/oak-vfs/src/vfs/watch.rs", CORE + "helpers/mod.rs"],
        mech=[("DiskVfs: uris to paths, reads, writes, removals", "projects/oak-vfs/src/vfs/disk.rs"), ("DiskWatcher", "projects/oak-vfs/src/vfs/watch.rs"), ("source_from_path, open_file, create_file", CORE + "helpers/mod.rs")],
        observe=["answers of every operation, the whole scratch folder after each, events received"],
        technique="history monitoring against a model of the scratch folder, event log check of the watcher", note=NOTE_NAT),
    dict(
        id="C30", title="No text brings a shipped language down or gets two different answers",
        statement="Lexing or parsing any text with any shipped language ends, without a panic, in an answer: a tree, or at least an error. Tokens and the offsets of diagnostics lie inside the text on character boundaries. The answer depends on the text alone, not on how it is stored (string, rope, chunks) or on what was asked before.",
        over=["inputs", "configurations"], quant="All texts (nesting up to some tens of levels), all 109 languages and ways a text is stored, except the listed known findings.",
        why="Tests of the languages read a few well-formed snippets each.",
        files=["examples/", CORE + "lexer/mod.rs", CORE + "parser/mod.rs"],
        mech=[("each language's Lexer and Parser", "examples/oak-*/src/{lexer,parser}/mod.rs"), ("LexerState, parse_with_lexer", CORE + "{lexer,parser}/mod.rs")],
        observe=["panics, hangs and runaway allocation", "tokens, trees and diagnostics of every text in three representations"],
        technique="fault monitoring and differential runs over stored forms, for every language", note=NOTE_NAT),
    dict(
        id="C31", title="Tokens and trees of every language hold every byte of the text",
        statement="For every shipped language and every text, the tokens cover the text one after the other without gap or overlap. A tree that is returned is as long as the text, every node as long as its children together, and its leaves from left to right are the tokens, trivia and unknown characters included.",
        over=["inputs"], quant="All texts, all 109 languages, except the listed known findings (languages whose own lexer skips text or whose own parser drops tokens).",
        why="Tests compare token and node kinds of a few snippets, never positions against the text.",
        files=["examples/", CORE + "lexer/mod.rs", CORE + "parser/state.rs"],
        mech=[("each language's Lexer and Parser", "examples/oak-*/src/{lexer,parser}/mod.rs"), ("ParserState", CORE + "parser/state.rs")],
        observe=["token spans", "lengths of all nodes and leaves"],
        technique="conservation monitor over tokens and trees, for every language", note=NOTE_NAT),
    dict(
        id="C32", title="A kept session of any language answers as a fresh one after any edits",
        statement="For every shipped language, a session that lexes or parses a text after a history of edits gives the tokens, tree and diagnostics that a fresh session gives for the edited text. This holds whether single characters are typed, or ranges replaced, several at a time.",
        over=["inputs", "histories"], quant="All texts, all histories of non-overlapping edit batches, all languages, except the listed known findings.",
        why="Tests never edit a text they have parsed, except for a few core cases.",
        files=["examples/", CORE + "lexer/mod.rs", CORE + "parser/mod.rs", CORE + "parser/session.rs"],
        mech=[("LexerState::new_with_cache, relex", CORE + "lexer/mod.rs"), ("parse_with_lexer, ParseSession", CORE + "parser/{mod,session}.rs"), ("each language's Lexer and Parser", "examples/oak-*/src/{lexer,parser}/mod.rs")],
        observe=["tokens, trees and diagnostics of kept and fresh sessions after every edit"],
        technique="differential history monitoring, for every language", note=NOTE_NAT),
    dict(
        id="C33", title="Typed trees stay within the text, and named things are where they say",
        statement="For every shipped language with a builder, building any text ends without a panic in a typed tree, an error or diagnostics. Every span in a typed tree and every diagnostic is a stretch of the text on character boundaries, and a named thing's span holds its name. The answer depends on the text alone, not on how it is stored or on the edits that led to it.",
        over=["inputs", "histories"], quant="All texts, all edit histories, all 83 languages with builders, except the listed known findings (four builders are stubs).",
        why="Tests build a few well-formed snippets and compare a stored picture of the tree.",
        files=["examples/", CORE + "builder/mod.rs"],
        mech=[("each language's Builder", "examples/oak-*/src/builder/mod.rs")],
        observe=["every span, name and literal of the printed typed trees, diagnostics, panics and hangs"],
        technique="position monitor over typed trees and differential runs over stored forms and histories, for every builder", note=NOTE_NAT),
    dict(
        id="C34", title="Snapshot testers pass exactly when every answer is as recorded",
        statement="A lexer, parser or builder tester that records its snapshots writes, for each matching file and no other, what the tool answers. Later runs pass if and only if each answer equals its snapshot, blame a file whose answer differs, and change no file. Recording anew replaces the snapshots with today's answers.",
        over=["inputs", "histories", "configurations"], quant="All folders, extensions, texts and answers; all alterations of an answer, a text or a snapshot between runs.",
        why="The testers are the repository's own oracle: nothing tests that a changed answer makes them fail.",
        files=["projects/oak-testing/src/"],
        mech=[("LexerTester, ParserTester, BuilderTester", "projects/oak-testing/src/{lexing,parsing,building}.rs")],
        observe=["result of each run, every file of the folder before and after it"],
        technique="history monitoring of the real testers over altered tools and files, against an own reading of the answers", note=NOTE_NAT),
    dict(
        id="C35", title="Records handed to editors keep their meaning when written, read and converted",
        statement="Every record of the protocol and tool crates (positions, ranges, symbols, edits, completions, diagnostics, hints, tokens, actions, requests) is written as JSON in one known form and read back the same, whatever the order of its fields and unknown fields beside them. A record or request without a required part, or with a part of another type, is refused. What is converted from another record says the same, and kinds and roles keep their names, numbers and correspondence.",
        over=["inputs"], quant="All field values of all records, any order of fields, any missing or mistyped part, all conversions, all kinds and roles.",
        why="Tests never serialise these records; a renamed, dropped or defaulted field is invisible to them.",
        files=["projects/oak-lsp/src/types.rs", "projects/oak-lsp/src/handlers.rs", "projects/oak-structural-view/src/lib.rs", "projects/oak-semantic-tokens/src/lib.rs", "projects/oak-symbols/src/lib.rs", "projects/oak-navigation/src/lib.rs", "projects/oak-hover/src/lib.rs", "projects/oak-folding/src/lib.rs", "projects/oak-diagnostic/src/lib.rs"],
        mech=[("protocol records and their conversions", "projects/oak-lsp/src/types.rs"), ("request records", "projects/oak-lsp/src/handlers.rs"), ("records of the tool crates", "projects/oak-*/src/lib.rs")],
        observe=["JSON written, records read back, refusals, converted records"],
        technique="round-trip monitoring against JSON built beside each record", note=NOTE_NAT),
    dict(
        id="C36", title="Source text put together from pieces never runs words together",
        statement="A source buffer holds the pieces pushed into it, verbatim and in order, with one space exactly where a piece starting with a word character (alphanumeric or underscore, of any script) follows text ending with one, and nothing else added. Empty pieces change nothing, a copy and its original go on independently, and displaying, converting, finishing, and nested sources writing to one buffer all give that same text.",
        over=["inputs"], quant="All lists of pieces over all characters, all nestings, copies at any point.",
        why="No test exercises the source buffer; a missing space silently changes generated code.",
        files=[CORE + "source/buffer.rs"],
        mech=[("SourceBuffer::push", CORE + "source/buffer.rs"), ("ToSource::to_source_string", CORE + "source/buffer.rs")],
        observe=["text of the buffer after every push, of its copies, and of nested sources"],
        technique="differential monitoring against a whole-text model, exhaustive over pairs of pieces", note=NOTE_NAT),
    dict(
        id="C37", title="A value or document written with a macro is exactly what was written",
        statement="The json! macro builds exactly the value written: its nesting, names (quoted or not), order and repeated names, literals, and embedded expressions, options, lists and values, each evaluated once and in the order written. doc! and derived documents build exactly the document written: texts, every kind of line, groups, indentations, joins with separators, the layout of each field or variant, and nothing for what has no layout. Both hold whatever values the embedded expressions have.",
        over=["inputs"], quant="All values of the embedded expressions, at all widths; the macro calls themselves are a fixed set that uses every form of the grammar.",
        why="No test expands json!, and the documents derived or written by macro are only compared at one width.",
        files=["projects/oak-macros/src/json.rs", "projects/oak-macros/src/doc.rs", "projects/oak-macros/src/to_doc.rs", "projects/oak-pretty-print/src/to_doc.rs", "examples/oak-json/src/ast/mod.rs"],
        mech=[("json!", "projects/oak-macros/src/json.rs"), ("doc!, derive(AsDocument)", "projects/oak-macros/src/{doc,to_doc}.rs"), ("AsDocument, ToDocument", "projects/oak-pretty-print/src/to_doc.rs")],
        observe=["values built, order of evaluation, documents printed at several widths"],
        technique="differential monitoring of expanded macros against values and documents built beside them", note=NOTE_NAT),
]
