"""Which harness decides which property, in which builds, and how its cases are made."""

ASSUME = [
    "The harness is built from /repo's working tree with debug assertions and overflow checks on.",
    "Held on the executions counted here; code paths the generated workloads never drive are not covered.",
]


def P(crate, rule, quick, thorough, assume=()):
    return dict(crate=crate, rule=rule, quick=quick, thorough=thorough, assume=list(assume))


A = lambda **k: dict(variant="asan", **k)
N = lambda **k: dict(variant="native", **k)
T = lambda **k: dict(variant="tsan", **k)
M = lambda **k: dict(variant="miri", **k)

PROPS = {
    "C01": P("hcore", "Random texts over 1- to 4-byte characters held as every source representation (string, shared, rope with random chunk cuts, edited buffers); every read operation compared with the plain string at random and boundary offsets. Distinct: text+representation+operation classes hashed.", [A(scale=5)], [A(scale=10), M(scale=0.01)]),
    "C02": P("hcore", "Random texts and random non-overlapping edit batches in random order on the string and rope buffers, with snapshots taken between batches; compared with splicing a plain string. Distinct: (text, edits) pairs.", [A(scale=10)], [A(scale=10), M(scale=0.01)]),
    "C03": P("hcore", "Byte strings of every length around the vector widths at every alignment, random class boundaries; fast scanners compared with byte-at-a-time loops under AddressSanitizer with the data flush against the end of its allocation.", [A(scale=20)], [A(scale=10), M(scale=0.01)]),
    "C04": P("hcore", "Random scanning programs over random texts through the lexer toolkit, tokens compared with an independent reference lexer and tiling monitors.", [A(scale=10)], [A(scale=10), M(scale=0.01)]),
    "C05": P("hcore", "Edit histories on the toy language; each relex with the cached tokens compared with a fresh lex of the same text.", [A(scale=10)], [A(scale=10), M(scale=0.01)]),
    "C06": P("hcore", "Random builder programs (tokens, nodes, checkpoints, wrapping, splicing, restore) and toy-language parses over random texts; every finished tree walked as green and red tree and compared with a nested-list model, positions and parents included. Distinct: builder logs and texts.", [A(scale=4)], [A(scale=10), M(scale=0.01)]),
    "C07": P("hcore", "Random trees walked by cursor, visitor and pre-order iterator with random skips and moves; event lists compared with those of the nested-list model.", [A(scale=6)], [A(scale=10), M(scale=0.01)]),
    "C08": P("hcore", "Edit histories on valid and arbitrary toy programs, and every small edit of small programs; each incremental parse (tree, tokens, diagnostics) compared with a fresh session's. Counts how many nodes were really reused.", [A(scale=4)], [A(scale=10), M(scale=0.003)]),
    "C09": P("hcore", "Random allocation programs over several live arenas and threads; addresses checked for alignment and overlap, contents re-read until drop, allocator counters checked after drop and thread exit. Miri re-runs a sample.", [A(scale=16)], [A(scale=10), M(scale=0.01)]),
    "C10": P("hcore", "Histories of successful and failing parses, manual generation changes, thread moves and drops over several sessions while recycled memory is overwritten; the session's tree re-read after every step under AddressSanitizer.", [A(scale=6)], [A(scale=10), M(scale=0.01)]),
    "C11": P("hcore", "Random operator tables and expressions; the Pratt parser's tree compared with an independent precedence-climbing model, tokens and trivia included.", [A(scale=12)], [A(scale=10), M(scale=0.01)]),
    "C12": P("hcore", "Random operation sequences (navigation, expect, checkpoints, nested attempts, restores, finishing) on the parser state and on a list model in lock step, compared after every operation.", [A(scale=12)], [A(scale=10), M(scale=0.01)]),
    "C13": P("hcore", "Threads with their own sessions over shared sources, trees read from several threads, sessions handed between threads, snapshots read during edits; results compared with sequential ones, with injected pauses. ThreadSanitizer watches the same workload.", [A(scale=6), T(scale=4)], [A(scale=10), T(scale=10), M(scale=0.01)]),
    "C14": P("hcore", "Every error kind with random texts, offsets and source ids, copied, rendered and re-attributed; errors recorded at random points of random token streams on every source representation; diagnostics of edited parses located in the text.", [A(scale=12)], [A(scale=10)]),
    "C15": P("hcore", "Random ranges, token streams and provenances serialised, compared with the documented wire form and read back through strings, value trees and byte streams; malformed ranges must be refused.", [A(scale=8)], [A(scale=10)]),
    "C16": P("htools", "Random histories of writes, overwrites, removals and lookups through clones of the in-memory file system, compared with a model; threads running operations on shared clones, their history checked for a sequential explanation file by file.", [N(scale=10)], [N(scale=20)]),
    "C17": P("htools", "Random texts (line endings mixed, 1- to 4-byte characters, very long and empty lines) and offsets converted to line and column and back, over strings, ropes and edited buffers; compared with counting from the start.", [N(scale=20)], [N(scale=100)]),
    "C18": P("htools", "Random histories of file updates and removals over several files with shared names, every query compared with the union of the files' current symbols; threads updating different files at once.", [N(scale=5)], [N(scale=20)]),
    "C19": P("htools", "Random sets of workspace folders (nested, same prefixes, overlapping names) and files under, beside and above them.", [N(scale=6)], [N(scale=30)]),
    "C20": P("htools", "Random directory trees in a scratch directory with shadowing files, and imports from random files in them.", [N(scale=6)], [N(scale=25)]),
    "C21": P("htools", "Random texts, labels and hostile strings through every emitter, re-read by small parsers of the emitted format; parser errors of random programs turned into diagnostics.", [N(scale=20)], [N(scale=80)]),
    "C22": P("htools", "Random programs, random and hostile segment lists and random themes through the highlighter and every exporter, re-read by small parsers of the exported format.", [N(scale=15)], [N(scale=60)]),
    "C23": P("htools", "Random documents (nested groups, indents, lines of every kind, concatenations) printed at random widths; the output compared with a reference printer and re-read for text, indentation and width; random rule sets over random toy programs.", [N(scale=12)], [N(scale=50)]),
    "C24": P("htools", "Random sessions of requests (valid, malformed, unknown, notifications, hostile strings) sent to the real server over pipes; every reply matched to its request and compared with the workspace model.", [N(scale=24)], [N(scale=50)]),
    "C25": P("htools", "Random key sequences (printable 1- to 4-byte characters, arrows, deletes, merges, submits, interrupts) typed into the real editor on a pseudo-terminal; submitted lines, the screen re-read through a small terminal emulator and the terminal mode compared with an editor model.", [N(scale=12)], [N(scale=25)]),
    "C26": P("htools", "Random graphs, trees, syntax trees and layouts (hostile labels and ids, self-loops, cycles, unknown ends) through every layout and export format; positions checked against the layout's promise, drawings re-read by a strict small XML reader.", [N(scale=8)], [N(scale=40)]),
    "C27": P("htools", "Random nested programs and random trees: symbols and references compared with those of a nested-list model.", [N(scale=20)], [N(scale=100)]),
    "C28": P("htools", "Random workspaces, programs, offsets and histories of file changes; answers of the language service's default methods compared with a model of files, trees and symbol index.", [N(scale=20)], [N(scale=80)]),
    "C29": P("htools", "Random histories of writes, folders, removals and lookups on a scratch folder through the disk file system and the file helpers, by every way of naming a file; the whole folder compared with a model after each step. Random watches and changes of files; every event compared with the changes made.", [N(scale=8)], [N(scale=40)], ("Watching is judged where the system offers inotify.",)),
    "C30": P("hlang", "Per language: its own test files cut and mutated, soups of its words and of hostile characters, nested fragments; each text lexed and parsed from a string, a rope and chunks, twice; every answer compared, every token and diagnostic located in the text.", [N(scale=9)], [N(scale=2)], ("Nesting is bounded to some tens of levels: recursive parsers use the stack.",)),
    "C31": P("hlang", "Per language: the same texts; token spans must tile the text, node lengths must add up, and leaves must be the tokens.", [N(scale=8)], [N(scale=2)]),
    "C32": P("hlang", "Per language: histories of typed characters, replaced ranges and batches over the same texts, on strings and on an edited rope; tokens, tree and diagnostics of the kept session compared with a fresh one after each step.", [N(scale=7)], [N(scale=2)]),
    "C33": P("hlang", "Per language with a builder of typed trees: the texts of C30 built from a string, a rope and chunks, and in a kept session over edits; spans and names read out of the printed tree and compared with the text.", [N(scale=9)], [N(scale=4)]),
    "C34": P("hlang", "Random scratch folders of texts, the real testers over the JSON lexer, parser and builder; recorded, run again, then one answer, text or snapshot altered at random; every file of the folder compared before and after.", [N(scale=12)], [N(scale=8)]),
    "C35": P("htools", "Random records of every kind the tools hand to editors, written as text, bytes and values and read back, their fields in any order, beside unknown ones, left out or of another type; compared with their JSON form built beside them. Requests read from such texts; conversions compared field by field.", [N(scale=12)], [N(scale=40)]),
    "C36": P("hcore", "All pairs of pieces from a vocabulary of words, signs, blanks and several-byte characters, random lists of them, random characters and long texts, pushed one by one, through copies and through nested sources; compared with a model over the whole text.", [N(scale=16)], [N(scale=40)]),
    "C37": P("hmac", "A fixed set of macro calls that uses every form of the grammar, with random texts, numbers, flags, options, lists, values and documents embedded; the values compared with ones built by hand, the order of evaluation with the order written, the documents, printed at several widths, with a reference printer.", [N(scale=4)], [N(scale=20)]),
}
