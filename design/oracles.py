O = {
'P01': ('An independent table of all 104 opcodes and their operands (`isa.rs`), written from the format, builds the expected bytes of a symbolic instruction; encode must equal it, decode must give the instruction back; arbitrary bytes are decoded and re-encoded.', 'An operand of one opcode, one extreme offset or one flag byte is enough to go wrong; no test has most opcodes at all.'),
'P02': ('Virtual sizes from the same table; bodies of symbolic instructions are encoded, the prefix compared with the sum, decoded and compared, with trailing bytes that must stay unread.', 'Sizes of rare instructions and bodies beyond 64 KiB occur in no test.'),
'P03': ('Arithmetic modulo 2^16 as the wire format has it; for labels the table names which operands are jumps, and an instruction with three symbolic label targets at a symbolic location must come out with exactly the distances.', 'All 2^32 pairs of locations are one query.'),
'P04': ('Prefix sums of the sizes of symbolic instructions; seek/walk/range compared against them for every 16-bit argument.', 'Boundaries are values, not samples.'),
'P05': ('Explicit little-endian byte assembly in the harness for every primitive; string/list rules stated directly.', 'Every value, every truncation.'),
'P06': ('`p_defs.rs` contains an independent writer of every definition kind (layout + presence flags); encode must equal it byte for byte and decode must give back every field.', 'Optional parts and flag words combine to far more shapes than the one bundle in the tests.'),
'P07': ('An independent bundle writer (`wire.rs`, `p_bundle.rs`) lays out a canonical file from symbolic contents; load must give every part, save must reproduce the file.', 'Sharing and overlapping of strings, kinds of definitions and stale stream contents are inputs, not cases.'),
'P08': ('The canonical file of the edited contents, computed by the independent writer; the saved file must be that file, checksums included (computed over the stated ranges with the stand-in CRC on both sides).', 'The loader ignores most of what is checked here, so no round trip test can see it.'),
'P09': ('No panic, no endless loop, no out-of-bounds access, no allocation above 6 GiB on any path; what is accepted must save and reload to the same.', 'Corruptions are symbolic values over whole header fields and definition bodies.'),
'P10': ('A list of strings as the model; after each history every index and every text is looked up.', 'Histories and texts are symbolic, including near misses of the reserved default.'),
'P11': ('A plain table as the model; every accessor compared at a symbolic 32-bit index.', 'All indexes and kinds at once.'),
'P12': ('The table of operands marks which ones are class or function references; only those may change, by the mapping, once.', 'No test maps anything.'),
'P13': ('A scripted stream whose every transfer (length, interruption, failure) is symbolic; bytes counted by the stream itself.', 'Schedules of short transfers are the input.'),
'P14': ('`dec.rs` generates the code of a symbolic expression together with the tree it denotes (targets, receivers, casts, operators resolved from a fixed pool of definitions); the decompiled tree must equal it.', 'Each opcode at each operand position with each value.'),
'P15': ('A structured program is drawn by symbolic choices, laid out by a reference code generator (the compiler\'s layout), decompiled, and both the program and the decompiled tree are executed side by side with symbolic condition outcomes: the traces must be equal and no goto may remain.', 'Combinations of nesting, early exit and fall-through; the checks found five defects the tests miss.'),
'P16': ('An independent tokenizer and precedence parser for the language reads the printed text back; the tree must be the printed one.', 'Operator × operand combinations and constants; the checks found five defects.'),
'P17': ('An independent renderer of each declaration from its flags, compared token by token (white space apart).', 'Every combination of flags at once.'),
'P18': ('No panic, no endless loop, no stack exhaustion on any path; results beyond the address range must be errors.', 'Hostile jump offsets and references are symbolic.'),
'P19': ('The placement rule stated directly over the generated pool; the index is compared entry by entry.', 'Arrangements are symbolic.'),
'P20': ('A symbolic choice draws a program as a tree; `lang.rs` prints it as source (for the real compiler) and interprets it (reference semantics of the language); `vm.rs` executes the emitted bytecode. Parameters and results of native calls are symbolic. The traces of effects and the results must be equal.', 'Nothing in the tests executes code; the check found three defects and one that is recorded.'),
'P21': ('The options of the documented usage text with their meanings, applied to a symbolic choice, order and value of options; for the repair of quoting, a model of the Windows argument splitter produces what the process receives from the command line that was meant.', 'Orders, repeats and path texts are inputs; the check found one defect.'),
'P22': ('The expected tree is constructed next to the text: value from the digits (128-bit arithmetic), decoded escapes, precedence table; the parsed tree must be that tree.', 'Limits of literals, pairs of operators, every place a separator can stand; one defect found.'),
'P23': ('A model keeps, per function, the original or replaced body and the list of wrappers; the model and the compiled pool (run by `vm.rs`) are driven by the same program and must produce the same effects, arguments and results.', 'Orders and combinations of changes are the input; code compiled earlier must see the change too.'),
'P24': ('A verifier of pools (`c_pool.rs`): kinds of references, order, ownership, uniqueness, labels on instruction boundaries, operands of each instruction; then save, load, compare, save.', 'A dangling reference crashes only the game; no test looks.'),
'P26': ('No panic/endless loop/stack exhaustion in parser, resolver, type checker, code generator; every outcome is an accepted pool or a diagnostic that can be displayed; internal errors count as violations.', 'Arbitrary text is symbolic bytes; four defects found.'),
'P27': ('Lines and columns counted by the definition from the text; spans of parsed items compared with where the generator placed them; each diagnostic located in its file.', 'Symbolic file contents with multi-byte characters and line breaks.'),
'P30': ('`scc_lib::compile` (the whole crate, unmodified, on the unmodified standard library) runs on a model of the file system that replaces the C library calls (`vfs.rs`); histories, crash points and failing calls are symbolic choices. After each event: an intact copy of the original scripts exists; a successful run wrote exactly what a first run on an untouched installation writes (computed by running the same code there); nothing that failed is reported as a success.', 'Every history with an interruption at every step. Found four defects, three repaired; the fourth is recorded.'),
}
COST = dict(P01=12, P02=37, P03=9, P04=13, P05=30, P06=32, P07=55, P08=115, P09=93, P10=24, P11=28, P12=38, P13=25, P14=41, P15=197, P16=69, P17=37, P18=117, P19=49, P20=61, P21=76, P22=70, P23=90, P24=128, P26=138, P27=61, P30=110)
