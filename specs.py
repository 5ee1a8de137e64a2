"""Which harness runs decide which property, with bounds.  Job keys: h harness, p parameters, cover required
reachability witnesses, thorough only in the thorough tier, big run alone on all cores, t time limit (s)."""
NUM_OPS = [i for i in range(104) if i not in (21, 51)]


EXPR_OPS = [i for i in range(104) if i not in (0, 21, 23, 27, 28, 29, 30, 31, 32, 33, 38, 51)]


def J(h, *p, **k):
    return dict(h=h, p=list(p), **k)


SPECS = {
    'P01': dict(
        jobs=[J('h_instr_wire', cover=NUM_OPS), J('h_instr_any', cover=[1, 2, 3, 4]), J('h_instr_short'), J('h_breakpoint')]
        + [J('h_profiling', n) for n in (0, 1, 2, 3, 200, 255, 256, 300)],
        bounds='every opcode, every operand value; arbitrary 24-byte input; every truncation; profiling names up to 3 arbitrary bytes, plus lengths 200/255/256/300 with 4 arbitrary ASCII bytes',
        outside='profiling names of other lengths / contents',
    ),
    'P02': dict(
        jobs=[J('h_size', cover=NUM_OPS), J('h_code_rt', 0), J('h_code_rt', 1), J('h_code_rt', 2), J('h_code_rt', 3, thorough=True, big=True, t=1200),
              J('h_code_any', 1, cover=[1, 2], big=True), J('h_code_any', 2, cover=[1, 2], big=True, t=300),
              J('h_code_big', 10), J('h_code_big', 4000), J('h_code_big', 8000, thorough=True), J('h_code_profiling')]
        + [J('h_profiling', n) for n in (0, 3, 255, 256, 300)],
        bounds='size of every opcode with arbitrary operands; bodies of <=2 (thorough: 3) instructions drawn from all 13 operand shapes with arbitrary operands; arbitrary 11-byte bodies with declared size <=2; bodies of 10/4000 (8000) instructions (up to 136000 accounted bytes); bodies with one profiling (name <=5 bytes) and one breakpoint instruction',
        outside='longer arbitrary instruction mixes; declared sizes >2 of arbitrary bytes',
    ),
    'P03': dict(
        jobs=[J('h_loc_rel'), J('h_resolve', cover=NUM_OPS)],
        bounds='every pair of 16-bit locations; every opcode, arbitrary operands, three arbitrary label targets, arbitrary instruction location',
        outside='more than 3 labels (labels are table lookups)',
    ),
    'P04': dict(
        jobs=[J('h_cursor_seek', k, cover=[1, 2]) for k in (0, 1, 2)] + [J('h_cursor_walk', k) for k in (0, 1, 2)]
        + [J('h_cursor_range', 0, cover=[1, 3]), J('h_cursor_range', 1, cover=[1, 2, 3]), J('h_cursor_range', 2, cover=[1, 2, 3])]
        + [J('h_cursor_rel', 1), J('h_cursor_rel', 2), J('h_cursor_long', 40, cover=[1, 2]), J('h_cursor_long', 200, cover=[1, 2])]
        + [J('h_cursor_seek', 3, cover=[1, 2], thorough=True, big=True, t=1500), J('h_cursor_walk', 3, thorough=True, big=True, t=1500),
           J('h_cursor_range', 3, cover=[1, 2, 3], thorough=True, big=True, t=2400), J('h_cursor_rel', 3, thorough=True, big=True, t=1500)],
        bounds='bodies of <=2 (thorough: 3) instructions of all 13 operand shapes with arbitrary operands and every 16-bit location/offset; two fixed mixed bodies of 40 and 200 instructions with every 16-bit location',
        outside='other long bodies; bodies beyond 64 KiB of accounted size',
    ),
    'P05': dict(
        jobs=[J('h_prim', cover=list(range(13))), J('h_prim_short', cover=list(range(13))), J('h_bool_any'), J('h_timestamp'), J('h_plist')]
        + [J('h_cstring', n, cover=[1, 3] if n == 1 else [1, 2, 3]) for n in (1, 2, 3, 5)] + [J('h_cstring', 7, cover=[1, 2, 3], thorough=True, big=True)]
        + [J('h_pstring', n, cover=[1, 3] if n == 0 else [1, 2, 3]) for n in (0, 1, 2, 4)] + [J('h_pstring', 6, cover=[1, 2, 3], thorough=True, big=True)],
        bounds='every value of every primitive type and every truncation; NUL-terminated buffers up to 5 (thorough 7) arbitrary bytes; length-prefixed strings (8/16/32-bit prefix, any prefix value) over up to 4 (6) arbitrary bytes; lists up to 3 arbitrary elements with every truncation',
        outside='longer strings and lists',
    ),
    'P06': dict(
        jobs=[J('h_def_rt', k, 1) for k in (0, 2, 3, 6, 7, 9)] + [J('h_def_rt', k, 2) for k in (1, 3)] + [J('h_def_rt', 5, 1, big=True), J('h_def_rt', 8, 1, big=True), J('h_def_class'), J('h_def_tag', cover=[1, 2])]
        + [J('h_def_any', 1, 24, cover=[1, 2]), J('h_def_any', 5, 32, cover=[1, 2], big=True), J('h_def_any', 9, 18, cover=[1, 2]), J('h_def_any', 3, 15, cover=[1, 2])]
        + [J('h_def_rt', 5, 2, thorough=True, big=True, t=900), J('h_def_rt', 8, 2, thorough=True, big=True, t=900), J('h_def_rt', 1, 3, thorough=True, big=True, t=900), J('h_def_any', 8, 18, cover=[1, 2], thorough=True, big=True, t=900)],
        bounds='every definition kind with arbitrary field values and flag words; lists of <=1 element (classes/enums 2; thorough 2-3), strings of <=3 bytes, function bodies of <=2 instructions; arbitrary bytes (15-32) as class/enum/function/source-file/field bodies',
        outside='longer lists and strings; functions that are neither native nor have a source reference; cast values on non-cast functions',
    ),
    'P07': dict(
        jobs=[J('h_bundle_rt', k, 1) for k in (100, 0, 1, 2, 3, 4, 9)] + [J('h_bundle_rt', 100, 2), J('h_bundle_rt', 8, 0, big=True), J('h_bundle_rt', 5, 0, big=True)]
        + [J('h_bundle_alias', 3), J('h_bundle_defaults'), J('h_bundle_seek'), J('h_bundle_many', 60), J('h_bundle_many', 3), J('h_bundle_many', 1000, thorough=True, big=True, insts=2_000_000_000, t=1800), J('h_bundle_alias', 5, thorough=True, big=True, t=1800)],
        bounds='bundles with arbitrary header fields, arbitrary strings of <=2 bytes in two table slots, one arbitrary definition of each kind plus a local; string tables sharing, overlapping and reordering their text (3 arbitrary references, thorough 5); absent tables; 3 and 60 (1000) names/definitions; overwriting streams of 5 lengths from 4 positions',
        outside='other sizes and shapes; strings containing NUL; bundles without any definition slot',
    ),
    'P08': dict(
        jobs=[J('h_bundle_edit', k, 1) for k in (2, 3, 6, 7, 9)] + [J('h_bundle_edit', 0, 1, big=True), J('h_bundle_edit', 1, 1, big=True), J('h_bundle_edit', 8, 0, big=True), J('h_bundle_rt', 1, 1), J('h_bundle_rt', 100, 2), J('h_bundle_many', 60)]
        + [J('h_bundle_edit', 5, 0, thorough=True, big=True, t=2400), J('h_bundle_edit', 8, 1, thorough=True, big=True, t=2400)],
        bounds='a bundle edited by adding an arbitrary string (<=2 bytes, possibly already present) to each table and adding, replacing, swapping or renaming a definition of any kind (functions: thorough tier) with arbitrary contents, then saved; compared byte for byte with an independently written canonical file (offsets, counts, checksums, sizes)',
        outside='longer edit histories; the checksum polynomial itself (crc32fast is trusted)',
    ),
    'P09': dict(
        jobs=[J('h_magic', cover=[1, 2]), J('h_load_any', 60, cover=[2]), J('h_load_any', 108, cover=[1, 2]), J('h_load_tables', 4, cover=[1, 2]), J('h_load_trunc'),
              J('h_load_tables', 8, cover=[1, 2], big=True), J('h_load_corrupt', 4, 4, 0, 1, cover=[1, 2], big=True, bounded_ok=True), J('h_load_corrupt', 1, 1, 0, 1, cover=[1, 2], big=True, bounded_ok=True), J('h_load_corrupt', 2, 2, 0, 1, cover=[1, 2], big=True, bounded_ok=True)]
        + [J('h_def_short', k) for k in (0, 1, 2, 3, 6, 7, 9)] + [J('h_def_any', 4, 6, cover=[2]), J('h_def_any', 0, 9, cover=[1, 2]), J('h_instr_short')]
        + [J('h_def_short', 5, thorough=True, big=True, t=900), J('h_def_short', 8, thorough=True, big=True), J('h_load_tables', 12, cover=[1, 2], thorough=True, big=True, t=3000), J('h_load_corrupt', 4, 1, 0, 1, cover=[1, 2], thorough=True, big=True, bounded_ok=True, t=3000)],
        bounds='arbitrary inputs of 60 and 108 bytes; arbitrary table headers over arbitrary tails of 4/8 (thorough 12) bytes; a rich valid bundle with any 1, 2 or aligned 4 (thorough: unaligned) bytes replaced by arbitrary values, and every truncation of it; truncated definitions of every kind',
        outside='several simultaneous corruptions; allocations larger than 6 GiB are violations, time and memory below that are not measured',
    ),
    'P10': dict(
        jobs=[J('h_strings', k, cover=[2] if k == 1 else [1, 2]) for k in (1, 2, 3)] + [J('h_strings_names', k, cover=[2] if k == 1 else [1, 2]) for k in (1, 2, 3)] + [J('h_strings_loaded', 1, cover=[1, 2]), J('h_strings_default', 4, cover=[1, 2]), J('h_strings_default', 3, cover=[2]), J('h_strings_default', 5, cover=[2])]
        + [J('h_strings', 4, cover=[1, 2], thorough=True, big=True, t=1800), J('h_strings_loaded', 2, cover=[1, 2], thorough=True, big=True, t=1800)],
        bounds='every history of <=3 (thorough 4) insertions of arbitrary ASCII strings of <=2 bytes into an empty or loaded pool, every index afterwards',
        outside='longer strings; name pools whose slot 0 is not reserved; hash function (equality decides)',
    ),
    'P11': dict(
        jobs=[J('h_pool_get', 1, cover=[1, 2]), J('h_pool_get', 2, cover=[1, 2]), J('h_pool_iter', 1), J('h_pool_iter', 2), J('h_pool_mut', 1, 1), J('h_pool_mut', 2, 1, big=True), J('h_pool_mut', 1, 2), J('h_first_line', cover=[1, 2])]
        + [J('h_pool_get', 3, cover=[1, 2], thorough=True, big=True), J('h_pool_iter', 3, thorough=True, big=True), J('h_pool_mut', 2, 2, thorough=True, big=True, t=1800)],
        bounds='pools of <=2 (thorough 3) definitions of arbitrary kinds, names, parents; every 32-bit index; every sequence of <=2 mutations',
        outside='larger pools (accessors are table lookups)',
    ),
    'P12': dict(
        jobs=[J('h_mapper', k) for k in (0, 1, 2, 3, 6, 7, 8, 9)] + [J('h_mapper_instr', cover=NUM_OPS), J('h_mapper_one', cover=[0, 1, 2]), J('h_mapper', 5, big=True)],
        bounds='mappings of 2 arbitrary class and 1 arbitrary function entries; one definition of every kind with arbitrary contents; bodies holding every instruction with arbitrary operands',
        outside='larger mappings and pools',
    ),
    'P13': dict(
        jobs=[J('h_stream_write', cover=[1, 2]), J('h_stream_read', cover=[1, 2]), J('h_faulty_read', 0), J('h_faulty_read', 1), J('h_faulty_read', 2), J('h_faulty_write', cover=[1, 2])],
        bounds='every sequence of short transfers (1-3 bytes), interruptions and failures over the first 4-5 calls of the underlying stream, for arbitrary values',
        outside='longer fault sequences',
    ),
    'P14': dict(
        jobs=[J('h_dec_expr', 0, cover=EXPR_OPS), J('h_dec_stmts', 2), J('h_dec_expr', 1, cover=EXPR_OPS, big=True), J('h_dec_stmts', 3, big=True),
              J('h_dec_expr', 1, 1, cover=EXPR_OPS, thorough=True, big=True, t=1200), J('h_dec_stmts', 4, thorough=True, big=True, t=1200)],
        bounds='every expression instruction with arbitrary operands, nested two deep at every operand position, parameter noise (skip markers) at depth one (thorough: two); bodies of <=3 (thorough 4) statements of 6 kinds with every subset of 3 locals',
        outside='deeper nesting (the reader is compositional); one fixed pool of referenced definitions',
    ),
    'P15': dict(
        jobs=[J('h_flow_switch', 1, 3, 1, 5), J('h_flow_default', 3, 2, 4)]
        + [J('h_flow_switch', 2, 2, 2, 4, big=True), J('h_flow', 3, 3, 4, 254, big=True), J('h_flow', 3, 2, 5, 127, big=True), J('h_flow', 4, 3, 3, 111, big=True), J('h_flow', 4, 3, 3, 178, big=True)]
        + [J('h_flow', 4, 3, 3, 55, thorough=True, big=True, t=900), J('h_flow', 4, 3, 3, 122, thorough=True, big=True, t=900), J('h_flow', 4, 3, 3, 254, thorough=True, big=True, t=2400),
           J('h_flow', 4, 3, 4, 127, thorough=True, big=True, t=2400), J('h_flow', 5, 3, 3, 111, thorough=True, big=True, t=2400)],
        bounds='every structured program of <=3 statements (4 without switch, or without while and plain branches; thorough: 4-5), nesting <=3, switches of <=3 cases, followed for the first 3-5 condition outcomes',
        outside='larger programs; code not produced by the compiler (P17); a break nested in the default of a switch whose cases do not break is a known finding',
    ),
    'P16': dict(
        jobs=[J('h_print_const'), J('h_print_expr', 1, 1), J('h_print_num', 6, 12), J('h_print_num', 6, 12, 1), J('h_print_num', 7, 10, 1), J('h_print_num', 11, 10), J('h_print_num', 10, 10),
              J('h_print_flow', 3, 3, 255, big=True), J('h_print_expr', 2, big=True)]
        + [J('h_print_expr', 2, 1, thorough=True, big=True, t=1800), J('h_print_flow', 4, 3, 255, thorough=True, big=True, t=1800), J('h_print_num', 6, 14, thorough=True, big=True, t=900)],
        bounds='every expression kind with every kind of operand nested two deep (at the first, thorough: every position), verbose and not; every constant instruction with distinguished values (zero, extremes, shortest and longest floats) and, for integers, every value of up to 10-12 (thorough 14) bits and its negation; strings and names with quotes, escapes, line breaks and non-ASCII text; every structured program of <=3 (thorough 4) statements',
        outside='non-finite floats (no literal exists); deeper nesting; arbitrary wide integers and floats; numbers as receivers of member accesses; regrouping of chains of one associative operator and of hidden reference conversions, which do not change the meaning',
    ),
    'P17': dict(
        jobs=[J('h_decl_func', 0), J('h_decl_func', 1), J('h_decl_func', 2), J('h_decl_class'), J('h_decl_field', 0), J('h_decl_field', 1), J('h_decl_enum'), J('h_decl_local'), J('h_decl_code', 1), J('h_decl_code', 2)]
        + [J('h_decl_func', 3, thorough=True), J('h_decl_code', 3, thorough=True, big=True)],
        bounds='functions, classes, fields, enums, parameters, locals and types with arbitrary flag words, every visibility, every type constructor, <=2 (thorough 3) parameters, fields, methods, locals, <=3 enum members, <=2 properties and defaults; listings of <=2 (thorough 3) instructions of every opcode',
        outside='longer lists; the exact white space; operand formatting inside listings',
    ),
    'P18': dict(
        jobs=[J('h_tot_expr', cover=[1, 2]), J('h_tot_ops', 1, cover=[1, 2]), J('h_tot_long', 10), J('h_tot_long', 8000, cover=[2]), J('h_tot_long', 10, 1), J('h_tot_long', 8000, 1, cover=[2]),
              J('h_tot_def', 1, cover=[1, 2], big=True), J('h_tot_code', 4, 1, cover=[1, 2], big=True), J('h_tot_code', 4, 1, 1, cover=[1, 2], big=True), J('h_tot_code', 1, cover=[1, 2], big=True)]
        + [J('h_tot_def', 2, 0, k, cover=[1, 2], thorough=True, big=True, t=1200) for k in (2, 5, 6, 7, 8)]
        + [J('h_tot_ops', 2, cover=[1, 2], thorough=True, big=True, t=2400), J('h_tot_code', 5, 1, 1, cover=[1, 2], thorough=True, big=True, t=1200)],
        bounds='every body of <=4 (thorough 5) control flow instructions with any jump offset within 30 bytes or at the extremes; every single (thorough: pair of) arbitrary instruction with references to anything; operator and conversion calls with <=3 arguments; every definition kind with any one (thorough: two) of its 25 references leading anywhere, in every output mode; bodies up to 72000 bytes',
        outside='deeply nested input (recursion depth and exponential time are not bounded by the decompiler); longer arbitrary bodies',
    ),
    'P19': dict(
        jobs=[J('h_files', 1), J('h_files', 2), J('h_files_any'), J('h_files', 3, big=True)] + [J('h_files', 4, thorough=True, big=True, t=2400)],
        bounds='every arrangement of <=3 (thorough 4) classes of <=2 functions, functions and enums over two source files with arbitrary lines; dangling and mistyped source references',
        outside='more definitions and files',
    ),
    'P20': dict(
        c=True,
        jobs=[J('h_sem_literals', viol=30), J('h_sem_expr', 1, 3, 65535, cover=[1], big=True), J('h_sem_flow', 2, 2, 511, 3, cover=[1, 2], big=True),
              J('h_sem_expr', 2, 3, 1, cover=[1, 2], big=True), J('h_sem_expr', 2, 3, 2048, cover=[1], big=True)]
        + [J('h_sem_expr', 2, 3, 1 << k, cover=[1], thorough=True, big=True, t=1800) for k in range(1, 16) if k != 11]
        + [J('h_sem_flow', 3, 2, m, 2, cover=[1], thorough=True, big=True, t=1800) for m in (0b1001111, 0b11010111, 0b111100001)],
        bounds='functions of <=2 (thorough 3) statements nested two deep (calls, declarations, if, while, switch of <=2 cases, for-in, return, break, conditional), followed for <=3 loop iterations and 12 effects; '
               'every expression of 1 (argument position and for-in: 2, thorough: 2 in all 16 statement contexts) levels over integers, booleans, strings, arrays, structs and objects (operators, short circuits, conditionals, calls with optional arguments, static and virtual methods, super calls, fields, elements, array literals, string interpolation, intrinsics); arbitrary parameter values and native results',
        outside='larger programs; an array literal that is not evaluated first in its statement (known finding); names, casts, modules and annotations (other properties)',
    ),
    'P22': dict(
        c=True,
        jobs=[J('h_parse_int', 4 if k == 0 else 3, k, neg, cover=[2, 3] if neg and k > 1 else [1, 3]) for k in range(4) for neg in (0, 1)]
        + [J('h_parse_float', 1, 2, 0), J('h_parse_float', 2, 1, 1), J('h_parse_float', 2, 2, 0), J('h_parse_escape', 4)]
        + [J('h_parse_string', 3, k) for k in range(5)] + [J('h_parse_ident', 1), J('h_parse_ident', 2)]
        + [J('h_parse_ops', 2, 0, 0), J('h_parse_ops', 2, 1, 0), J('h_parse_ops', 1, 1, 1), J('h_parse_post'), J('h_parse_layout', 0, 119), J('h_parse_stmts', 1), J('h_parse_stmts', 2, big=True), J('h_parse_decl')]
        + [J('h_parse_escape', 6, thorough=True, big=True), J('h_parse_ops', 3, 0, 0, thorough=True, big=True), J('h_parse_ops', 2, 1, 1, thorough=True, big=True, t=600)]
        + [J('h_parse_string', 4, k, thorough=True, big=True, t=600) for k in range(5)],
        bounds='integer literals of all four types with any 3-4 final digits behind prefixes that reach every limit, negated or not; decimals of <=4 digits; string, name, resource, tweak and interpolated literals of 3 (thorough 4) arbitrary ASCII bytes, \\u{} escapes of 4 (6) arbitrary bytes; identifiers of <=2 arbitrary bytes; '
               'every pair (thorough: triple) of the 22 binary operators with unary and conditional operands; every postfix chain; every pair of statement forms nested in every block; every declaration form with every modifier, any visibility, parameters and annotations; any separator (blank, line break, comment) between any two tokens of one program that uses every construct',
        outside='longer literals and deeper nesting; non-ASCII text; separators before type arguments and inside dotted paths, which the grammar does not allow',
    ),
    'P23': dict(
        c=True,
        jobs=[J('h_ann', 1, 0, 6, 16383, cover=[1, 2]), J('h_ann', 1, 1, 6, 16383, cover=[1, 2]), J('h_ann', 1, 2, 6, 16383, cover=[1, 2]), J('h_ann', 3, 0, 2, 0b101),
              J('h_ann', 2, 0, 3, 16383, big=True), J('h_ann', 2, 2, 2, 4095, big=True)]
        + [J('h_ann', 2, 0, 6, 16383, cover=[1, 2], thorough=True, big=True, t=2400), J('h_ann', 3, 0, 2, 0b1010111, thorough=True, big=True, t=2400), J('h_ann', 2, 2, 4, 16383, thorough=True, big=True, t=2400)],
        bounds='a class, a subclass and a global function of an earlier compilation, changed by every sequence of <=2 (three on two methods, thorough: on four) wrappers, replacements and added overrides of virtual, final, static, overloaded and void methods, whose bodies call what they wrap never, once '
               'or twice, return early or use an added field (thorough: in pairs), in one source, several sources or several compilations with saving and loading in between; every parameter, native result and both classes of receiver',
        outside='longer sequences; two replacements of one function (a conflict the compiler reports); a replacement in a later compilation discards wrappers of an earlier one, which it cannot tell from the original',
    ),
    'P24': dict(
        c=True,
        jobs=[J('h_ctot_decl', 0, 0, 0, cover=[1, 2, 3, 4]), J('h_ctot_stmt', 1, 0, cover=[3]), J('h_ctot_expr', 1, 0, 1023, 0, 0, cover=[3]), J('h_ctot_wrap', 0, cover=[3], big=True), J('h_ctot_wrap', 1, cover=[3], thorough=True, big=True, t=900)]
        + [J('h_ctot_stmt', 2, 0, cover=[3], thorough=True, big=True, t=2400)],
        bounds='a game with classes, a struct and an enum, compiled with each of ~190 declarations (classes, enums, functions, fields, annotations of every kind, modules, imports) combined with each of 5 uses, each of ~80 (thorough: pairs of) statements in 4 blocks, every expression of one level in 10 contexts, and every ordered pair of 66 annotated declarations (thorough: also as two successive compilations)',
        outside='larger programs; definitions the game file contains but no source mentions',
    ),
    'P26': dict(
        c=True,
        jobs=[J('h_ctot_decl', 0, 0, 1, cover=[1, 2, 3, 4]), J('h_ctot_stmt', 1, 1), J('h_ctot_stmt', 1, 2), J('h_ctot_expr', 1, 0, 1023, 1, 0, cover=[2, 3]), J('h_ctot_expr', 1, 0, 1023, 0, 1, cover=[2, 3])]
        + [J('h_ctot_text', *q, cover=[1, 2]) for q in ((3, 0), (3, 1), (4, 2), (4, 3), (4, 4), (3, 5), (4, 6), (4, 7), (3, 8))]
        + [J('h_ctot_expr', 16382, 0, 1, 0, 0, cover=[2, 3], big=True, t=300)]
        + [J('h_ctot_text', *q, cover=[1, 2], thorough=True, big=True, t=900) for q in ((4, 0), (4, 1), (5, 3), (6, 4), (4, 5), (4, 8))]
        + [J('h_ctot_pair', k, k + 20, cover=[2, 3], thorough=True, big=True, t=900) for k in range(0, 180, 20)],
        bounds='every arbitrary ASCII text of 3-4 (thorough: 4-6) bytes at top level, as statement, expression, class body, annotation argument, in strings, interpolations, escapes and comments (parser only); each of ~190 declarations (thorough: pairs) with 5 uses, with and without a root class; each of ~80 statements in 4 blocks of 3 kinds of functions; every expression of two levels over 30 forms, ill-typed ones included',
        outside='longer texts; larger programs; running time; recursion depth (deeply nested sources can exhaust the stack)',
    ),
    'P27': dict(
        c=True,
        jobs=[J('h_map_lookup', 3, 2, cover=[1]), J('h_map_files', cover=[1]), J('h_ctot_decl', 0, 0, 0, cover=[1, 2, 3, 4]), J('h_ctot_stmt', 1, 0, cover=[2]), J('h_ctot_expr', 1, 1, 1023, 0, 0, cover=[2])]
        + [J('h_map_lookup', 3, 3, cover=[1], thorough=True, big=True, t=1800)],
        bounds='every two (thorough: three) files of <=3 characters each (letters, line breaks, multi-byte characters) and every range of <=2 bytes in them; sources of three files behind 3 prefixes; every diagnostic of the programs of P24 lies inside its file and can be displayed',
        outside='longer files; the wording of messages; which construct a diagnostic points at inside the file',
    ),
    'P21': dict(
        m='o',
        jobs=[J('h_opts', 1, 1), J('h_opts', 1, 3, cover=[1, 2]), J('h_opts', 2, 1), J('h_opts', 3, 0, cover=[1, 2]), J('h_opts_bad'), J('h_opts_any', 2, cover=[1, 2]),
              J('h_fix', 1, 3, cover=[1, 2]), J('h_fix', 2, 3, cover=[1, 2]), J('h_fix', 3, 2, cover=[1, 2]), J('h_fix', 4, 1, cover=[1, 2]), J('h_fix_plain', 3, 2), J('h_fix_any', 2, 3), J('h_fix_any', 3, 2),
              J('h_opts', 4, 0, cover=[1, 2], big=True)]
        + [J('h_fix', 2, 4, cover=[1, 2], thorough=True, big=True, t=900), J('h_fix', 3, 3, cover=[1, 2], thorough=True, big=True, t=1800), J('h_fix', 4, 2, cover=[1, 2], thorough=True, big=True, t=900),
           J('h_opts_any', 3, cover=[1, 2], thorough=True, big=True, t=900), J('h_opts', 2, 2, thorough=True, big=True, t=1800), J('h_fix_any', 3, 3, thorough=True, big=True, t=900)],
        bounds='every ordered choice of <=4 of the 12 options with fixed values, of 2 with any 1-character (thorough: 2) values, of 1 with any 3-character values; 8 kinds of invalid command lines with any 2-character text; any <=2 (thorough 3) arguments; command lines as the game writes them with <=4 arguments, each an option or a quoted path of any <=3 characters (4 arguments: 1; thorough: 2) that may end with a backslash; any 3 arguments of <=2 characters or 2 of <=3',
        outside='more or longer arguments; non-ASCII text; paths with two blanks in a row (the Windows splitting loses the second); help output',
    ),
    'P30': dict(
        m='p',
        jobs=[J('h_cache', 3, 783, 8, 0), J('h_cache', 2, 1039, 8, 0, cover=[1, 2]), J('h_cache', 2, 313, 14, 1, viol=100000), J('h_cache', 2, 1023, 14, 0, big=True, t=400)]
        + [J('h_cache', 5, 783, 8, 0, thorough=True, big=True, t=1800), J('h_cache', 3, 1023, 14, 0, thorough=True, big=True, t=3000)],
        bounds='every history of 2 events and a final run (without interruptions: 3; thorough: 3 and 5) among: a run of two sets of mods in place, a run with errors, a run to a separate file, an update of the game, a repair of its files, and runs in place or separate with a crash or one failing call at any of the steps that change the disk (there are at most 14); a crash cuts a write in the middle; loss of backup and timestamp after a run',
        outside='the order in which a disk makes writes durable; partial writes of <=16 bytes; two modifications of a file with the same modification time; concurrent runs (file lock); custom cache files, legacy file names and user hints; Windows path rules',
    ),
}
