"""Property texts.  gen.py turns this and specs.py into properties.jsonl and MANIFEST.json."""
P = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), na=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, na=na)


prop('P01', 'Instruction wire format: encoding and decoding are mutually inverse',
     'Encoding any bytecode instruction produces exactly the documented wire form (opcode byte, little-endian operands in order, jump operands with their fixed bias), and decoding those bytes yields the same instruction, bit for bit, consuming exactly those bytes. '
     'Any byte string either decodes to an instruction that re-encodes to the bytes consumed (a breakpoint flag byte is normalised to 0/1) or is rejected with an error; truncated instructions and unknown opcodes are always errors and no input makes the codec panic.',
     ['inputs'], 'every opcode with every value of every operand; every byte string',
     'The tests round-trip a handful of hand-written instructions; operand-order swaps, wrong widths or wrong biases in the 100 other opcodes, and overflow at extreme jump offsets, are invisible to them.',
     ['core/src/bytecode.rs', 'core/src/decode.rs', 'core/src/encode.rs'],
     [('one match arm per opcode, mirrored in both directions', 'core/src/bytecode.rs Decode/Encode for Instr<Offset>')])

prop('P02', 'Code size accounting and body framing',
     'The length recorded in front of a function body equals the sum of the virtual sizes of its instructions (pool references count as 8 bytes in virtual size while taking 4 on disk), for bodies of any length. '
     'Decoding a body of a given recorded length yields exactly the instructions whose accumulated virtual size reaches it, consumes exactly their bytes and leaves what follows untouched, so encode-then-decode is the identity on bodies.',
     ['inputs', 'programs'], 'every sequence of instructions',
     'Tests only check two small fixed bodies; a wrong size of a rare instruction or an off-by-one in the framing loop shows only in bodies that contain it.',
     ['core/src/bytecode.rs'],
     [('per-instruction virtual size', 'core/src/bytecode.rs Instr::size'), ('length-prefixed loop', 'core/src/bytecode.rs Decode/Encode for Code')])

prop('P03', 'Jump targets: relative/absolute conversion and label resolution',
     'For every pair of code locations the relative offset from one to the other, applied back, gives the original location; no pair panics. '
     'Resolving labels replaces every label operand of an instruction by the distance from that instruction to the label\'s target and leaves the opcode and every other operand unchanged.',
     ['inputs', 'programs'], 'all pairs of 16-bit locations; every opcode with arbitrary operands and label targets',
     'Existing tests never resolve labels in isolation; a swapped label pair or a dropped operand in one of the jumping opcodes appears only in compiled programs that use that construct.',
     ['core/src/bytecode.rs'],
     [('wrapping location arithmetic', 'core/src/bytecode.rs Location::relative, Offset::absolute'), ('per-opcode rebuild', 'core/src/bytecode.rs Instr::resolve_labels')])

prop('P04', 'Code cursor: positions, seeking and ranges follow instruction boundaries',
     'Walking a body yields its instructions in order, each at the location equal to the sum of the virtual sizes before it, then reports end of code. '
     'Seeking succeeds exactly for locations that are instruction boundaries (or the end) and lands on that instruction, and a range yields exactly the instructions that start inside it; any other location is an error that never panics and leaves the cursor where it was.',
     ['inputs', 'programs'], 'every body, starting position and target location',
     'The decompiler tests walk a few compiled snippets; boundary conditions (seeks to the end, backwards, into the middle of an instruction, empty ranges) are not sampled.',
     ['core/src/bytecode.rs'],
     [('location-tracking cursor', 'core/src/bytecode.rs CodeCursor::pop/seek_abs/seek_rel/range'), ('iterator over bodies', 'core/src/bytecode.rs Code::iter')])

prop('P05', 'Primitive values, strings and lists have one exact binary form',
     'Every integer, boolean, float, fixed array, index, timestamp, NUL-terminated or length-prefixed string and list is written in its documented little-endian form and read back unchanged (floats bit for bit), consuming exactly the bytes written. '
     'Truncated data, unterminated or non-UTF-8 strings and prefixes pointing past the end of the input are errors; nothing panics.',
     ['inputs'], 'all values of all primitive types, all short byte strings, all prefixes',
     'No test exercises the primitive codec directly; boundary lengths, sign handling and truncation are reached only through one happy-path bundle.',
     ['core/src/decode.rs', 'core/src/encode.rs', 'core/src/bundle.rs'],
     [('byteorder based primitives', 'core/src/decode.rs, core/src/encode.rs'), ('prefixed strings and vectors', 'DecodeExt/EncodeExt'), ('timestamp bit fields', 'core/src/bundle.rs Timestamp')])

prop('P06', 'Definition bodies: encoding and decoding are mutually inverse for every kind',
     'For every definition (type, class, enum, enum value, function, parameter, local, field, source file) with any contents, the encoded body has exactly the documented layout, with presence flags that agree with the optional parts actually stored, and decoding it gives the definition back while consuming exactly that body. '
     'Any byte string either decodes to a definition that survives its own encoding or is rejected with an error. Each flag accessor reads its documented bit and unknown flag bits are preserved.',
     ['inputs'], 'every definition value of every kind; every short byte string as a body',
     'Tests reload one shipped bundle and compare only the number of definitions; optional parts that bundle does not use (hints, overrides, operators, casts, extra parameters) are never round-tripped.',
     ['core/src/definition.rs', 'core/src/bundle.rs'],
     [('conditional parts driven by flag bits', 'core/src/definition.rs Decode/Encode for Function, Class, Field'), ('flag words', 'core/src/definition.rs bitfields')])

prop('P07', 'Loading and saving a bundle preserves everything in it',
     'Loading a well-formed script bundle gives every string of every table and every definition at its index with its name, parent and contents; saving it and loading the result gives the same again, and saving twice gives identical bytes. '
     'A bundle in canonical layout is reproduced byte for byte, whatever the output stream contained before.',
     ['inputs', 'histories'], 'every bundle: header fields, string tables (including shared, overlapping and unordered text), definitions of every kind',
     'The only test compares the number of definitions after one reload of one file.',
     ['core/src/bundle.rs', 'core/src/definition.rs'],
     [('table by table loader', 'core/src/bundle.rs ConstantPool::decode'), ('string deduplication and offset patching', 'core/src/bundle.rs ConstantPool::encode')],
     [('definitions', 'indexed definition table, slot 0 reserved', 'core/src/bundle.rs ConstantPool')])

prop('P08', 'A saved bundle is internally consistent and canonical',
     'After any edits, the saved file\'s header records for every table its true position, element count and checksum, every definition header records its true position, size and type, string references point at exactly that text stored once, and the header checksum covers the header. '
     'Consequently the file is the unique canonical layout of the edited contents and is accepted by the loader.',
     ['inputs', 'histories'], 'every sequence of pool edits with arbitrary contents followed by a save',
     'Nothing in the tests reads the checksums, offsets or sizes back: the loader itself ignores most of them, but the game does not.',
     ['core/src/bundle.rs', 'core/src/io.rs'],
     [('table headers built while writing', 'core/src/bundle.rs ConstantPool::encode, TableHeader::new'), ('offset-tracking writer', 'core/src/io.rs StreamOffset')])

prop('P09', 'The loader rejects malformed bundles cleanly',
     'For any input bytes (wrong magic, truncated or corrupted files, arbitrary table sizes, bad tags) loading either returns an error or a pool that can be inspected, saved and reloaded without change; it never panics, never reads outside its buffers, never loops forever and never asks for memory out of proportion. '
     'Every strict prefix of a valid bundle is rejected.',
     ['inputs', 'fault_sequences'], 'arbitrary byte strings; every single-field corruption and truncation of a valid bundle',
     'No test feeds the loader anything but a valid file.',
     ['core/src/bundle.rs', 'core/src/definition.rs', 'core/src/decode.rs', 'core/src/bytecode.rs'],
     [('checked reads', 'core/src/decode.rs'), ('tag validation', 'core/src/definition.rs, core/src/bundle.rs')])

prop('P10', 'String pools are stable, deduplicated and consistent in both directions',
     'Adding a string to a pool returns its existing index or appends it at the next index; from then on looking up the text gives that index and looking up the index gives that text, and no later addition changes either. '
     'The undefined name always reads as the reserved default and the default always maps to it; indexes outside the pool are errors.',
     ['histories', 'inputs'], 'every history of additions and lookups on fresh and loaded pools',
     'Tests touch pools only through compilation of fixed snippets.',
     ['core/src/bundle.rs'], [('vector plus reverse map', 'core/src/bundle.rs Strings::add/get/get_index')],
     [('strings/mappings', 'index to text and text to index', 'core/src/bundle.rs Strings')])

prop('P11', 'The definition table is accessed and mutated by index exactly',
     'Typed access to a definition succeeds exactly when the index is inside the table and the definition has that type, and returns that definition; otherwise it is an error. '
     'Adding, reserving, replacing, swapping and renaming change exactly the named entries; iteration visits every entry but the reserved one in index order, roots are exactly those without a parent, and a class\'s first line is the smallest line of its functions.',
     ['histories', 'inputs'], 'every table and every sequence of mutations; every index',
     'Tests use these accessors only on well-typed compiled pools.',
     ['core/src/bundle.rs', 'core/src/definition.rs'], [('typed accessors', 'core/src/bundle.rs ConstantPool'), ('line lookup', 'core/src/definition.rs Definition::first_line')])

prop('P12', 'Re-indexing a pool renames exactly the class and function references',
     'Applying a class and function index mapping to a pool replaces every class reference (class bases, parents of methods and fields, operands that construct, allocate or cast) and every function reference (parents of parameters and locals, static call targets) by its mapped index exactly once. '
     'Everything else, and every index the mapping does not mention, stays unchanged.',
     ['inputs', 'programs'], 'every mapping and every pool, including every instruction',
     'No test covers re-indexing at all.',
     ['core/src/mapper.rs'], [('per-definition and per-instruction rewriting', 'core/src/mapper.rs PoolMapper::map')])

prop('P13', 'Stream handling tolerates short transfers and reports failures',
     'The tracked stream offset always equals the start position plus the bytes actually transferred, for any pattern of short reads, short writes, interruptions and failures of the underlying stream. '
     'Values decoded through short reads are the values decoded from memory, and an encoder that reports success has written all of its bytes.',
     ['fault_sequences', 'inputs'], 'every pattern of partial, interrupted and failing transfers',
     'Tests run on in-memory buffers that never transfer partially.',
     ['core/src/io.rs', 'core/src/decode.rs', 'core/src/encode.rs'], [('offset accounting', 'core/src/io.rs StreamOffset')])

prop('P14', 'Decompiled expressions and statements are what the bytecode says',
     'For every function body made of expression instructions, the decompiler produces exactly the tree the instructions denote: every constant with its exact value, every operand in evaluation order, every call with its target, receiver (this, super, class or object) and arguments, every cast, intrinsic, member, index, constructor and conditional. '
     'Statements keep their order, none is lost or repeated, and every local is declared once, with its type, before it is used.',
     ['inputs', 'programs'], 'every instruction sequence forming expressions and statements, with every operand value',
     'The tests decompile a handful of fixed snippets and compare their text.',
     ['decompiler/src/lib.rs', 'core/src/ast.rs'],
     [('recursive descent over the instruction stream', 'decompiler/src/lib.rs Decompiler::consume'), ('locals to declarations', 'decompiler/src/lib.rs Decompiler::decompiled')])

prop('P15', 'Control flow survives decompilation',
     'For code laid out the way the compiler lays out if, if/else, while, switch (with fallthrough, default, empty and breaking cases), break and return, nested in any way, the decompiled tree contains no goto and behaves like the code: for every outcome of every condition it evaluates the same conditions and executes the same statements in the same order. ',
     ['programs', 'schedules'], 'every structured program and every outcome of its conditions',
     'The tests decompile a few fixed snippets; nesting, early exits and fallthrough combinations are not covered.',
     ['decompiler/src/lib.rs', 'core/src/bytecode.rs'],
     [('jump classification', 'decompiler/src/lib.rs Decompiler::consume, consume_path, BlockContext'), ('switch reconstruction', 'decompiler/src/lib.rs Decompiler::consume_switch')])

prop('P16', 'Decompiled source text reads back as what was decompiled',
     'The text printed for a decompiled body, parsed with the grammar of the language (literals, precedence, associativity, statements), is the decompiled tree again: every constant has its exact value and type suffix, every string its exact contents, every operator its operands in the same grouping, every statement and block its place. '
     'Only chains of one associative logical or bitwise operator may regroup, and only the conversions that the language inserts on its own may be hidden when not verbose.',
     ['inputs', 'programs'], 'every expression and statement tree, every constant value',
     'Tests compare the text of a few snippets; operator and operand combinations and constant values are unbounded.',
     ['decompiler/src/print.rs', 'core/src/ast.rs'],
     [('operator printing', 'decompiler/src/print.rs write_expr, write_call, write_binop'), ('literals', 'decompiler/src/print.rs write_constant')])

prop('P17', 'Printed declarations list exactly what the definition contains',
     'The text printed for a function, class, field, enum, parameter, local or type shows exactly its visibility, its modifiers, its name, its types, its base, its properties and defaults, and its members, parameters and values in order, nothing more and nothing less. '
     'The bytecode listing shows every local and every instruction, in order, at its byte location.',
     ['inputs', 'configurations'], 'every definition with every combination of flags and members',
     'Tests print a handful of definitions with few modifiers.',
     ['decompiler/src/print.rs'], [('definition printing', 'decompiler/src/print.rs write_definition'), ('type names', 'decompiler/src/print.rs format_type')])

prop('P18', 'Decompiling and printing untrusted definitions ends in text or an error',
     'For any function body (arbitrary instructions, operands and jump targets) and any definition whose references are dangling, of the wrong kind or cyclic, decompiling and printing it in any mode either succeeds or returns an error: it never panics, never loops forever and never silently drops instructions that lie beyond the address range.',
     ['inputs', 'fault_sequences'], 'every instruction sequence and every definition graph',
     'Tests decompile only code produced by this compiler.',
     ['decompiler/src/lib.rs', 'decompiler/src/print.rs', 'core/src/bytecode.rs', 'core/src/bundle.rs'],
     [('block bounds and jump checks', 'decompiler/src/lib.rs Decompiler'), ('checked lookups', 'decompiler/src/print.rs')])

prop('P19', 'The file index places every definition in the files that hold its source',
     'Splitting a pool by source file lists each class and each global function exactly once in every file that holds one of its scripted functions and in no other, puts classes and functions without any scripted code and all enums among the orphans, orders each file by first line, and names each file once. '
     'Dangling or mistyped source references are skipped.',
     ['inputs'], 'every arrangement of classes, functions and enums over source files',
     'No test covers the index.',
     ['decompiler/src/files.rs', 'core/src/definition.rs'], [('grouping and ordering', 'decompiler/src/files.rs FileIndex::from_pool, iter'), ('first line', 'core/src/definition.rs Definition::first_line')])

prop('P20', 'Compiled functions do what their source says',
     'For every function the compiler accepts, running the emitted bytecode calls the same native functions with the same arguments in the same order, and returns the same value, as evaluating the source statements and expressions directly, for all parameter values and all results of the native functions. '
     'This covers control flow with break and fall-through, short circuits, defaults of locals, assignment, virtual, static and super calls, constructors, arrays and interpolation.',
     ['programs', 'inputs'], 'every program of the bounded grammar, every parameter and native result',
     'Tests compare the instruction list of some forty snippets; statement and expression combinations are unbounded and nothing executes the code.',
     ['compiler/src/assembler.rs', 'compiler/src/sugar.rs', 'compiler/src/typechecker.rs', 'compiler/src/parser.rs', 'compiler/src/unit.rs', 'compiler/src/transform.rs'],
     [('code generation', 'compiler/src/assembler.rs Assembler::assemble'), ('desugaring', 'compiler/src/sugar.rs Desugar'), ('typing and resolution', 'compiler/src/typechecker.rs TypeChecker::check')])

prop('P22', 'Source text is read exactly as the language defines it',
     'Every literal gets exactly its value and type and is rejected when it does not fit, every string its exact contents with escapes and interpolations, every operator its precedence and associativity, every postfix chain, statement and declaration its parts in order, with exactly the modifiers and annotations written. '
     'White space, line breaks and comments between tokens never change the result.',
     ['inputs', 'programs'], 'every source text of the bounded grammar',
     'Tests parse some twenty snippets; literal limits, operator pairs and separators are unbounded.',
     ['compiler/src/parser.rs', 'core/src/ast.rs'],
     [('PEG grammar with precedence climbing', 'compiler/src/parser.rs lang'), ('escapes and interpolation', 'compiler/src/parser.rs escaped_string')])

prop('P24', 'Accepted programs leave a well-formed pool that saves and reloads unchanged',
     'When the compiler accepts a program, every reference in the resulting pool leads to a definition of the right kind, classes come after their bases, members, parameters and locals belong to their owners and are listed once, every jump and label of every body lands on an instruction, and every body uses only its own locals and parameters. '
     'Saving the pool and loading the file gives the same definitions, and saving again the same bytes.',
     ['programs', 'histories'], 'every accepted program of the bounded grammar, including annotations that change existing classes',
     'Tests inspect the code of one function of each snippet; dangling or duplicated pool entries crash only the game.',
     ['compiler/src/unit.rs', 'compiler/src/assembler.rs', 'compiler/src/transform.rs', 'core/src/bundle.rs'],
     [('definition of classes, functions and fields', 'compiler/src/unit.rs CompilationUnit'), ('label resolution', 'compiler/src/assembler.rs'), ('wrapping and replacing', 'compiler/src/unit.rs compile_function')],
     [('pool.definitions', 'definitions added and replaced while compiling', 'compiler/src/unit.rs')])

prop('P26', 'The compiler answers every source text with code or with diagnostics',
     'For any source text the parser returns a tree or a syntax error, and for any parsed program, however ill-typed or self-contradictory, the compiler returns an accepted program or a diagnostic that can be shown; it never panics, never loops forever and never fails without saying where.',
     ['inputs', 'programs', 'fault_sequences'], 'every short text and every program of the bounded grammar, valid or not',
     'Tests contain about a dozen erroneous programs.',
     ['compiler/src/parser.rs', 'compiler/src/unit.rs', 'compiler/src/typechecker.rs', 'compiler/src/scope.rs', 'compiler/src/assembler.rs', 'compiler/src/cte.rs', 'compiler/src/error.rs', 'compiler/src/diagnostics.rs'],
     [('error propagation', 'compiler/src/error.rs, compiler/src/diagnostics.rs'), ('hierarchy walks', 'compiler/src/scope.rs')])

prop('P27', 'Positions in source files and diagnostics are exact',
     'Every position of every source file maps back to its file, line and column (counted in characters), and the enclosing line is that line, whatever files came before it; declarations and expressions carry the range of text they were parsed from. '
     'Every diagnostic lies within the file it is about and can be displayed.',
     ['inputs', 'programs'], 'every set of files and every position in them; every erroneous program of the bounded grammar',
     'Tests check a few spans in single ASCII files.',
     ['compiler/src/source_map.rs', 'compiler/src/parser.rs', 'compiler/src/diagnostics.rs'],
     [('line table and offsets', 'compiler/src/source_map.rs File::lookup, Files::lookup'), ('offset added to positions', 'compiler/src/parser.rs pos')])

prop('P21', 'The command line of the script compiler is understood exactly',
     'Every option, in any order and combination behind the scripts directory, sets exactly its setting to exactly its value and everything else keeps its default; missing values, unknown or repeated options, bad numbers and missing directories are errors, and no command line panics. '
     'Arguments without quotes are passed on as they are, and a command line written by the game, whose quoted paths may end with a backslash, is put back together into the arguments that were meant.',
     ['inputs', 'configurations'], 'every command line of the stated sizes, every path text',
     'The tests try the combinations of options in one fixed order with one fixed text for each path.',
     ['scc/cli/src/opts.rs'],
     [('option grammar', 'scc/cli/src/opts.rs Opts::get_parser'), ('repair of Windows argument splitting', 'scc/cli/src/opts.rs fix_args')])

prop('P23', 'Wrapped, replaced and added functions act as their annotations say',
     'A wrapper runs instead of the method it wraps wherever that method is called (also from other classes, base calls and existing code), and wrappedMethod inside it calls what it wraps with the given arguments, any number of times; several wrappers nest in the order they are compiled, the last one outermost, around the original or its replacement. '
     'A replacement replaces exactly that method or function, an added method overrides or extends the class, an added field is a field of the class, and everything else behaves as before.',
     ['programs', 'histories', 'inputs'], 'every sequence of changes of the bounded grammar, every parameter and native result, every subclass',
     'Tests compare the instructions of single wrappers; the order and combination of changes by several mods is what users rely on, and nothing executes it.',
     ['compiler/src/unit.rs', 'compiler/src/assembler.rs', 'compiler/src/symbol.rs', 'compiler/src/scope.rs'],
     [('wrapper chains and proxies', 'compiler/src/unit.rs determine_function_location, construct_proxy, finish'), ('replacements', 'compiler/src/unit.rs determine_function_location')],
     [('wrappers, proxies', 'latest wrapper and stand-in of each wrapped function', 'compiler/src/unit.rs CompilationUnit')])

prop('P30', 'The script cache always starts from the original scripts, and keeps them',
     'Whatever runs of the compiler (with its output in place or in a separate file, successful or not), updates of the game and repairs of its files came before, a run compiles the mods against the scripts the game itself installed, writes what a first run on an untouched installation would write, and an intact copy of the original scripts remains on disk. '
     'A failed compilation leaves the scripts of the game alone, scripts that redscript has changed are never taken for original ones, every failed read or write is reported, and a run that was killed or met an I/O error before it opened the cache for writing loses nothing and does not make the next run fail.',
     ['histories', 'crash_points', 'fault_sequences'], 'every history of runs, updates and repairs, with a crash or a failing operation at every step that changes the disk',
     'The repository has no test of this protocol; single runs cannot show what a sequence of runs, updates and interruptions does to the backup.',
     ['scc/lib/src/lib.rs', 'scc/lib/src/timestamp.rs', 'core/src/bundle.rs'],
     [('backup, restore and timestamp protocol', 'scc/lib/src/lib.rs try_compile, try_compile_files'), ('timestamp file', 'scc/lib/src/timestamp.rs CompileTimestamp')],
     [('cache, backup and timestamp files', 'whose scripts the cache holds', 'scc/lib/src/lib.rs')])
