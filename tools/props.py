prop("S01", "Both interpreters agree on every stored image",
     "For every format and every stored image of it, intact or damaged, decoding with location tracking and decoding without it "
     "accept the same images, yield the same value and leave the same input unread. Damage to the stored bytes (truncation, flipped or "
     "overwritten bytes, lost, duplicated, swapped or stale blocks) never makes one of them succeed where the other does not.",
     ["inputs", "fault_sequences", "programs"],
     "all formats built from the combinators, all images of them, all sequences of storage faults applied to the image",
     "The tests decode a few intact files with one interpreter; none compares the two, and none damages an image in between.",
     ["src/decoder.rs", "src/loc_decoder.rs", "src/decoder/value.rs", "src/read.rs"],
     [("two hand-written interpreters over the same compiled program", "Program::run, Program::run_with_loc")],
     observe=["Program::run", "Program::run_with_loc"],
     note="Seeded exploration, no proof: formats come from a seeded generator plus every shipped format; a decoder that unwinds counts as not accepting.")
prop("S02", "Generated decoders agree with the interpreter on every stored image",
     "For every format the code generator supports, the generated decoder compiles and, on every stored image of the format, intact or damaged, "
     "accepts exactly when the interpreter accepts, with the same value and the same number of bytes consumed. This covers code generated from the "
     "current tree as well as the decoder source shipped in the repository.",
     ["inputs", "fault_sequences", "programs"],
     "all formats built from the combinators, all images of them, all sequences of storage faults applied to the image",
     "The tests run the shipped decoder on a handful of intact files and check code generation only for absence of panics on one module.",
     ["src/codegen/mod.rs", "src/codegen/model.rs", "src/codegen/typed_decoder.rs", "src/parser/mod.rs", "src/parser/offset.rs", "src/decoder.rs", "generated/gencode.rs"],
     [("code generation mirrors the interpreter's case analysis", "src/codegen/mod.rs"), ("runtime cursor with a lens stack", "src/parser/offset.rs")],
     observe=["generated Decoder_main", "Program::run"],
     hook="sim_hooks::take_lookahead_fallbacks identifies runs that meet the known lookahead finding",
     note="Seeded exploration: the check generates and compiles code for several hundred vetted random formats and all shipped ones, then simulates storage faults. A decoder that unwinds counts as not accepting. Three findings are listed in known-findings.json.")
prop("S03", "No stored image brings a shipped decoder down",
     "For every shipped format and every stored image, intact or damaged, each decoder of it (plain interpreter, location-tracking interpreter, generated decoder) ends with a value or with an error: "
     "it does not panic, read outside the buffer or go on for ever, and the memory and work it takes stay in proportion to the size of the image (or, for compressed data, to what it can expand to). "
     "Sizes, counts and offsets stored in the image are never trusted before they are checked.",
     ["inputs", "fault_sequences"],
     "all images of all shipped formats, all sequences of storage faults applied to them, stored numbers driven to their extremes included",
     "The tests decode intact files; a count, size or offset that damage makes absurd never occurs in them.",
     ["src/decoder.rs", "src/loc_decoder.rs", "src/read.rs", "src/parser/mod.rs", "src/parser/offset.rs", "src/prelude.rs", "generated/gencode.rs", "doodle-formats/src/format"],
     [("checked reads and slices", "src/read.rs, src/parser/offset.rs"), ("checked subtraction in generated code", "src/prelude.rs try_sub!")],
     observe=["Program::run", "Program::run_with_loc", "generated Decoder_main"],
     note="Seeded exploration under an allocator that counts calls and live bytes. Known findings: arithmetic (and a match without a branch) on absurd numbers panics in the interpreters, and unchecked +, * and pred in generated code; each class is listed, any other panic is reported.")
prop("S04", "The decoding cursor follows its contract over every history",
     "For every buffer (including one cut short) and every well-nested history of operations on the parser that generated decoders run on "
     "(byte and bit reads, skips, alignment, bits-mode, length-limited slices, lookahead and negative lookahead, alternatives abandoned part-way, seeks, "
     "nested views): a read returns the byte or bit at the current position; nothing outside the buffer, the view or the innermost open slice is ever read; an operation that "
     "cannot be satisfied is reported as an error and not as a panic; leaving a lookahead, a failed alternative, a permitted failure or a seek restores exactly the position, the mode and the open limits "
     "that were in force when it was entered; and leaving a slice moves to exactly its end.",
     ["histories", "inputs"],
     "all well-nested operation histories, with a failure at any point, over all buffers and all truncations of them",
     "The tests exercise a few fixed sequences of offset operations; the state space is the stack of open contexts times positions times modes.",
     ["src/parser/mod.rs", "src/parser/offset.rs", "src/parser/view.rs", "src/parser/error.rs"],
     [("stack of lenses that saves and restores offsets", "src/parser/offset.rs ViewStack / BufferOffset"), ("bit reader over the byte cursor", "src/parser/mod.rs")],
     observe=["Parser::read_byte, offset(), remaining(), finish()"],
     note="Seeded exploration against an executable reference model that shares no code with the parser.")
prop("S13", "Bounded readers stay inside their window",
     "For every buffer and every history of reads, splits, sub-scopes, offsets and array accesses, the interpreter's ReadCtxt, the generated decoders' View, and the smallsorts scopes, "
     "contexts and arrays return exactly the big-endian values stored at the requested place, never touch memory outside the window they were given, "
     "and answer a request that does not fit (any length, count, stride or offset up to the largest integer) with an error or None and not with a panic, leaving the reader usable and unmoved.",
     ["histories", "inputs"],
     "all operation histories over all windows, including requests whose size computation overflows",
     "The tests read well-formed values; they do not try counts whose byte size overflows, nor check where the reader stands after a refusal.",
     ["src/read.rs", "src/parser/view.rs", "smallsorts/src/binary/read.rs", "smallsorts/src/binary/mod.rs"],
     [("checked slicing of a base buffer", "ReadScope / ReadCtxt / ReadArray / View")],
     observe=["ReadCtxt, ReadScope, ReadArray, View methods"],
     note="Seeded exploration; the buffer lies between inaccessible pages so an over-read by unsafe code ends the simulated process.")
prop("S14", "Decoding means what the format describes, on every stored image",
     "For every format and every stored image of it, intact or damaged, decoding yields what the format's declarative reading describes: an image is accepted only with a value and an extent "
     "that some reading of the format gives, and where lookahead leaves no choice (one alternative can start with the bytes at hand, a repetition cannot both stop and go on) "
     "it is accepted exactly when that one reading succeeds. Compiling a format to lookahead-driven decoding therefore never changes which images are accepted or what they mean.",
     ["inputs", "fault_sequences", "programs"],
     "all formats built from the combinators, all images of them, all sequences of storage faults applied to the image",
     "The tests compare hand-picked inputs with expected values; whether lookahead, backtracking, slices, seeks and nested contexts compose correctly depends on the whole format and every byte of the image.",
     ["src/decoder.rs", "src/lib.rs", "src/format.rs", "src/loc_decoder.rs", "src/decoder/value.rs"],
     [("compilation of formats to lookahead trees", "Compiler::compile_format, MatchTree::build"), ("expression evaluation and pattern matching", "Expr::eval, Value::matches")],
     observe=["Program::run"],
     note="Seeded exploration: refinement against a list-of-successes reference decoder that shares no code with the format compiler, lookahead trees, interpreters or generator. No verdict where the format computes something undefined (overflow, index out of range) or the reference's budget runs out; both are counted in the evidence.")
prop("S12", "A traced value says where each of its parts was read",
     "For every format and every stored image of it, intact or damaged, every part of the value that the location-tracking decoder returns and that was read from the image (byte, number, tuple, list, "
     "record field, variant, option, slice, seek or view result) carries exactly the range of the buffer from which that part was read, whatever was tried and abandoned before; a part that is only named, projected or "
     "indexed keeps the range it was read from; and no part carries a range from which it was not read.",
     ["inputs", "fault_sequences", "programs"],
     "all formats built from the combinators, all images of them, all sequences of storage faults applied to the image",
     "No test looks at the ranges beyond a handful of simple formats; whether they survive alternatives, slices, seeks and lookahead depends on the whole format and on the image.",
     ["src/loc_decoder.rs", "src/read.rs"],
     [("start and length recorded at each combinator", "src/loc_decoder.rs Decoder::parse_with_loc"), ("ranges of containers accumulated from their parts", "ParseLoc::accum")],
     observe=["Program::run_with_loc", "ParsedValue::get_loc"],
     note="Seeded exploration: the reference decoder of S14 records where it reads; the range of a container that an expression assembles from parts is documented as approximate and is not judged.")
SCHED = "deterministic simulation: seeded token scheduler and hash-seed injection, every result compared with an isolated run, replayable"
PROC = "deterministic simulation: whole programs under a plan-driven I/O shim, seeded search over system-call fault sequences, replayable"
prop("S10", "Every decoded value has the type its format was given",
     "For every format and every stored image of it, intact or damaged, a value that either interpreter returns has the type that the library gives to the format "
     "(the type declared with the module, the type kept in the compiled program and the type that the type checker infers): every number has the width of its type, every record, tuple, list and option "
     "its shape, every variant is one of those of its union; this holds for every alternative, fallback and computed part of the value.",
     ["inputs", "fault_sequences", "programs"],
     "all formats built from the combinators, all images of them, all sequences of storage faults applied to the image",
     "The tests compare a few values with literals and a few inferred types with literals, never the one with the other, and reach few of the alternatives of a format.",
     ["src/lib.rs", "src/valuetype.rs", "src/typecheck.rs", "src/decoder.rs", "src/decoder/value.rs", "src/loc_decoder.rs"],
     [("type inference of formats and expressions", "FormatModule::infer_format_type, Expr::infer_type"), ("constraint-based type checker", "src/typecheck.rs typecheck"), ("evaluation of expressions", "Expr::eval, Value::arith")],
     observe=["Program::run", "Program::run_with_loc", "FormatModule::get_format_type", "Program::decoders", "typecheck"],
     note="Seeded exploration over the formats and images of S14. Parts whose type is left open (Any) are not judged. Two findings are listed: the elements of a range, and stream positions, have a width of their own in the interpreters.")
prop("S05", "Results do not depend on the process's hash seeds",
     "For every format module, type checking it, generating code from it, serialising it and decoding any image with it give, byte for byte, the same result in every process: "
     "nothing that the library returns depends on the random seeds that the standard hash maps draw at start-up. Regenerating a decoder from an unchanged format therefore yields an unchanged source file.",
     ["inputs", "schedules", "programs"],
     "all modules, all operations of the library on them, all values of the hash seeds",
     "A test process draws one set of hash seeds and compares nothing with a second process.",
     ["src/codegen/mod.rs", "src/codegen/name.rs", "src/codegen/typed_format.rs", "src/typecheck.rs", "src/decoder.rs", "src/lib.rs", "src/format.rs"],
     [("hash maps keyed by types, names and formats", "typecheck.rs, codegen/mod.rs, decoder.rs"), ("naming of anonymous types in order of first use", "codegen/name.rs")],
     observe=["generate_code", "typecheck", "serde_json::to_string(&FormatModule)", "Debug output", "Program::run"],
     technique=SCHED,
     note="Seeded exploration: getrandom is interposed, so every simulated process gets hash seeds from the plan; hash maps that are not seeded from getrandom are out of reach.")
prop("S06", "Results do not depend on earlier or concurrent calls",
     "For every history of operations (type check, compile, generate code, serialise, decode with either interpreter, decode with the shipped decoder) performed by any number of threads under any interleaving, "
     "each operation returns exactly what it returns alone in a fresh thread: no call leaves behind state that changes a later call, a failed or panicking call included, modules and programs "
     "can be used again after any of them, and no set of callers blocks for ever.",
     ["histories", "schedules"],
     "all sequences of operations on all modules, on one or several threads, under all interleavings at allocation points",
     "Every test makes one call on a fresh module; state kept between calls (thread locals, caches, interior mutability) shows only in the second.",
     ["src/codegen/mod.rs", "src/decoder.rs", "src/lib.rs", "src/format.rs", "src/read.rs", "src/loc_decoder.rs", "generated/gencode.rs"],
     [("thread-local counters of the code generator", "src/codegen/mod.rs"), ("caches of the compiler", "src/decoder.rs Compiler")],
     observe=["generate_code", "typecheck", "Program::run", "Program::run_with_loc", "doodle_gencode::*::parse"],
     technique=SCHED,
     note="Seeded exploration. Threads change only at allocation calls; the reference for each operation is the same operation alone on a fresh thread.")
prop("S07", "What the tool writes is complete or the run fails",
     "For every command of the doodle tool (format, file, type-check, census, in all their output modes) and every behaviour of its output (short and interrupted writes, a full or failing device, a closed pipe): "
     "short and interrupted writes are absorbed and the output is byte for byte what an undisturbed run prints; an output that could not be written in full makes the run end with a failure status, "
     "what did get written is a prefix of the undisturbed output, and the run ends.",
     ["fault_sequences", "inputs"],
     "all commands on all formats and sample inputs, all sequences of write results",
     "The tests never run the built program, and nothing in them makes a write fail.",
     ["doodle-formats/src/main.rs", "src/output/tree.rs", "src/output/flat.rs", "src/output.rs", "src/codegen/mod.rs"],
     [("printing the whole result to standard output", "doodle-formats/src/main.rs"), ("writers that stream a tree or a flat listing", "src/output/*.rs")],
     observe=["standard output and exit status of the program"],
     technique=PROC,
     note="Seeded exploration of the real built binary; writes are decided by an LD_PRELOAD shim. A status of 0 with missing output is the violation; the text of the error is not judged.")
prop("S08", "The tool decodes exactly the bytes it was able to read",
     "For every command that decodes a file and every behaviour of that file (short and interrupted reads, a stale size, a read or open error, a file that shrinks or changes while it is read, any damage to its content): "
     "if the run succeeds it prints exactly what an undisturbed run prints for a file that holds the bytes the reads delivered; if the bytes could not all be delivered the run fails, prints no value, and ends.",
     ["fault_sequences", "inputs"],
     "all decodable sample inputs and damage to them, all output modes, all sequences of read, open and stat results",
     "The tests decode buffers in memory; reading is never disturbed.",
     ["doodle-formats/src/main.rs", "src/read.rs"],
     [("reading the input file into a buffer", "doodle-formats/src/main.rs")],
     observe=["standard output and exit status of the program"],
     technique=PROC,
     note="Seeded exploration of the real built binary; the shim records which bytes it delivered, and the reference run decodes precisely those.")
prop("S09", "Writing generated code never destroys a file it should not",
     "For every destination given to `format --output rust --dest` and every state of the file system (a file, a directory, a link, nothing there, something appearing at the last moment, failing stat, open and write calls): "
     "an existing file whose name does not mark it as generated code, and every directory, is left untouched and the run fails; a run that reports success has left the complete generated code at the destination, "
     "a run that could not write it all fails, and no other file is changed.",
     ["fault_sequences", "crash_points"],
     "all destinations, all states of the file system around them, all sequences of system-call results, a kill at any call",
     "No test writes generated code to a file, let alone while calls fail or files appear.",
     ["doodle-formats/src/main.rs"],
     [("refusal to overwrite", "doodle-formats/src/main.rs print_generated_code")],
     observe=["files below the working directory after the run, exit status"],
     technique=PROC,
     note="Seeded exploration of the real built binary inside a scratch directory; a crash in the middle of a write may leave a partial new file, which the tool does not promise to avoid.")
prop("S11", "One bad file never affects the others in a batch",
     "For every list of files given to the analysis tools (pnginfo, elfinfo, rle_info, fontinfo), whatever is wrong with some of them (unreadable, failing or short reads, damaged content, wrong extension): "
     "the report on each file is exactly the report that the tool gives for it alone, in order, a file that cannot be analysed is reported as such, and the tool goes through the whole list and ends with success.",
     ["fault_sequences", "inputs"],
     "all batches of intact and damaged sample files, all sequences of open and read results for each of them",
     "The tests do not run these programs.",
     ["generated/bin/pnginfo.rs", "generated/bin/elfinfo.rs", "generated/bin/rle_info.rs", "generated/bin/fontinfo.rs", "generated/api_helper/otf_metrics.rs"],
     [("a loop over the files that catches each error", "generated/bin/*.rs")],
     observe=["standard output, standard error and exit status of the programs"],
     technique=PROC,
     note="Seeded exploration of the real built binaries. Known findings: fontinfo's table metrics panic on some malformed fonts and abort the batch.")

# Properties on which no schedule, fault, history or stored image has any bearing.
prop("N01", "Byte sets obey set algebra",
     "For all byte sets, union, intersection, difference, complement, membership, cardinality, iteration and conversion agree with the same operations on sets of the numbers 0 to 255.",
     ["inputs"], "all byte sets", "2^256 sets; the tests try a few.",
     ["src/byte_set.rs"], [("four words of 64 bits", "ByteSet")],
     na="A pure function of its arguments: no scheduling, time, I/O, storage, crash or multi-party behaviour for a simulator to drive. (Sets met while decoding are compared with the reference decoder under S14.)")
prop("N02", "Printed expressions read back as the expression they were printed from",
     "For every format and expression, the text printed by the format printer is parenthesised so that it denotes the tree it was printed from, and no two different trees are printed alike.",
     ["inputs"], "all expression trees", "The tests print a few expressions.",
     ["src/precedence.rs", "src/output/tree.rs"], [("precedence levels", "src/precedence.rs")],
     na="A pure function from a tree to a string, without any state, fault or interleaving to simulate; that what is printed reaches the output complete is S07.")
prop("N03", "Bounds of an expression or format contain every value it can take",
     "For every expression and format, the numeric bounds computed for a count, a length or a match width contain every value that evaluation can produce.",
     ["inputs"], "all expressions and formats", "The tests sample a few intervals.",
     ["src/bounds.rs", "src/lib.rs"], [("interval arithmetic", "Bounds")],
     na="Interval arithmetic is a pure function and the claim quantifies over values and not over executions; where bounds change what a decoder does, S14 and S02 judge the decoding.")
prop("N04", "An ill-typed module is refused",
     "For every module, a format or expression that has no type is rejected when it is defined, type checked or compiled, with an error.",
     ["programs"], "all ill-typed modules", "The tests contain a handful of them.",
     ["src/lib.rs", "src/typecheck.rs"], [("unification", "ValueType::unify, TypeChecker")],
     na="A static judgement about a module, made once and without storage, schedule or history; that what is accepted is then well behaved on every stored image is S10 and S14.")
