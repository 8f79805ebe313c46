# ---------------------------------------------------------------- FFI runtime
prop("C01", "Shared values are released exactly once, after their last use",
 "A reference-counted runtime value stays intact for as long as any thread holds a reference to it, and its payload is destroyed and its memory released exactly once, when the last reference is dropped. "
 "For values that were made shareable between threads this holds under every interleaving of clones, drops and reads, and every access to the payload happens-before its destruction. Static values are never counted, changed or released.",
 ["schedules", "histories"], "every history of clone/drop/read/share operations and every thread interleaving of them, including the memory orderings the code requests",
 "Unit tests clone and drop one value at most twice on one thread; no test runs two threads on one value, and a missing fence or a wrong sentinel count shows only in particular interleavings or counts.",
 ["lib/ffi/src/arc/arc_block.rs", "lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_buffer.rs", "lib/ffi/src/string.rs"],
 [("single signed counter: >=0 unsynchronized, <0 synchronized, isize::MIN static", "lib/ffi/src/arc/arc_block.rs"),
  ("release decrement + acquire fence before destruction", "lib/ffi/src/arc/arc_block.rs (drop)")],
 [("count", "number of references, sign = thread-shared", "lib/ffi/src/arc/arc_block.rs")],
 ["Arc::{new,clone,drop,deref,synchronize}, ByteString/ArcBuffer", "global allocator", "atomic operations (hook)"],
 "instrumented atomics under cfg(pen_verif)")
prop("C02", "In-place mutation is possible only for the sole holder of a value",
 "Mutable access to the contents of a reference-counted value or byte buffer never lets one reference change what another existing reference observes. "
 "A request for in-place access on a non-empty heap value succeeds exactly when the caller's reference is the only one, whether or not the value was made shareable between threads, and never succeeds for static values.",
 ["schedules", "histories"], "every history of clone/drop/mutate/share operations on aliased references, and every interleaving of those on shared values",
 "Tests look at one clone on one thread; aliasing after several clones and drops, after synchronization, or through the buffer interface is never observed.",
 ["lib/ffi/src/arc/arc_block.rs", "lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_buffer.rs"],
 [("uniqueness test on the counter", "lib/ffi/src/arc/arc_block.rs (is_unique/get_mut)")],
 [], ["Arc::get_mut, ArcBuffer::as_slice_mut, contents read through other references"], "instrumented atomics under cfg(pen_verif)")
prop("C03", "Type-erased values and closures keep, type and release their payload",
 "A value converted to the dynamic `any` type can be taken back (by value or by reference) only as the very type it was made from, with the same contents; asking for any other type is refused without affecting the value. "
 "Copying and dropping dynamic values and closures copies and destroys the captured payload so that every payload instance is destroyed exactly once.",
 ["histories", "programs"], "every sequence of wrap, clone, downcast (right and wrong type, by value, by reference, by mutable reference) and drop on values of several payload sizes, and closures with captured environments",
 "The tests wrap and clone each fixture once and never attempt a wrong-type conversion or count destructor runs over a history.",
 ["lib/ffi/src/any.rs", "lib/ffi/src/type_information.rs", "lib/ffi/src/closure.rs", "lib/ffi-macro/src/any.rs", "lib/ffi-macro/src/into_any.rs"],
 [("per-type information record with clone/drop functions, compared by identity", "lib/ffi-macro/src/any.rs"), ("drop function in closure metadata", "lib/ffi/src/closure.rs")],
 [], ["Any::{from, clone, drop}, TryFrom<Any>/<&Any>/<&mut Any>, Closure::{new, clone, payload, into_opaque}"])
prop("C04", "The continuation stack returns every value unchanged, last in first out",
 "Whatever mix of values of different sizes is pushed on a continuation stack, with any positive initial capacity, popping them in reverse order of types yields exactly the bit patterns pushed, however often the stack has grown in between. "
 "Memory of the stack is released once when it is dropped.",
 ["histories"], "every interleaving of pushes and pops of values of mixed sizes and of alignments up to 8 over growth boundaries, from every positive initial capacity",
 "Tests push one or two values of one type; nothing pushes past a growth boundary with live data of mixed sizes underneath.",
 ["lib/ffi/src/cps/stack.rs"],
 [("byte stack with size rounding and doubling growth", "lib/ffi/src/cps/stack.rs")],
 [("size", "bytes in use", "lib/ffi/src/cps/stack.rs"), ("capacity", "bytes allocated", "lib/ffi/src/cps/stack.rs")],
 ["Stack::{new,push,pop}, AsyncStack deref"])
prop("C05", "Asynchronous stacks enforce the suspend / resume / restore protocol",
 "An asynchronous stack accepts suspend, trampoline, resume and restore only in protocol order: a suspension is followed by exactly one resume and then exactly one restore before the next suspension, a trampoline by exactly one resume. "
 "An out-of-order request is answered with an error naming the action that was expected; accepted requests give back exactly the future, step function, continuation and value that were stored, and a resolved value is handed out exactly once.",
 ["histories"], "every sequence of suspend/trampoline/resume/restore/resolve/push/pop requests, legal or not up to the first refused one, with and without an execution context",
 "Tests exercise four fixed sequences of at most three requests, a single one of them illegal.",
 ["lib/ffi/src/cps/async_stack.rs", "lib/ffi/src/cps/async_stack_action.rs", "lib/ffi/src/cps/error.rs"],
 [("expected-action list validated on each request", "lib/ffi/src/cps/async_stack.rs")],
 [("next actions", "actions the stack will accept next", "lib/ffi/src/cps/async_stack.rs")],
 ["AsyncStack::{suspend,trampoline,resume,restore,resolve,resolved_value,run_with_context,context}"])
prop("C06", "Bridging futures and continuations delivers every result exactly once",
 "A future turned into a runtime closure, a runtime closure or function awaited as a future, and any nesting of the two, runs its computation exactly once and completes with exactly the value produced, whatever number of times it is suspended and in whatever order wake-ups and polls happen. "
 "A computation that can make progress has its waker invoked (no lost wake-up), and arguments and intermediate values are neither lost, duplicated nor leaked when it completes.",
 ["schedules", "histories"], "every pattern of pending/ready polls, early, late, repeated and spurious wake-ups, nesting depths and argument types",
 "Tests await immediately ready computations or a single suspension under one executor; spurious polls, several suspensions and nested bridges are never run.",
 ["lib/ffi/src/future/call.rs", "lib/ffi/src/future/call_function.rs", "lib/ffi/src/future/from_closure.rs", "lib/ffi/src/future/from_function.rs", "lib/ffi/src/future/to_closure.rs", "lib/ffi/src/future/stream.rs", "lib/ffi/src/cps/import.rs", "lib/ffi/src/runtime.rs"],
 [("trampoline kept across polls", "lib/ffi/src/future/*.rs"), ("result goes through a woken trampoline", "lib/ffi/src/future/to_closure.rs")],
 [], ["poll results, waker calls, drop counters"])
prop("C07", "Foreign-function bindings pass arguments and results through faithfully",
 "A Rust function exported with the binding attribute, synchronous or asynchronous, returning a plain value, nothing or a result, is called exactly once per call with exactly the arguments given, in order, and its caller receives exactly the value it returned; success and failure of a result are told apart and carry their value. "
 "Values converted between native and runtime representations (strings, numbers, booleans, lists, errors) survive the round trip unchanged.",
 ["inputs", "programs"], "all argument counts, parameter and result types, and sync/async variants, with arbitrary argument values",
 "Tests only check that the attribute compiles on a few signatures or call one variant with one value.",
 ["lib/ffi-macro/src/bindgen.rs", "lib/ffi-macro/src/utilities.rs", "lib/ffi/src/extra/result.rs", "lib/ffi/src/string.rs", "lib/ffi/src/boolean.rs", "lib/ffi/src/number.rs", "lib/ffi/src/error.rs", "lib/ffi/src/list.rs"],
 [("generated extern wrapper", "lib/ffi-macro/src/bindgen.rs")], [], ["calls through the generated symbols"])
prop("C08", "Spawn, race and yield preserve every element and every list's order",
 "Racing a list of lists yields a lazy list that contains every element of every inner list exactly once, keeps the relative order of elements of the same inner list, and ends exactly when all inner lists have ended, whatever the pace of the producers and of the consumer. "
 "A spawned computation starts without being awaited, runs once, and every request for its result returns the result it produced.",
 ["schedules", "histories"], "all numbers and lengths of inner lists (more elements than any internal buffering included), producer delays, consumer pauses and worker interleavings",
 "No unit test covers concurrency at all; the feature tests check the first elements of tiny lists.",
 ["packages/os/ffi/application/src/concurrency.rs", "lib/ffi/src/future/stream.rs"],
 [("bounded channel merged from one task per inner list", "packages/os/ffi/application/src/concurrency.rs")], [], ["elements read from the raced list, spawn side effects"])
# ---------------------------------------------------------------- language front end
prop("C09", "The parser builds the tree that the grammar assigns to a program",
 "For every program of the language (modules with imports, foreign imports, type definitions and aliases, foreign exports and definitions; all types, statements, expressions and literals) parsing succeeds and yields exactly the abstract syntax the grammar assigns to the text: operator precedence and left associativity, call, field, `?` and prefix binding, union and function types, list, map, record and comprehension forms, names and literal values. "
 "White space and comments between tokens never change the tree.",
 ["programs", "inputs"], "every derivation of the grammar up to a size bound, rendered with varying layout, spacing and comments",
 "Tests pin a fixed list of snippets, mostly one construct at a time; combinations of nested constructs and layouts are unbounded.",
 ["lib/parse/src/parser.rs", "lib/parse/src/operations.rs", "lib/parse/src/lib.rs", "lib/parse/src/combinator.rs", "lib/ast/src"],
 [("recursive-descent combinators", "lib/parse/src/parser.rs"), ("operator reduction by priority", "lib/parse/src/operations.rs")],
 [], ["pen_parse::parse -> pen_ast::Module"])
prop("C10", "Text outside the grammar is rejected as a whole",
 "Parsing a text that the grammar does not derive (a missing, extra or misplaced token, a keyword or ill-formed name where a name is required, an unterminated literal, an unknown escape, trailing text) reports a syntax error and never yields a tree, a crash or an endless loop. "
 "The reported error position lies inside the text.",
 ["inputs"], "every text obtained from a derivation by token deletion, duplication, insertion, replacement or truncation that no longer derives",
 "Tests contain a handful of invalid snippets.",
 ["lib/parse/src/parser.rs", "lib/parse/src/error.rs", "lib/parse/src/lib.rs"],
 [("all_consuming module parser, keyword check on identifiers", "lib/parse/src/parser.rs")], [], ["pen_parse::parse -> Err(ParseError)"])
prop("C11", "Comments and source positions are reported exactly",
 "Collecting comments from a program text returns every comment of the text exactly once, in order, with its text and position, and nothing that is not a comment (a `#` inside a string literal is none). "
 "Every position reported for a syntax element or comment names the line and column where that element starts and quotes that source line.",
 ["inputs", "programs"], "every program and comment placement the generator can render, including strings that contain comment characters",
 "Position equality is deliberately vacuous in the tests (all positions compare equal), so no test looks at positions of parsed elements; comment tests use a few lines.",
 ["lib/parse/src/parser.rs", "lib/parse/src/combinator.rs", "lib/parse/src/lib.rs", "lib/position/src"],
 [("position taken from the input span", "lib/parse/src/parser.rs (position)"), ("comment scanner skipping string literals", "lib/parse/src/parser.rs (comments)")],
 [], ["pen_parse::parse_comments, Position of every AST node"])
prop("C12", "Formatting never changes the meaning of a program",
 "Formatting any program yields a text that parses again and denotes the same program: the same imports (possibly reordered), definitions, types, statements and expression structure. "
 "This includes the grouping of operators, calls, field accesses and unions that the source expressed with parentheses.",
 ["programs"], "every program of the grammar up to a size bound, with any layout and comments",
 "Tests compare the output for a fixed list of inputs and never parse the output again.",
 ["lib/format/src/lib.rs", "lib/format/src/context.rs"],
 [("parenthesisation by operator priority", "lib/format/src/lib.rs")], [], ["parse(format(parse(text)))"])
prop("C13", "Formatting keeps every comment, once and in its place",
 "Every comment of a program occurs in the formatted text exactly once, with the same text, still as a comment, and comments keep their relative order except for moves caused by the sorting of imports. "
 "No comment ever swallows program text or ends up inside a string.",
 ["programs"], "every program up to a size bound with comments at token boundaries: between definitions, statements, arguments, elements, fields and operands (in an operation that spans lines, at most one comment per statement shares a line with code)",
 "Tests place one or two comments at chosen spots of small snippets.",
 ["lib/format/src/lib.rs", "lib/format/src/context.rs"],
 [("comments drained in line order while printing", "lib/format/src/context.rs")], [], ["parse_comments(format(text))"])
prop("C14", "Formatting is a fixed point",
 "Formatting an already formatted program returns the same text, byte for byte, and texts that differ only in the amount of horizontal white space between tokens format to the same text. "
 "Formatted text ends with exactly one newline and has no trailing white space.",
 ["programs"], "every program up to a size bound with any layout and comments (comments outside types, and types on one line where there are comments)",
 "Tests run the formatter once per snippet.",
 ["lib/format/src/lib.rs", "lib/format/src/context.rs"],
 [("canonical layout rules driven by line breaks of the source", "lib/format/src/lib.rs")], [], ["format(format(text))"])
prop("C15", "Generated documentation lists exactly the public interface",
 "Documentation generated for a package lists exactly its public modules (minus those named private), and in each exactly the public types and public definitions with their declared types, in a stable order; nothing private appears. "
 "Each entry carries exactly the comment block that directly precedes its definition, and the module the comment block at its top.",
 ["programs", "configurations"], "every set of modules with public and private names, types, records, comments and private-name lists",
 "Tests cover small modules with at most one or two definitions each.",
 ["lib/doc/src/lib.rs", "lib/doc/src/ir.rs", "lib/doc/src/markdown.rs"],
 [("name publicity test and comment lookup by position", "lib/doc/src/lib.rs")], [], ["generate() output text"])
# ---------------------------------------------------------------- standard packages (native parts)
prop("C16", "String operations agree with the sequence-of-characters meaning",
 "Length, slicing, searching, splitting, joining, replacing, trimming, prefix and suffix tests on strings, by byte, by UTF-8 character and on string views, return what their definition on the sequence of bytes or characters says, with one-based inclusive indices, for every string and every index, in or out of range. "
 "Invalid UTF-8 and out-of-range requests give the documented neutral result and never abort the program.",
 ["inputs"], "all strings over a small alphabet of 1- to 4-byte characters and invalid bytes up to a length bound, all index pairs including fractional, negative, zero and too large ones",
 "Tests use a few ASCII samples; multi-byte, invalid and boundary combinations are not enumerated.",
 ["packages/core/ffi/src/string.rs", "packages/core/ffi/src/string/byte.rs", "packages/core/ffi/src/string/utf8.rs", "packages/core/ffi/src/string/builder.rs", "packages/core/ffi/src/view.rs"],
 [("index clamping and conversion to byte offsets", "packages/core/ffi/src/string/utf8.rs")], [], ["results of the exported functions"])
prop("C17", "Number, bit and character conversions are faithful",
 "Converting a number to text and back gives the same number; parsing accepts exactly well-formed numbers; rounding, remainder and bit operations satisfy their arithmetic definitions, and the conversions between code points and characters are mutually inverse and refuse what is no character. "
 "No argument aborts the program.",
 ["inputs"], "numbers of all magnitudes and signs, halves, bit patterns and shift counts, all code-point boundaries",
 "Tests check one or two samples per function.",
 ["packages/core/ffi/src/number.rs", "packages/core/ffi/src/bit.rs", "packages/core/ffi/src/character.rs"],
 [("direct mapping to native arithmetic", "packages/core/ffi/src/*.rs")], [], ["results of the exported functions"])
prop("C18", "Equality, ordering of keys and hashing are consistent",
 "Built-in equality of strings and numbers is reflexive on ordinary values, symmetric and exact; equal values hash equally, and the hash of a value does not depend on how it was built. "
 "String concatenation yields exactly the bytes of its parts in order, and slot indices taken from a hash at successive levels use successive, disjoint groups of its bits.",
 ["inputs", "histories"], "all pairs of short strings and boundary numbers, all levels, all ways to build a string",
 "Tests compare a few values.",
 ["packages/prelude/ffi/src/lib.rs"], [("bitwise hashing", "packages/prelude/ffi/src/lib.rs")], [], ["results of the exported functions"])
prop("C19", "File operations behave like operations on a byte-array file system",
 "Opening, reading (to the end or with a limit), writing, copying, moving, removing and inspecting files through the asynchronous and the synchronous OS packages behave as the same operations on a model file system of named byte arrays with one cursor per open file: open options are honoured exactly, reads return the bytes at the cursor and advance it, writes put exactly the reported number of given bytes, sizes are exact, and failures are reported as errors and change nothing. "
 "Both packages give the same results.",
 ["histories", "configurations", "fault_sequences"], "every sequence of file operations over a few names and handles, all combinations of open options, missing and existing files, directories in place of files",
 "The packages have no unit tests for files; feature tests run single operations.",
 ["packages/os/ffi/library/src/file.rs", "packages/os/ffi/library/src/open_file_options.rs", "packages/os/ffi/library/src/utilities.rs", "packages/os-sync/ffi/library/src/file.rs", "packages/os-sync/ffi/library/src/open_file_options.rs", "packages/os-sync/ffi/library/src/utilities.rs", "packages/os/File.pen", "packages/os-sync/File.pen"],
 [("thin layer over native files", "packages/os/ffi/library/src/file.rs")], [("cursor", "position of an open file", "native file handle")], ["results of the exported functions, directory contents afterwards"])
prop("C20", "Directory and process-environment operations match a model",
 "Creating, removing and listing directories keep a model directory tree exactly: a listing names precisely the present entries, creation and removal succeed only where possible and report errors otherwise. "
 "Arguments, environment variables and clock readings are those of the process, and sleeping takes at least the time given. Running a command hands it exactly the given arguments, and a command that cannot be run is reported as an error. Standard input is read in order without loss up to its end, standard output and error receive exactly the bytes reported as written, and exiting gives the code. The asynchronous and synchronous packages agree.",
 ["histories"], "every sequence of directory operations over a small tree and of environment reads",
 "No unit tests exist for these functions.",
 ["packages/os/ffi/library/src/directory.rs", "packages/os/ffi/library/src/environment_variable.rs", "packages/os/ffi/library/src/process.rs", "packages/os/ffi/library/src/time.rs", "packages/os-sync/ffi/library/src/directory.rs", "packages/os-sync/ffi/library/src/environment_variable.rs", "packages/os-sync/ffi/library/src/time.rs", "packages/os-sync/ffi/library/src/process.rs", "packages/os/ffi/library/src/argument.rs", "packages/os/ffi/library/src/stdio.rs", "packages/os-sync/ffi/library/src/stdio.rs"],
 [("thin layer over native calls", "packages/os/ffi/library/src/directory.rs")], [], ["results of the exported functions"])
prop("C21", "Sockets deliver streams in order and datagrams whole",
 "Bytes written to a TCP stream are read at the other end in order, without loss, duplication or invention, however they are split into writes and limited reads, until end of stream; accepting yields one stream per connection with the peer's address. "
 "A UDP datagram is received whole, with its sender's address, at most once, and failures to connect or bind are reported as errors; the asynchronous and synchronous packages agree.",
 ["histories", "schedules"], "every interleaving of connect, accept, send, receive and close over a few sockets, and all payload splits",
 "No unit tests exist for sockets.",
 ["packages/os/ffi/library/src/tcp.rs", "packages/os/ffi/library/src/udp.rs", "packages/os/ffi/library/src/utilities.rs", "packages/os-sync/ffi/library/src/tcp.rs", "packages/os-sync/ffi/library/src/udp.rs", "packages/os-sync/ffi/library/src/utilities.rs"],
 [("thin layer over native sockets", "packages/os/ffi/library/src/tcp.rs")], [], ["results of the exported functions"])
prop("C22", "Test states behave as cells holding the last value written",
 "A test state returns the value most recently written to it through any of its aliases, or its default value if nothing was written; reading does not change it, and different states do not affect each other. "
 "Reads and writes from several threads at once take effect one after the other, each between its call and its return, and a value handed from one thread to another through a state may be used there safely. Every value stored is released exactly once.",
 ["histories", "schedules"], "every history of reads and writes on several aliased states, including concurrent ones",
 "The native part of the test package has no unit tests.",
 ["packages/test/ffi/src/lib.rs", "packages/test/State.pen"],
 [("atomic cell shared by threads", "packages/test/ffi/src/lib.rs")], [("cell", "current value", "packages/test/ffi/src/lib.rs")], ["results of the exported functions", "order of events in recorded executions"])
prop("C23", "JSON texts and JSON values correspond as the JSON grammar says",
 "Decoding gives, for every text that the JSON grammar (RFC 8259) accepts, the value which it denotes (nothing lost, numbers to the nearest floating-point number, escapes resolved, blanks ignored), and an error for every other text. "
 "Encoding gives for every JSON value a text which is well-formed and denotes that value.",
 ["inputs"], "all short texts over the characters which matter to the grammar, edited texts of longer values, and all kinds of nested values",
 "The native part has no unit tests and the tests written in Pen hold a few samples.",
 ["packages/json/Decode.pen", "packages/json/Encode.pen", "packages/json/ffi/src/lib.rs"],
 [("recursive descent over strings, numbers handed to a native library", "packages/json/Decode.pen")], [], ["results of Json'Decode and Json'Encode"])
prop("C24", "HTTP servers and clients exchange requests and responses unchanged",
 "A request sent with the HTTP client reaches the handler of an HTTP server with the same method, path, headers and body, the handler runs once per request, and the client receives exactly the status, headers and body the handler returned. "
 "Connection failures, invalid addresses, invalid methods and invalid headers are reported as errors.",
 ["histories", "fault_sequences"], "all small requests and responses over a few methods, statuses, header sets and bodies, sequences of several requests, and servers that are absent",
 "The HTTP package has no unit tests of the exchange.",
 ["packages/http/ffi/src/client.rs", "packages/http/ffi/src/server.rs", "packages/http/ffi/src/response.rs", "packages/http/ffi/src/header_map.rs"],
 [("translation to and from a native HTTP library", "packages/http/ffi/src/*.rs")], [], ["handler arguments, client results"])
prop("C25", "SQL pools run exactly the statements given and return exact rows",
 "Executing and querying through an SQL pool runs each statement once with its parameters bound in order, and a query returns exactly the rows selected, in order, with every column value and its type (null, number, string) preserved. "
 "Errors of the database are reported as errors and leave the pool usable.",
 ["histories", "inputs"], "every history of create, insert, update, delete and select statements with parameters of all kinds over a small table",
 "The SQL package has no unit tests.",
 ["packages/sql/ffi/src/pool.rs"], [("translation of values to and from the database library", "packages/sql/ffi/src/pool.rs")], [], ["rows returned"])
# ---------------------------------------------------------------- library code written in Pen
prop("C26", "Maps behave as finite functions from keys to values",
 "A map built by any history of insertions, overwrites, deletions and merges, from any earlier version, answers membership, lookup, size, keys, values, equality and iteration exactly as the finite function that the history denotes, however many levels of the trie the hash values of its different keys have in common. "
 "In a map literal, a later entry replaces an earlier one with an equal key, and a map spread into the literal adds only the keys that are not bound by what is written before it. "
 "Earlier versions of a map never change.",
 ["histories", "inputs"], "every history over keys whose hashes collide on any number of levels or fully",
 "No test of the repository runs the map implementation against colliding hashes; feature tests use a few small integer keys.",
 ["packages/prelude/Map.pen", "packages/prelude/ffi/src/lib.rs"],
 [("hash array mapped trie", "packages/prelude/Map.pen")], [("trie nodes", "entries per 5-bit slot", "packages/prelude/Map.pen")], ["results of the map functions"])
prop("C27", "Lists are lazy, persistent sequences",
 "List literals, spreads, comprehensions (several lists, several generators, conditions), size, equality and if-list expressions give the sequences they denote, in every combination and nesting. "
 "Elements and tails are evaluated lazily: at most once, only when needed, and in the order of need.",
 ["histories", "inputs", "programs"], "all small modules which build and consume lists",
 "No test runs these functions without the full compiler.",
 ["packages/prelude/List.pen", "lib/hir-mir/src/list_comprehension.rs", "lib/hir-mir/src/transformation/list_literal.rs", "lib/hir-mir/src/transformation/if_list.rs"],
 [("lazy nodes", "packages/prelude/List.pen")], [], ["values and order of evaluation of compiled modules"])
prop("C28", "Rendered HTML denotes the tree that was rendered",
 "Rendering a tree of elements, attributes and texts gives markup which, read by the rules of HTML, denotes that same tree (`<t/>` standing for an element without children): whatever characters texts and attribute values contain, none of them acts as markup. "
 "Names of elements and attributes that could not be read back as such (empty, or containing blanks, brackets, quotes and the like) give an error.",
 ["inputs"], "all short texts over the characters which matter to HTML as texts, attribute values, attribute names and element names, and random trees",
 "The tests written in Pen hold a few samples; the native part has none.",
 ["packages/html/Render.pen", "packages/html/validate.pen", "packages/html/ffi/src/lib.rs"],
 [("escaping by a native library", "packages/html/ffi/src/lib.rs")], [], ["results of Html'Render"])
prop("C29", "String, byte string and number literals denote their values",
 "Every string literal denotes the characters written between its quotes with each escape sequence (\\\\, \\\", \\n, \\r, \\t, \\xHH) replaced by the byte it stands for, read once from left to right; every number literal (decimal, with a fraction, with a sign where allowed, binary, hexadecimal) denotes the floating-point number nearest to what is written.",
 ["inputs"], "all short literals over the characters which matter to escapes and digits, and random long ones, in every position of a program",
 "The unit tests hold a few samples of single escapes.",
 ["lib/ast-hir/src/string.rs", "lib/ast-hir/src/lib.rs", "lib/parse/src/parser.rs", "lib/ast-hir/src/number.rs"],
 [("literals kept as written until names are resolved", "lib/ast-hir/src/string.rs")], [], ["values of compiled modules"])

prop("C30", "Exactly the well-typed modules are compiled",
 "A module is compiled exactly if it obeys the typing rules of the language: values are only used where a type is expected that includes theirs, operators, field accesses, comprehensions, type tests and calls only on operands of the types they take, type tests cover every possible case once, only comparable types are compared or used as keys, `?` only appears in functions that can give errors, no error is discarded, names are defined and visible (exported by capitals, imported by the module, records open or closed), records get exactly their fields. "
 "Every other module is refused with a diagnostic of the rule it breaks, never with an internal failure of a later stage.",
 ["programs"], "every well-typed and ill-typed module over the language's expressions, types and imports",
 "The repository's tests of these passes look at a few samples per rule, and are not run here; a checker that forgets a rule in one context accepts programs that go wrong.",
 ["lib/hir/src/analysis/type_checker.rs", "lib/hir/src/analysis/type_inferrer.rs", "lib/hir/src/analysis/type_subsumption_checker.rs", "lib/hir/src/analysis/try_operation_validator.rs", "lib/hir/src/analysis/unused_error_validator.rs", "lib/hir/src/analysis/type_difference_calculator.rs", "lib/hir/src/analysis/type_comparability_checker.rs", "lib/ast-hir/src/import.rs", "lib/hir-mir/src/lib.rs"],
 [("HIR and MIR passes", "lib/hir-mir/src/lib.rs")], [], ["acceptance and diagnostics of modules"])
prop("C31", "Compiled modules evaluate as the language defines",
 "Every module that the language's rules accept is compiled, and calling its functions gives the values, and performs the effects in the order and number, that the language defines: call by value from left to right, lexical scope with shadowing, short-circuit operators, exhaustive type tests on unions and any, the error operator leaving the current function only, structural equality, immutable records, maps and lists. "
 "The intermediate representation that the compiler hands to its back end is well-typed and counts references exactly: no value is used after its release, released twice or kept for ever.",
 ["programs", "inputs"], "every well-typed module over the language's expressions, nested and combined in any way",
 "The repository's tests of these passes compare the output of single passes on samples of one construct; most programs combine several.",
 ["lib/ast-hir/src/lib.rs", "lib/hir/src/analysis/type_inferrer.rs", "lib/hir/src/analysis/type_checker.rs", "lib/hir/src/analysis/type_coercer.rs", "lib/hir-mir/src/expression.rs", "lib/hir-mir/src/downcast.rs", "lib/mir/src/analysis/alpha_conversion.rs", "lib/mir/src/analysis/normalization.rs", "lib/mir/src/analysis/lambda_lifting.rs", "lib/mir/src/analysis/reference_count/transformation.rs"],
 [("HIR and MIR passes", "lib/hir-mir/src/lib.rs")], [("heap", "reference counts", "lib/mir/src/analysis/reference_count")], ["values and order of evaluation of compiled modules"])
prop("C32", "Regular expressions match what their patterns denote",
 "Compiling a regular expression succeeds for every well-formed pattern and gives an error for every other text. An expression matches a string exactly if some part of the string is in the language which the pattern denotes, and a match gives the leftmost such part, preferring earlier alternatives and longer (or, where lazy, shorter) repetitions, together with what its groups matched and none for groups that took no part.",
 ["inputs"], "all short patterns over the characters of a core pattern language, and random larger ones, against all short strings",
 "The native part has no unit tests and the tests written in Pen hold a few samples.",
 ["packages/regex/Expression.pen", "packages/regex/ffi/src/lib.rs"],
 [("thin layer over a native library", "packages/regex/ffi/src/lib.rs")], [], ["results of Expression'New, Matches and Match"])
prop("C33", "Values of the any type are shown and compared by their structure",
 "Comparing two values of the any type gives true exactly if they have the same type and equal parts (elements in order, entries of maps in any order, fields, sources of errors), however they were made, false if they differ, and none if the answer depends on functions. "
 "The text that shows a value names its type and all its parts: numbers and booleans as written, strings between quotes, records with field names, lists and maps with their element types, functions and errors marked as such. "
 "The assertion that values are equal succeeds exactly if comparing them gives true.",
 ["inputs", "histories"], "all nested values of records, lists, maps, errors, functions and scalars, with maps made by any history of insertions and deletions",
 "The unit tests look at the definitions of single functions; the tests written in Pen hold a few samples.",
 ["lib/hir-mir/src/type_information/equal.rs", "lib/hir-mir/src/type_information/debug.rs", "packages/reflect/Any.pen", "packages/prelude/List.pen", "packages/prelude/Map.pen", "packages/test/Assert.pen"],
 [("functions in type information generated per type", "lib/hir-mir/src/type_information.rs")], [], ["results of Any'Debug, Any'Equal and Assert'Equal"])
prop("C34", "Helpers for flags, booleans, lists and random numbers compute what they document",
 "Parsing command-line arguments takes pairs of -name and value from the front (a later pair of a name replaces an earlier one, a name without value is an error) up to the first argument that is no name, or a separator --, which is dropped; the rest are the positional arguments, unchanged. "
 "Any and All of booleans, First and Last of lists with a fallback for empty ones, and the conversions of lists of any values, which keep the elements of a type in order, agree with their definitions. Assertions of truth and of errors fail exactly when they must. Random numbers lie in [0, 1).",
 ["inputs"], "all short sequences of arguments and elements",
 "The tests written in Pen need the full compiler and hold a few samples.",
 ["packages/flag/Flag.pen", "packages/core/Boolean.pen", "packages/core/List.pen", "packages/test/Assert.pen", "packages/random/Random.pen", "packages/random/ffi/src/lib.rs"],
 [("Pen source", "packages/*/*.pen")], [], ["results of the exported Pen functions"])
prop("C35", "What a build leaves is that of the current sources, whatever was built before",
 "After any history of edits, of modules and packages created and removed, of broken sources, of cycles and of deleted outputs, a build succeeds exactly when the project as it is now is right, and then leaves what a build from scratch would leave: every module of the main package and of those it depends on, each compiled from its present text and against the present interfaces of the very modules which its imports name; in an application, together with every package it depends on, packages before those they depend on. "
 "Packages of different URLs are never mixed up, whatever their URLs look like; cyclic dependencies of packages or modules are errors. A build after a successful build with nothing changed compiles nothing. External packages are fetched once and stay as they were until their output is deleted.",
 ["history"], "any history of edits and builds of any graph of packages and modules",
 "Unit tests build one package once against stubs of files and commands; stale results depend on what was built before.",
 ["lib/app/src/package_builder.rs", "lib/app/src/package_build_script_compiler.rs", "lib/app/src/external_package_topological_sorter.rs", "lib/app/src/module_dependency_resolver.rs", "lib/app/src/module_target_source_resolver.rs", "lib/app/src/package_initializer.rs", "lib/app/src/package_name_formatter.rs", "lib/infra/src/ninja_build_script_compiler.rs", "lib/infra/src/file_path_converter.rs", "lib/infra/src/external_package_initializer.rs", "cmd/pen/src/main.rs"],
 [("Rust API", "lib/app/src/**")], [("sources", "modules and configurations of packages", "lib/app/src/infra/file_system.rs"), ("output", "fetched packages, objects, interfaces and build scripts of earlier builds", "lib/app/src/common/file_path_*.rs")], ["objects, archives and exit status of builds"])
prop("C36", "Commands for whole packages act on exactly the package's modules",
 "Formatting a package rewrites exactly its modules and test modules, in every folder that is not hidden, each to its formatted text, and touches no other file; the check for formatting lists exactly those modules whose text would change, fails exactly when there are some, and writes nothing. "
 "Documentation of a package describes every public module once, by its name, with its public definitions and no private ones, and the package itself. Testing runs every exported test function of every test module, whatever their number, reports each once by name with its outcome and message, counts them rightly, and fails exactly when one fails or a module does not compile. "
 "A broken module makes a command fail with a message and leaves no file half written. A new package is formatted, its configuration is right, and it builds. Commands act alike from any folder of the package.",
 ["history"], "any tree of files and any history of edits and commands",
 "Unit tests look at one or two modules in stubs of file systems; discovery, reports and exit status come together in the program only.",
 ["lib/app/src/package_formatter.rs", "lib/app/src/package_format_checker.rs", "lib/app/src/package_documentation_generator.rs", "lib/app/src/test_module_finder.rs", "lib/app/src/file_finder.rs", "lib/app/src/module_finder.rs", "lib/app/src/package_creator.rs", "lib/app/src/package_test_information_compiler.rs", "lib/infra/src/test_linker.rs", "lib/hir-mir/src/test_function.rs", "cmd/test/src/main.rs", "cmd/pen/src/main.rs"],
 [("command line", "cmd/pen/src/main.rs")], [("files", "sources of a package", "lib/app/src/infra/file_system.rs")], ["files, output and exit status of commands"])
