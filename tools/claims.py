claims["C01"] = ("TLA+ model checking (TLC) of the counting protocol with C11 happens-before; TLC behaviours replayed into lib/ffi; recorded thread schedules validated by a TLA+ trace specification", "model_checking",
    "Exhaustive for the protocol model (3 threads) and for all histories up to the bound; real-code schedules enumerated at atomic-operation granularity with a preemption bound. Assumes interleaving semantics plus the happens-before relation of the recorded orderings.")
claims["C02"] = ("TLA+ model checking (TLC); TLC behaviours with in-place changes replayed into lib/ffi; recorded thread schedules validated by a TLA+ trace specification", "model_checking",
    "As C01, for histories and schedules that contain requests for in-place access, on typed values and byte buffers.")
claims["C03"] = ("TLA+ model checking (TLC) of dynamically typed values and closures; every behaviour replayed into lib/ffi on several type layouts under a tracking allocator", "model_checking",
    "All histories of creating, converting, sharing and releasing any-values up to the bound, on inline and boxed layouts; closures as C01 without concurrency.")
claims["C04"] = ("TLA+ model checking (TLC) of the continuation stack as a typed LIFO; exhaustive and simulated behaviours replayed into lib/ffi with canaries and a tracking allocator", "model_checking",
    "All histories up to the bound plus long simulated ones, for initial capacities from 1 and values of alignment up to 8.")
claims["C05"] = ("TLA+ model checking (TLC) of the stack protocol (expected action, context, data); exhaustive and simulated behaviours, legal and illegal, replayed into lib/ffi", "model_checking",
    "Histories end at the first refused operation, since what follows a refusal is not specified.")
claims["C06"] = ("TLA+ model checking (TLC, safety and liveness) of bridged computations; TLC-generated computations and schedules executed by lib/ffi; recorded executions validated by a TLA+ trace specification", "model_checking",
    "All bridges up to one level of nesting with all environment schedules up to the bound, deeper ones by simulation; a single driving thread except for timers of the runtime.")
claims["C07"] = ("TLA+ specification enumerated by TLC: signatures, bodies, argument values and conversion sequences with their outcomes; Rust code is generated from them with the real attribute macros and executed", "model_checking",
    "All parameter lists up to the bound over seven parameter types, fourteen kinds of result, sync and async; the Pen side of conversions is a stand-in in the harness.")
claims["C08"] = ("TLA+ model checking (TLC) of race and spawn including a bounded channel; TLC-generated programs run on the application runtime of packages/os with 0 to 4 workers; recorded executions validated by a TLA+ trace specification", "model_checking",
    "Thread schedules are the ones the scheduler happens to produce; gates force the orders the property speaks about.")
claims["C09"] = ("TLA+ specification of the grammar (recursive descent with precedence levels) whose derivations TLC generates and checks for unique readability; the derived programs with layouts and comments, all operator chains and all short literals are parsed by lib/parse and compared with the specified trees", "model_checking",
    "Random leftmost derivations of the complete grammar, exhaustive operator chains and character sequences up to the bound. One documented ambiguity (a name followed by a brace) is not generated.")
claims["C10"] = ("TLA+ specification of the grammar decides acceptance of edited derivations (TLC checks and emits the verdicts) and of all short character sequences; lib/parse has to reject exactly the rejected ones without crashing", "model_checking",
    "One to three token edits per derivation; character sequences exhaustive up to the bound.")
claims["C11"] = ("TLA+ specification of tokens, comments and positions; TLC-generated programs with comments in every gap are parsed by lib/parse and the positions and comments compared", "model_checking",
    "Positions of every node kind the grammar produces, on generated layouts; character sequences exhaustive up to the bound.")
claims["C12"] = ("TLA+ specification of the grammar; TLC generates programs, and a TLA+ trace specification parses the tokens of what lib/format made of them and compares the meanings", "model_checking",
    "Random derivations of the complete grammar with any layout and with comments; formatted texts are read by a tokeniser of the harness and the grammar of the specification, not by lib/parse.")
claims["C13"] = ("TLA+ trace specification of formatting: TLC generates programs, comments are put between their tokens, and TLC validates the comments of what lib/format made of them", "model_checking",
    "Comments between any tokens, except at the end of brackets whose contents begin on the line of the opening bracket; at most one comment per statement that follows code on its line (the excepted texts are a recorded finding).")
claims["C14"] = ("TLA+ trace specification of formatted layout: TLC generates programs and validates that formatting is stable, blind to blanks, and laid out by the rules", "model_checking",
    "As C13, and with comments only in programs whose types stand on one line (another recorded finding).")
claims["C15"] = ("TLA+ specification of packages written line by line and of their documentation; TLC generates all small modules and simulated larger packages with the documents they must give; lib/parse and lib/doc are run on them", "model_checking",
    "All modules of up to four lines or items over a small alphabet, random packages of up to three modules of up to twelve items.")
claims["C16"] = ("TLA+ specification of strings as sequences of characters and bytes, whose operations TLC evaluates on all short strings; the compiled modules of packages/core give the same", "model_checking",
    "All strings of up to four characters of a small alphabet and up to two of a large one with ill-formed bytes, with all short patterns and indices; empty patterns of splits and replacements, and indices that are not integers, only must not end the program.")
claims["C17"] = ("TLA+ specification of arithmetic on exact eighths, of decimal texts and of 64-bit integers as sets of bits, evaluated by TLC; the compiled modules of packages/core give the same", "model_checking",
    "All pairs of small, large and special numbers; all short texts over eleven characters and composed longer ones; random 64-bit patterns for the way to text and back.")
claims["C18"] = ("TLA+ specification of how strings are built, of 64-bit hash arithmetic in limbs, and of keys in maps; TLC enumerates the cases and validates recorded slots; run by the compiled prelude", "model_checking",
    "All short strings in all ways to build them, comparisons and keys of all comparable types of types; that different strings and numbers hash apart is checked on thousands of samples only.")
claims["C26"] = ("TLA+ model checking (TLC) of the trie against finite functions; TLC behaviours (histories, literals, merges, iteration) over keys with colliding hashes executed by the compiled prelude in an interpreter of the compiler's output", "model_checking",
    "All histories up to the bound and simulated longer ones; the code is executed by an interpreter of the intermediate representation instead of the LLVM back end. Different keys with equal 64-bit hashes are a recorded finding.")
claims["C27"] = ("TLA+ big-step semantics of the language with lazy lists; TLC generates well-typed modules over lists with their values and effects; the real compiler front end compiles them and an interpreter of its output executes them", "model_checking",
    "Pseudo-random modules of bounded depth; executed by an interpreter of the intermediate representation instead of the LLVM back end.")
claims["C30"] = ("TLA+ specification of the typing and import rules; TLC enumerates every form of expression over many types and judges random single edits of generated modules; the real compiler front end must accept exactly the modules the specification accepts", "model_checking",
    "All forms up to the bound; edits of pseudo-random modules; possible overlaps of type tests and impossible records with unions are left open. Reading a hidden variable in the second block of an if-map expression is a recorded finding.")
claims["C31"] = ("TLA+ big-step semantics of the language; TLC generates well-typed modules with their values and effects; the real compiler front end compiles them and an interpreter of its output executes them, counting references", "model_checking",
    "Pseudo-random modules of bounded depth over all expressions but spawning and racing; executed by an interpreter of the intermediate representation instead of the LLVM back end.")
claims["C22"] = ("TLA+ model checking (TLC) of the cell protocol; all histories up to the bound replayed into the native part; executions of several threads validated by a TLA+ trace specification of linearizable cells", "model_checking",
    "All histories up to the bound on aliased states with counted payloads; thread schedules are those that the scheduler and random pauses produce. What freezing does is not specified.")
claims["C23"] = ("TLA+ specification of the JSON grammar and of what texts denote; TLC generates texts (all short ones, edited longer ones) with values or rejections; run by the compiled package; encoded texts are read by the specification", "model_checking",
    "Texts of up to the bound over the characters which matter; lone surrogates, duplicate names, raw control characters and numbers which are not finite are left open.")
claims["C28"] = ("TLA+ specification of reading markup; TLC generates trees and validates that the texts rendered by the compiled package denote them", "model_checking",
    "All texts of up to three characters over twenty-two, and random trees; whether unusual names (with digits or capitals) are refused is left open.")
claims["C29"] = ("TLA+ specification of what literals denote, whose cases TLC enumerates; compiled by the real front end and evaluated", "model_checking",
    "All short sequences of escapes and characters, random longer ones, decimals, binary and hexadecimal numbers; executed by an interpreter of the intermediate representation.")
claims["C32"] = ("TLA+ specification of patterns and their preferred matches; TLC generates all short patterns and random larger ones with verdict and groups on all short strings; run by the compiled package", "model_checking",
    "A core of the pattern language; repetitions of expressions that match nothing with groups, flags and nested classes are left open.")
claims["C33"] = ("TLA+ specification of equality (true, false, not comparable) and of the texts that show values; TLC generates pairs of values and validates the recorded texts; compiled by the real front end and executed", "model_checking",
    "Pseudo-random nested values and large maps with histories; where parts differ and others are not comparable, both answers are allowed. Executed by an interpreter of the intermediate representation.")
claims["C34"] = ("TLA+ specification of the helpers whose results TLC enumerates for all short sequences of arguments; the compiled modules give the same; recorded random numbers validated by TLC", "model_checking",
    "All sequences of up to four of eight arguments, of up to three of eight elements, of up to seven booleans; random numbers are sampled.")
claims["C19"] = ("TLA+ specification of a file system (tree of names, byte arrays, open files with cursors) model-checked and enumerated by TLC; every behaviour replayed in a scratch directory into the native parts of both OS packages, comparing results and the directory after each step", "model_checking",
    "All combinations of open options with one operation on the file, pairs of operations on names exhaustively, longer histories over several handles by simulation. Reading directories opened as files, empty writes to unsuited handles and copies of a file onto itself are left open.")
claims["C20"] = ("TLA+ specifications of a directory tree and of a process in its surroundings; TLC enumerates histories of directories and generates programs of processes; both are run by the native parts of both OS packages, and recorded processes are validated by a TLA+ trace specification", "model_checking",
    "Pairs of operations on names exhaustively, longer ones by simulation; pseudo-random processes. Arguments that are not text and what the exit status of a command means are left open; the synchronous package has no function for commands.")
claims["C21"] = ("TLA+ specification of listeners, streams and datagram sockets; TLC generates histories which are run by the native parts of both OS packages on the loopback network; recorded histories and long concurrent streams are validated by TLA+ trace specifications", "model_checking",
    "Pseudo-random histories of 24 operations that need not wait; long streams in one direction at a time, several at once, scheduled by the machine. Streams torn down with unread bytes are left open.")
claims["C25"] = ("TLA+ specification of a table behind a pool of connections; TLC generates histories of statements with their results, which are run by the native part of the SQL package on SQLite, and the databases are read by another program afterwards", "model_checking",
    "Pseudo-random histories of 16 statements on a small table with parameters of all kinds, pools of one to three connections, some statements at once. Only SQLite; booleans may come back as numbers.")
claims["C24"] = ("TLA+ specification of exchanges between clients and a server with a handler; TLC generates exchanges which are run in batches, some at once, by the native client and server of the HTTP package with each other and with counterparts which read and write the bytes; recorded histories are validated by a TLA+ trace specification", "model_checking",
    "Pseudo-random exchanges over ten methods, eleven targets, texts and bodies up to 17000 octets, odd requests and answers; one thread runs the handlers. Repeated headers, statuses below 200 and CONNECT are left open.")
claims["C35"] = ("TLA+ specification of packages, modules and what builds leave, with a build system that has a memory; TLC generates histories of edits and builds, which the real command-line program runs on directories; exit status, objects, archives and what was compiled are compared after every build", "model_checking",
    "Pseudo-random histories over four packages of two modules, with colliding looks of URLs; code generation, the linker and the executor of build scripts (turtle-build) are stand-ins, the rest is the real program.")
claims["C36"] = ("TLA+ specification of the files of a package and of what the commands for whole packages make of them; TLC generates histories of edits and commands, which the real command-line program runs on directories; files, reports and exit status are compared after every command", "model_checking",
    "Pseudo-random histories of 14 operations on modules, test modules and other files in folders, hidden and not. The outcome of each test function comes from a stand-in where tests are linked; the runner of tests that the program makes is compiled and run.")
