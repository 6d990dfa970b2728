TOOL_NOTE = ("Seeded search over simulated runs of the real compiler binary (built from /repo's tree, every system call, clock reading and random number behind the simulator); quick tier under half a minute, thorough about 12 minutes. "
  "Assurance is that of sampling: projects, invocations, schedules and faults not drawn are not covered. Trusts the simulated kernel and disk in sim/toolproc.go and sim/toolfs.go.")
MAIN = ["main.go", "compiler/compiler.go", "compiler/import_visitor.go", "compiler/proto_visitor.go", "generator/generator.go", "generator/gen/gen_ctx.go", "fileio/path.go"]
prop("T01", "One project and invocation give the same bytes everywhere, every time",
 "What an invocation writes (every generated file, standard output, diagnostics, exit status) depends only on the schema sources and the arguments: not on the time, random numbers, process id, environment, size of read and write transfers, what older versions of the outputs the output place holds, or where on the disk the project lies (but for paths it prints). Outputs are replaced in full; no remains of an older, longer file stay.",
 ["configurations", "histories", "schedules"], "for all valid projects, targets, options and systems around the program",
 "Tests run in one process on one machine in one place into fresh directories; map order, leftovers and place-dependence need many different worlds and a byte comparison.",
 MAIN + TARGETS, m(("output of generated files", "generator/gen/gen_ctx.go: WriteFile"), ("ordered maps", "util: OrderedMap"), ("generators", "generator/target/*")), observe=("files below the output path", "stdout", "stderr", "exit status"),
 tech="the real compiler in a simulated world (seeded randomness, clock, pid, environment, transfer sizes, stale outputs, moved project) compared byte for byte with an undisturbed run", note=TOOL_NOTE)
prop("T02", "Success means every output was written completely",
 "If any call that creates, writes or closes an output, or makes a directory for it, or writes to standard output, fails or transfers only a part, the program either still delivers the complete output or exits with status 1 and says so. It never reports success with output missing, cut or stale, never crashes, and never changes its sources. Interrupted or short calls that can be continued are continued. Once the trouble is over the same invocation succeeds with the right output.",
 ["fault_sequences", "inputs", "configurations"], "for all valid projects and invocations, and all failing, short and interrupted system calls",
 "No test makes a write, close, mkdir, stat or read fail.",
 MAIN, m(("writing files", "generator/gen/gen_ctx.go: WriteFile"), ("exit status", "main.go")), state=(("output directory", "files of this and earlier runs", "disk"),), observe=("exit status", "stderr", "output path"),
 tech="injected system call errors, short transfers and interruptions at seeded points of real compiler runs on a simulated disk; outcome and recovery compared with the undisturbed run", note=TOOL_NOTE)
prop("T03", "What must be refused is refused before anything is written",
 "An invocation with an invalid schema anywhere in its import graph (syntax, names, types, widths, sizes, orders, constants, enums, accessors, options, packages), one the target is documented not to express (setter-only accessors in Kotlin), a source that cannot be read, or unusable arguments exits with status 1, explains itself on standard error naming the file concerned and, for an error in its text, a line and column within the offending definition, and creates, changes or removes nothing on disk and prints no code to standard output.",
 ["inputs", "fault_sequences", "programs"], "for all otherwise valid projects, positions of the error in the import graph, and failing reads",
 "Tests give one small file per error and look at the error value in process; they do not put errors deep in import graphs, fail reads, or look at what a refused run leaves on the disk.",
 MAIN + ["definition/struct.go", "definition/enum.go"], m(("semantic checks", "compiler/proto_visitor.go"), ("compile before generate", "main.go")), observe=("exit status", "stderr", "all changes to the disk"),
 tech="errors planted in, or read faults injected into, seeded project graphs; every mutation of the simulated disk is recorded and none may precede the refusal", note=TOOL_NOTE)
prop("T04", "After a kill or power loss the next run puts everything right",
 "Whenever the program is killed or the machine loses power, at any system call, with writes torn or not yet durable, any number of times in a row, running the same invocation again succeeds and leaves exactly the output of an undisturbed run. Sources and files outside the output place are never touched.",
 ["crash_points", "histories", "fault_sequences"], "for all valid projects, output layouts, sequences of crash points and losses of data not yet durable",
 "No test kills the program; what it finds of its own half-written output needs a crash at a particular call to show.",
 MAIN, m(("output files are opened and truncated", "generator/gen/gen_ctx.go: WriteFile"), ("directories are made", "generator/gen/gen_ctx.go")), state=(("output directory", "complete, partial or missing outputs of earlier runs", "disk"),), observe=("output path after the next run",),
 tech="kills and power losses at seeded system calls of real compiler runs (torn writes, lost unsynced data), followed by a recovery run compared with the undisturbed one", note=TOOL_NOTE)
prop("T05", "It touches nothing but its own outputs",
 "A run changes only files it generates, all inside the place named by -o (nothing at all on disk without -o): not its sources, not files of others in or outside that place, whatever package names, package options, prefixes to remove, links and failing calls there are. Two outputs of one run never silently replace one another.",
 ["inputs", "configurations", "fault_sequences"], "for all projects, package options, flags, links and files around them",
 "Tests write to fresh temporary directories and look only at the files they expect.",
 MAIN, m(("output paths", "generator/gen/gen_ctx.go: WritePackage, WriteFile"), ("package options", "generator/target/golang/golang.go, generator/target/java/java.go")), observe=("every change to the disk",),
 tech="real compiler runs on a simulated disk with bystanders, links, wandering package paths and failing calls; every recorded mutation is checked for containment", note=TOOL_NOTE)
prop("T06", "Sources replaced during a run give a result of whole versions",
 "When source files are replaced, removed or come back while the program runs, its result (files, standard output, exit status) is the one that some choice of exactly one version per file gives; never a mixture of two versions of a file. Afterwards the same invocation gives what it gives on a clean disk.",
 ["schedules", "histories"], "for all projects and times and orders of replacing sources",
 "Tests never change a file during a run.",
 MAIN, m(("each file is read once", "compiler/import_visitor.go, compiler/compilation_runtime.go")), observe=("output", "exit status"),
 tech="seeded edits of sources between the system calls of a real compiler run; the result is compared with the runs of all choices of one version per file", note=TOOL_NOTE)
prop("T07", "Any acyclic import graph compiles, each file once; cycles are refused",
 "For any graph of imports (chains, diamonds, repeated and differently spelled imports, through links) an acyclic one of valid files compiles and yields exactly the documented output files of the files reachable from the input, and wherever they include, import or require one another by relative path that path leads to one of them, -rmpath or not; files that are not reachable do not matter. A constant field may have an enum type, as documented. A cycle (of any length, also with itself), a missing or broken import, or two files of one package is refused with status 1, a diagnostic naming a file involved, and nothing written; nothing that is no cycle is called one.",
 ["programs", "inputs", "configurations"], "for all import graphs, spellings of import paths, targets",
 "Tests import one or two files from one; no cycles through longer paths, diamonds in other words, or graphs with errors deep inside.",
 MAIN, m(("import resolution and cycle detection", "compiler/import_visitor.go, compiler/compilation_runtime.go"), ("one package per file", "compiler")), observe=("exit status", "stderr", "set of output files"),
 tech="seeded import graphs on a simulated disk driven through the real compiler, outcome compared with a model of reachability, cycles and output names", note=TOOL_NOTE)
prop("T08", "Damaged sources end in a verdict, never in a crash or a hang",
 "Whatever bytes the source files hold (cut, blanked, overwritten, duplicated, transposed, foreign characters), a run ends by itself within bounded time and memory, with status 0, or with status 1 and an explanation; it never crashes, and never changes a source.",
 ["inputs", "fault_sequences"], "for all damage to source files",
 "Tests read well-formed files and a few fixed mistakes.",
 MAIN, m(("parser and visitors", "compiler/proto_visitor.go, compiler/literal_visitor.go, parser/bubbler_parser.go"), ("generators", "generator/target/*")), observe=("exit status", "stderr"),
 tech="seeded media damage to the sources of real compiler runs on a simulated disk; verdict, liveness within bounded steps and integrity checks", note=TOOL_NOTE)
prop("T10", "Invocations running at once do not disturb one another",
 "When several invocations for one project, starting from any of its files, run at the same time into one output directory, each succeeds with the output it has alone, and in the end every file there is exactly what the invocations leave one after the other. What a file's code looks like does not depend on which file the compilation started from.",
 ["schedules", "configurations"], "for all projects, sets of invocations of one target and options, and interleavings of their system calls",
 "Tests run one compilation at a time; build systems run one per file in parallel.",
 MAIN + TARGETS, m(("directories and files are made", "generator/gen/gen_ctx.go"), ("state of a generator between units", "generator/target/*: GenState.Reset")), observe=("output directory", "exit status", "stderr"),
 tech="seeded interleaving, call by call, of two to four real compiler processes on one simulated disk; final tree compared with serial runs", note=TOOL_NOTE)
prop("T11", "The same project said differently gives the same output",
 "The output does not depend on how the project is written down: white space, line ends and comments between tokens, different spellings of import paths of the same files, widths written out that are the defaults (in bytes or bits), order and spelling of flags, synonyms of target names, spellings of the input and output paths, and the current directory; nor on flags the documentation says a target forces or ignores, on defaults said or unsaid, or on options meant for other targets.",
 ["inputs", "configurations", "programs"], "for all valid projects and respellings",
 "Tests compile each text once; none compares two forms of the same project.",
 MAIN + ["bubbler.g4"] if os.path.exists("/repo/bubbler.g4") else MAIN, m(("path resolution", "fileio/path.go"), ("defaults of widths", "compiler/proto_visitor.go"), ("command line", "main.go")), observe=("output files", "stdout", "exit status"),
 tech="seeded respellings of a project and its invocation, run as real compiler processes in the simulated world with varied working directories, compared byte for byte", note=TOOL_NOTE)
