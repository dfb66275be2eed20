"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
G="src/pygerber/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":[G+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("P01","Language server answers reflect the current document text",
"Every hover or completion answer the language server sends equals the answer a newly started server gives after only opening that document with the text it had at some moment between the arrival of the request and its answer. This holds for every history of opening, editing (whole-text or incremental, one or many edits per notification), closing and reopening any number of documents, however the messages are batched, split and timed. What happens to one document never changes the answers about another.",
["histories","schedules","inputs"],"all message histories over several documents, all batchings, fragmentations and delivery times of the client byte stream",
"The language-server tests are marked xfail and send one scripted session; no test edits, reopens or interleaves documents.",
["gerber/language_server/_server/server.py","gerber/language_server/_server/document_cache.py","gerber/language_server/_server/documents/gerber.py","gerber/language_server/_server/documents/document.py","gerber/language_server/_server/hover/gerber.py"],
[("per-document cached tree, state and completion list, flushed on open and change","GerberDocument.flush_cached_values / on_open / on_change"),("document table keyed by URI, created on demand, dropped on close","get_server().get_document, DocumentCache")],
"JSON-RPC responses on the server's output stream")
prop("P02","Language server replies exactly once and survives every failure",
"Every request sent to the language server gets exactly one reply carrying its id, and no message or failure stops the server from serving: after malformed, unknown or unsupported messages, cancelled requests, or analysis of a document failing midway, it still answers later requests. A document whose analysis failed is answered correctly again once it is next changed or reopened, and other documents are unaffected. The server terminates when asked to exit and when its input ends, even in the middle of a message.",
["schedules","fault_sequences","histories"],"all message sequences, cancellation instants, analysis failures at any point inside parsing, searching, formatting and state tracking, and input ending after any byte",
"Only fault-free scripted sessions exist (xfail); no test fails an analysis, cancels a request or cuts the stream.",
["gerber/language_server/_server/server.py","gerber/language_server/_server/document_cache.py","gerber/language_server/_server/documents/document.py","gerber/language_server/_server/documents/gerber.py","gerber/language_server/__main__.py"],
[("document and table locks held across handlers and released in finally blocks","server.py handlers; Document.acquire/release; DocumentCache.acquire/release"),("response sending by the JSON-RPC endpoint from handler task completion","pygls JsonRPCProtocol, run unmodified")],
"JSON-RPC responses on the output stream; return of the server main function")
prop("P03","A loaded file's results do not depend on earlier calls",
"What a loaded Gerber file object returns when it is rendered (raster or vector), formatted or hashed depends only on its source, its current options, its current colour map and the arguments of that call. Earlier calls on it, in any order and number, whether they succeeded, failed or were interrupted, and options or colour maps that were later replaced, never change a result.",
["histories","fault_sequences","inputs"],"all histories of render/format/option/colour-map calls on one object with exceptions, allocation failures and interrupts at any call boundary inside them",
"API tests call each method once or twice on a fresh object and never fail or interrupt a call.",
["gerber/api/_gerber_file.py","gerber/api/_enums.py","gerber/compiler/compiler.py","vm/pillow/vm.py","vm/shapely/vm.py"],
[("cached tree, VM code and final state flushed by option setters","GerberFile._get_ast/_get_rvmc/_get_final_state/_flush_cached"),("file type inference stored on the object","GerberFile._dispatch_style")],
"return values and saved bytes of GerberFile methods")
prop("P04","Concurrent use from threads equals use one at a time",
"Threads that at the same time load, parse, compile, render, format, lint or build, each on its own objects or several of them only reading the same loaded file, tree or composite view, each obtain exactly the result they obtain when running alone. This holds for every interleaving of the threads.",
["schedules","inputs"],"all interleavings (at source-line granularity) of 2-4 threads performing library operations",
"The test-suite runs every operation in a single thread.",
["gerber/api/_gerber_file.py","gerber/parser/pyparsing/grammar.py","gerber/parser/pyparsing/parser.py","gerber/compiler/compiler.py","gerber/formatter/formatter.py","gerber/linter/linter.py","vm/pillow/vm.py","vm/shapely/vm.py","builder/gerber.py"],
[("no mutable state shared between instances of parser, compiler, virtual machines, formatter, linter and builder","class and module level of those files"),("idempotent caching on the shared file object","GerberFile caches and file type inference")],
"results returned to each thread")
prop("P05","A command that reports success produced its complete output",
"When a command-line command exits with status 0, every output it was asked for (image, formatted file, printed diagnostics) is complete and byte-identical to that of an undisturbed run. If an error while opening, reading, writing or closing a file, or while processing, prevented that, the exit status is not 0. Once the disturbance is gone, running the same command again gives the undisturbed result whatever a failed or killed run left behind.",
["fault_sequences","crash_points","inputs","configurations"],"all commands and options, any sequence of I/O errors, short reads and writes, full disks and allocation failures, and a kill at any I/O step",
"CLI tests run commands on a healthy disk only.",
["console/gerber.py","gerber/api/_gerber_file.py","gerber/api/_composite_view.py","vm/shapely/vm.py"],
[("render first, save last through one save call","console.gerber convert / merge-convert commands"),("format to text, then write","format_cmd")],
"exit status, output files, standard output")
prop("P06","Commands never destroy data they were not able to replace",
"No command-line command modifies, truncates, creates or removes any file other than the output it was asked to write, whatever errors or kills happen; sources and configuration files stay byte for byte as they were. A run that fails before it has a complete result (missing, unreadable or invalid source or configuration, unsupported options, failing processing) leaves an already existing output file, including a source being formatted in place, byte for byte as it was.",
["fault_sequences","crash_points","inputs","configurations"],"all commands and options, with failures at any read or processing step and kills at any I/O step",
"No test checks what a failing command does to existing files.",
["console/gerber.py","gerber/api/_gerber_file.py","vm/shapely/vm.py"],
[("output is opened only after the complete result exists","format_cmd, convert and merge-convert commands, save_* methods")],
"bytes of every file in the directory before and after the command")
prop("P07","Results do not depend on locale or working directory",
"Text files are always read and written as UTF-8: loading, formatting, linting, converting and job-file handling give the same results, files and messages whatever the platform's default text encoding is. Results also do not depend on the current working directory or on whether paths are given as relative or absolute.",
["configurations","inputs"],"all default encodings (ASCII, Latin-1, cp1252, UTF-16, Shift-JIS, ...), working directories and path spellings, for sources with any Unicode text",
"Tests run in one UTF-8 locale with ASCII paths.",
["console/gerber.py","gerber/api/_gerber_file.py","gerber/api/_gerber_job_file.py"],
[("explicit encoding on every text open","from_file, format_cmd, lint, GerberJobFile.from_file")],
"files written and text printed by the commands; loaded sources")
prop("P08","Same input gives identical output in every process",
"Parsing, compiling, rendering, formatting and linting the same source gives identical virtual-machine code, image bytes, text and diagnostics in every process and at every time. The results do not depend on hash randomisation, wall-clock time or its jumps, process id, memory layout, garbage-collection timing or random-number state, nor on what the process handled before.",
["configurations","histories","inputs"],"all hash seeds, clock readings, ids, GC schedules, random states and prior histories of the process",
"Tests compare one run in one process; ordering that depends on the hash seed looks stable there.",
["gerber/compiler/compiler.py","gerber/api/_gerber_file.py","vm/pillow/vm.py","vm/shapely/vm.py","gerber/formatter/formatter.py","gerber/linter/linter.py"],
[("layer submission order and generated layer names","Compiler._resolve_buffer_submit_order, on_sr")],
"RVMC JSON, image bytes, formatted text, diagnostics")
prop("P09","Parser, formatter and linter objects can be reused after any failure",
"A parser, formatter or linter object gives for each source exactly what a newly created object gives, however many sources it handled before and even if earlier uses failed midway, whether because of the source, an interrupt, or an error raised by the destination being written. An error raised by the destination reaches the caller, and what was written until then is a prefix of the complete output.",
["histories","fault_sequences","inputs"],"all histories of uses of one object with destination errors at any write and exceptions at any call boundary",
"Tests create one object per use and never make a destination fail.",
["gerber/formatter/formatter.py","gerber/linter/linter.py","gerber/linter/rules/rule.py","gerber/parser/pyparsing/parser.py"],
[("output and indentation reset after each format call","Formatter.format"),("collector and rule reset at the start of each lint call","Linter.lint")],
"formatted text, violations, trees")
prop("P10","Saving gives the same bytes to every kind of destination",
"Saving an image, SVG or formatted code to a path, an in-memory buffer, an open file or another writable object yields the same bytes, written at the object's current position, and leaves the object open. If the destination reports an error at any write, the caller gets an exception, and the same image or code can afterwards be saved again with the complete result.",
["fault_sequences","inputs","configurations"],"all formats and destination kinds, an error at any write, and any number of further saves",
"Tests save once to BytesIO or a path; failing or other destinations are never used.",
["gerber/api/_gerber_file.py","gerber/api/_composite_view.py","vm/shapely/vm.py","vm/pillow/vm.py","gerber/formatter/formatter.py","builder/gerber.py"],
[("destination dispatch","ShapelyResult.save_svg, PillowImage.save_*, Formatter.format, GerberCode.dump")],
"bytes received by the destination, exceptions")
prop("P11","Loading yields the complete content or an error",
"Loading a Gerber source, job file or whole project gives the same content from a path, a string or a readable buffer, however the reads are fragmented. If any read or open fails, loading raises: it never yields a truncated source or a project that lacks a file or view. Loading again after the failure yields the complete content.",
["fault_sequences","inputs"],"all open and read failures and read fragmentations at any byte of any of the files involved",
"Tests load files from a healthy disk in one read.",
["gerber/api/_gerber_file.py","gerber/api/_gerber_job_file.py","gerber/api/_project.py","console/gerber.py"],
[("read whole file, then construct","GerberFile.from_file/from_buffer, GerberJobFile.from_file/to_project")],
"loaded objects' sources, rendered views, exceptions")
prop("P12","Builder output draws exactly the calls that succeeded",
"Code obtained from a Gerber or virtual-machine code builder draws exactly the successful calls in their order, each with its own aperture, polarity, transformation and path, whatever calls came before it. A call (or a nested layer block) that raises draws nothing and does not change how any other call is drawn. Obtaining the code at any point, any number of times, does not change what is drawn.",
["histories","fault_sequences","inputs"],"all sequences of builder calls including failing ones (unrepresentable coordinates, wrong arguments, exceptions inside layer blocks) and calls to obtain code",
"Tests build short fixed sequences with no failing call.",
["builder/gerber.py","builder/rvmc.py"],
[("tracked graphics state decides which commands are emitted","GerberX3Builder._create_state_updates/_add_draw"),("nested layer context manager","LayerBuilder.layer")],
"generated code interpreted by an independent reference interpreter")
prop("P13","Consumers never change the tree or code they are given",
"Compiling, formatting, linting, searching, or tracking state over a syntax tree, and rendering virtual-machine code, never changes that tree or code. Any sequence of such consumers over one tree or code, including ones that fail or are interrupted midway, leaves it equal to a fresh parse or compile, and each consumer gets the result it would get from a fresh copy.",
["histories","fault_sequences","inputs"],"all sequences of consumers over one shared tree and one shared RVMC, with failures at any call boundary",
"Tests give each consumer its own freshly parsed tree.",
["gerber/compiler/compiler.py","gerber/formatter/formatter.py","gerber/linter/linter.py","gerber/ast/state_tracking_visitor.py","gerber/ast/node_finder.py","gerber/ast/nodes/base.py","vm/vm.py","vm/pillow/vm.py","vm/shapely/vm.py"],
[("visitors read nodes and keep their own state","StateTrackingVisitor, Compiler, Formatter, EventAstVisitor, NodeFinder, VirtualMachine")],
"serialised tree and code before and after; consumers' results")
prop("P14","Composite views render the same regardless of history and faults",
"Rendering a composite view, a project view or a merged command-line image gives the image determined only by its member files, their order, the resolution and the colour map last set, however often and in whatever order views sharing files, or the members alone, were rendered before and whichever of those renderings failed or were interrupted. Rendering a view never changes what its members render on their own, and a failing member makes the whole rendering raise rather than yield an image lacking it.",
["histories","fault_sequences","inputs"],"all histories of view and member renderings over shared files with failures at any call boundary",
"Tests render each view once.",
["gerber/api/_composite_view.py","gerber/api/_gerber_file.py","gerber/api/_gerber_job_file.py","gerber/api/_project.py"],
[("members cache parse and compile results and are shared between views","CompositeView.render_with_pillow, GerberJobFile.to_project")],
"composite and member image bytes")
prop("P15","Absent optional packages and import order affect only what needs them",
"Every PyGerber module can be imported, first or in any order, when any of the optional packages (shapely, pygls, lsprotocol, drawsvg, pygments) and all undeclared packages are absent, or when shapely is installed but cannot be imported. Everything that does not need an absent package gives the same results as in a complete installation. What needs one reports it: vector rendering raises ShapelyNotInstalledError, starting the language server raises LanguageServerNotAvailableError, the command line offers no SVG conversion, and availability checks tell what is installed.",
["configurations","schedules","fault_sequences","inputs"],"all subsets of absent optional packages, a broken shapely, all orders of first imports, and any operations afterwards",
"Tests run in one complete installation where everything was imported in one order before the first test.",
["vm/shapely/vm.py","vm/__init__.py","gerber/language_server/status.py","common/position.py","gerber/pygments.py","console/gerber.py","gerber/language_server/_server/server.py"],
[("availability decided once per process","is_shapely_available, is_language_server_available, is_pygments_available"),("guarded imports of optional packages","vm/shapely/vm.py, common/position.py, gerber/pygments.py")],
"results, exceptions and exit status in a process where only some packages can be imported")
prop("P16","Every call leaves the process as it found it",
"When a PyGerber call (loading a source, job file or project, parsing, compiling, rendering, formatting, linting, building, saving, or running a convert, merge, format or lint command) is over, whether it returned, failed or was interrupted, nothing of it is left behind in the process: no file it opened is still open, even while its result or exception is still held, no thread or child process of it is left, and no file exists that the call was not asked to write. Process-wide settings keep the values the caller gave them: decimal context, recursion limit, working directory, environment, umask, warning filters, logging configuration, numpy error handling and print options, Pillow limits, random-number state, standard streams, signal handlers, exception and trace hooks, garbage-collector and locale settings.",
["histories","fault_sequences","inputs","configurations"],"all histories of calls and failures at any call boundary, file operation or destination write, under all settings of the caller",
"Tests check results only; what a failing or interrupted call leaves in the process is never looked at.",
["gerber/api/_gerber_file.py","gerber/api/_gerber_job_file.py","console/gerber.py","vm/pillow/vm.py","vm/shapely/vm.py","gerber/parser/pyparsing/grammar.py","gerber/formatter/formatter.py","gerber/api/_composite_view.py"],
[("files are opened and closed around reads and writes","GerberFile.from_file, GerberJobFile.from_file, console commands, image save"),("no module changes process-wide settings","whole package")],
"process-wide settings, open descriptors, threads, children and files before and after each call")
prop("P17","Long-lived processes and server sessions do not accumulate memory",
"However many calls one process makes, each with a new input, and however many documents one language-server session opens, changes, queries and closes, PyGerber keeps nothing of what is over: once the caller has dropped what a call gave it, and once a document was closed, what stays in memory does not grow with the number of calls, messages or documents so far. This holds whether calls and requests returned, failed, were interrupted, cancelled or ran out of memory, and also for objects used again and again (parser, formatter, linter, loaded file, view, builder, compiled code, a document that stays open): they do not grow with each use. Caches of a fixed bound are allowed, and requests about documents that were never opened are outside.",
["histories","fault_sequences","inputs"],"all sequences of calls and messages, however long, with failures at any call boundary, file operation or destination write",
"Tests make a few calls per process and never count what stays; growth shows only over many repetitions with different inputs or failures.",
["gerber/language_server/_server/document_cache.py","gerber/language_server/_server/documents/gerber.py","gerber/linter/linter.py","gerber/parser/pyparsing/parser.py","gerber/parser/pyparsing/grammar.py","gerber/api/_gerber_file.py","gerber/compiler/compiler.py","vm/vm.py"],
[("no module-level store of inputs or results","whole package"),("documents are dropped when closed","DocumentCache.delete"),("state is replaced, not extended, by each use","Linter.lint, GerberDocument.flush_cached_values, Formatter.format")],
"live objects, lengths of containers and allocated memory over many repetitions")

na=[
("P20","Parsing formatted code gives back the same tree","Formatting a syntax tree and parsing the result gives a tree equal to the original up to layout, for every tree and formatter option set.",["inputs","configurations"],"all trees and option sets",["gerber/formatter/formatter.py","gerber/parser/pyparsing/grammar.py"],"Formatter / Grammar"),
("P21","Formatting is idempotent","Formatting already formatted code with the same options gives the same text.",["inputs","configurations"],"all sources and option sets",["gerber/formatter/formatter.py"],"Formatter"),
("P22","Rendered images follow the Gerber specification","Every valid Gerber source renders to the image the Ucamco specification assigns to it.",["inputs"],"all valid sources",["gerber/compiler/compiler.py","vm/pillow/vm.py","vm/shapely/vm.py"],"Compiler and virtual machines"),
("P23","Raster and vector back ends agree","Both rendering back ends draw the same geometry for the same virtual-machine code, up to resolution.",["inputs"],"all virtual-machine programs",["vm/pillow/vm.py","vm/shapely/vm.py"],"PillowVirtualMachine / ShapelyVirtualMachine"),
("P24","Lint rules report exactly the violations they describe","A lint rule reports a violation at a location if and only if the construct it describes occurs there.",["inputs"],"all sources and rules",["gerber/linter/rules/rule.py"],"rule classes"),
("P25","Coordinate packing and unpacking are inverse","Packing a representable coordinate and unpacking it gives it back, for every coordinate format.",["inputs","configurations"],"all coordinates and formats",["gerber/ast/state_tracking_visitor.py"],"CoordinateFormat"),
("P26","Virtual-machine code survives JSON serialisation","Serialising virtual-machine code and loading it gives equal code.",["inputs"],"all programs",["vm/rvmc.py"],"RVMC.to_json/from_json"),
("P27","Resilient parsing accounts for every character","The resilient parser succeeds on every text and its tree covers all of the text.",["inputs"],"all texts",["gerber/parser/pyparsing/grammar.py"],"resilient grammar"),
("P28","Project inner views follow the physical layer order","Inner views of a project loaded from a job file are ordered by layer number.",["inputs"],"all job files",["gerber/api/_gerber_job_file.py"],"GerberJobFile.to_project"),
("P29","Hover describes the construct under the cursor","Hover text describes the construct that contains the cursor position and the graphics state at that point.",["inputs"],"all texts and positions",["gerber/language_server/_server/hover/gerber.py","gerber/ast/node_finder.py"],"NodeFinder / GerberHoverCreator"),
]
for id,t,s,o,q,f,m in na:
    prop(id,t,s,o,q,"Tests sample a handful of inputs; the property is a pure function of its input.",f,[(m,f[0])])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as fh:
    for p in P: fh.write(json.dumps(p)+"\n")
