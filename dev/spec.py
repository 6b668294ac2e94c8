"""The properties, in order of weight. Fields: id, title, statement, over, forall, why, files, mech, and note (claimed) or na (not claimed)."""
AI_NOTE = ("Sound over-approximation of every path of the analysed functions (MIR of /repo's current sources): an inferred class invariant covers every history of calls, values are symbolic, "
           "so the claim holds for every input. Assumes the modelled std functions behave as documented, allocation succeeds, and rustc's MIR is faithful. An unmodelled call or an undecided path is reported as a violation.")
HI = "ogma-shell/interface/history.rs"; IN = "ogma-shell/interface/input.rs"; CO = "ogma-shell/interface/completions.rs"
EV = "ogma-shell/interface/events.rs"; TH = "ogma-shell/interface/theme.rs"; AP = "bin/app.rs"
PROPS = []
def P(id, title, statement, over, forall, why, files, mech, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, note=note, na=na))

P("I01", "Line editing is exact: text, cursor and change flag after every edit",
  "Inserting a character or a string puts exactly those characters, in order, at the cursor and leaves the cursor just after them; backspace and delete remove exactly the one character before or after the cursor (nothing at the respective end of the text), with the cursor staying between the same neighbours, and clearing empties the line and puts the cursor at its start. "
  "The change flag is set by every insertion, removal and clear, left alone by calls that change nothing else, and cleared only by its reset; reading the text, a prefix or the cursor changes nothing. "
  "No sequence of edits panics and the cursor is never beyond the end of the text.",
  ["inputs", "histories"], "every text over all Unicode characters, every cursor position, every inserted string, and every sequence of editing calls from a fresh line",
  "The two tests edit one ASCII greeting at its ends; they never insert in the middle, paste a string, or look at the change flag.",
  [IN], [("InputBuffer::{insert,insert_str,backspace,delete,clear,buffer,chars}", IN)], AI_NOTE)
P("I02", "The cursor's byte position is the UTF-8 length of the text before it",
  "At every moment the reported byte position of the cursor equals the number of bytes of the UTF-8 encoding of the characters before it, so it is a valid place to slice the text. "
  "Reporting it never panics and changes nothing.",
  ["inputs", "histories"], "every text, including multi-byte characters, and every cursor reached by any sequence of edits and moves",
  "No test looks at the byte position, and all test texts are ASCII, where bytes and characters agree.",
  [IN], [("InputBuffer::buf_pos", IN)], AI_NOTE)
P("I03", "Cursor movement is exact and clamped, by characters and by words",
  "Moving by n characters shifts the cursor by exactly n towards the asked side, or to that end of the text if fewer remain, for every n up to the largest machine integer; moving to the start puts it at 0. "
  "Moving by word passes the non-word characters next to the cursor and then the entire following run of word characters (alphanumerics of any script, '-' and '_') and stops there or at the end of the text. "
  "Moving never changes the text or the change flag and never panics.",
  ["inputs", "histories"], "every text, every cursor position and every distance (including usize::MAX)",
  "Tests move by 1 and 14 in one ASCII text and measure two word distances; huge distances overflowed until repaired (commit 958c637), which no test noticed.",
  [IN], [("InputBuffer::{move_left,move_right,move_start}, mv_magnitude", IN)], AI_NOTE)
P("C01", "Asking for completions sends one exact, freshly stamped request",
  "Each time completions are asked for, exactly one request goes to the completion engine, carrying the whole text, the byte position of the cursor and the byte position where the word before it starts (after the last space, tab, line break, '.', '/' or '\\' up to the character at the cursor, never beyond the cursor), stamped with the successor of the previous stamp. "
  "The previous items and highlight are dropped, and what a completion would replace becomes the characters from that word start to the cursor, with its start and length counted in characters. "
  "Asking never panics.",
  ["inputs", "histories"], "every text over all Unicode characters, every cursor position, and every earlier history of asking, receiving and highlighting",
  "Tests sample the word start of three short ASCII lines; no test builds a request, so stamps, multi-byte words, the character counts and a separator right at the cursor are never looked at.",
  [CO], [("Completions::request, word_start", CO)], AI_NOTE)
P("C02", "Only answers to the latest request are taken, all of them, in order",
  "Receiving appends the items of exactly those arrived answers that carry the stamp of the latest request, in the order they arrived, to the items on offer, drops all others, and reports whether any such answer arrived. "
  "It takes everything that has arrived, never blocks and never panics; it changes neither the highlight nor what would be replaced. "
  "Dropping the offer empties it, and looking at it changes nothing.",
  ["schedules", "inputs", "histories"], "every sequence of arrived answers with any stamps and items, and every earlier history of calls",
  "No test receives an answer; late answers to outdated requests only occur under particular thread timings.",
  [CO], [("Completions::{recv,reset,has,items,highlighted,word_pos}", CO)], AI_NOTE)
P("C03", "Highlighting cycles through the items and always replaces what it inserted",
  "Highlighting forward goes from nothing to the first item, through each next one to the last and back to nothing; highlighting backward goes the reverse way. "
  "Each step offers the highlighted item's text, or the originally typed word when nothing is highlighted or there are no items, together with the length in characters of what was offered before it (of the typed word at first), so repeated replacement never eats or leaves other text. "
  "Items, position and typed word stay as they are, and no step panics.",
  ["histories", "inputs"], "every list of items (also empty or of one), every text of item and word, and every sequence of asking, receiving and stepping",
  "No test highlights anything; wrong lengths only show with particular sequences of steps over texts of different or multi-byte lengths.",
  [CO], [("Completions::{highlight_next,highlight_prev}", CO)], AI_NOTE)
P("C04", "The completion engine delivers each newest request to every completer",
  "Every completer runs on a thread of its own; the engine hands a request to every completer exactly once, passing it over when, and only when, a newer one is already waiting, and each thread asks its completer once per request with that request's text, cursor and word start. "
  "A non-empty answer is sent back exactly once, cut to its first 10 items in order, and carries the stamp of the request it answers. "
  "The threads neither panic by themselves nor end while the other side is still there, and they end once it is gone.",
  ["schedules", "inputs", "histories"], "every number of completers, every sequence of requests, every interleaving of the threads at the level of channel operations, and every answer of a completer",
  "No test starts the engine; its behaviour depends on what is queued at the moment a thread looks.",
  [CO], [("Completions::new, spawn_engine, run_engine, loop_completer", CO)],
  AI_NOTE + " Channels are modelled as unbounded FIFO queues; completers are arbitrary (a panicking completer is outside the claim).")
P("E01", "Terminal events reach the interface exactly, in order, until it is gone",
  "Every key press read from the terminal is passed on exactly once with its key and its modifiers unchanged, every resize as a resize, and nothing else is, in the order read. "
  "Taking an event returns the oldest one waiting and only that, or nothing, and never waits. "
  "The reading thread carries on after failed reads and unknown events for as long as the interface listens, and reads nothing more once it has found the interface gone; it never panics.",
  ["schedules", "inputs", "histories"], "every sequence of terminal events and read errors, and every moment at which the interface goes away",
  "No test reads a terminal; the reader never stopped once its interface was gone (repaired, commit eb20d4d), which no test noticed.",
  [EV], [("Events::new, Event::convert_xt, Iterator for Events", EV)],
  AI_NOTE + " The channel is modelled as an unbounded FIFO queue, the terminal as an arbitrary sequence of events and errors.")
P("T01", "A theme changes nothing but colours, by one fixed palette",
  "Applying an even theme number to a style returns it unchanged; applying an odd one maps its foreground and its background, each on its own and where set, by the light palette and keeps everything else, including all text modifiers. "
  "The light palette maps white to black, magenta to light magenta, light cyan to cyan, light red to red, yellow to rgb(210,105,30), light yellow to rgb(255,140,0), rgb(192,192,192) to rgb(55,55,55), and every other colour to itself. "
  "No number and no style makes it panic.",
  ["inputs"], "every theme number, every pair of set or unset colours of all kinds, including every rgb value, and every set of modifiers",
  "No test applies a theme.",
  [TH], [("Theme for Style, apply, Alter for Light", TH)], AI_NOTE)
P("A01", "The command line means exactly what was typed",
  "Giving -q or --quiet, and nothing else, turns progress output off; every --def takes exactly one value, may be repeated, and all its values are kept in order; every other operand is a file, in order, and without any the file list is empty. "
  "Values are taken verbatim, whatever text they are: nothing is split, defaulted, taken from the environment, required, excluded or rejected. "
  "When --def is not given no definitions are set, and reading accepted arguments never fails.",
  ["inputs"], "every command line the argument library accepts under this configuration",
  "The seven sample command lines never contain separators, values that look like several, or combinations such as a repeated --def between files.",
  [AP], [("App: clap::Parser (CommandFactory, Args, FromArgMatches)", AP)],
  AI_NOTE + " The argument library (clap 3) is trusted to implement the configured settings; the check decides which settings the derived code makes and what it builds from the matches.")
P("H01", "Line history keeps the last 100 entries in order and browses them one by one",
  "Adding a line appends it to the history, drops the oldest entries so that at most 100 remain, leaves the remaining ones unmodified and in order, and returns to the neutral position where nothing is selected. "
  "Stepping back selects the newest entry from neutral, then each next older one, and returns to neutral after the oldest; stepping forward selects the oldest from neutral, then each next newer one, and returns to neutral after the newest. "
  "With no entries nothing is ever selected; browsing and looking never change the entries, and no sequence of calls panics.",
  ["histories", "inputs"], "every sequence of adding lines and stepping back and forward, with every line content",
  "The two tests walk one history of three entries and count one of 1000 equal lines; order after dropping, browsing an empty, a full or a just-truncated history are never tried.",
  [HI], [("History::{add,back,fwd,current}", HI)], AI_NOTE)
FLOW_NOTE = ("Whole-workspace analysis of the type-checked MIR of every crate (call graph with trait, closure and dynamic dispatch resolved conservatively; third-party crates that are not available here are represented by "
             "their signatures only, and assumed to have the effects their documentation gives). Sound over the calls in the graph; the rules name constructs, so a construct outside the listed kinds is not looked at.")
INT = "ogma/src/lang/impls/intrinsics/"
P("X04", "Evaluation is deterministic, whatever the thread scheduling",
  "Running the same expression with the same definitions on the same input gives the same value or the same error every time: parallel evaluation over table rows gives its results in row order, and when several rows fail it is always the same row whose error is returned. "
  "Code that runs in parallel shares nothing that changes but caches that do not affect results, and no result depends on a randomly ordered container, on an address or on a thread's identity.",
  ["schedules", "inputs"], "every expression, table and number of worker threads, and every interleaving of the workers",
  "No test runs anything in parallel twice; that the error returned depended on which worker was first (repaired) shows only under particular timings.",
  [INT + "mod.rs", INT + "morphism.rs", INT + "arithmetic.rs", "ogma/src/lang/types.rs"], [("par_over_tablerows, resolve_trow_expr_par, every rayon call", INT)], FLOW_NOTE)
P("X05", "A value never changes once it exists, and sharing is invisible",
  "No command changes a value another part of the program still holds: writing happens only to values held alone, or to a copy. "
  "A row's remembered column positions always belong to the row's own table and equal what a fresh lookup gives, and two rows compare by table and position alone. "
  "No unsafe code can get around this.",
  ["inputs", "histories", "schedules"], "every value that can be built, every way of sharing it between variables, rows, tables and threads, and every sequence of commands on it",
  "No test keeps a value while changing a copy; that equal rows compared unequal after a lookup in one of them (repaired) needed a particular history.",
  ["ogma/src/lang/types.rs", INT + "pipeline.rs", INT + "morphism.rs", INT + "mod.rs"], [("Value, Table, TableRow::{entry,col_idx,new}, PartialEq for TableRow", "ogma/src/lang/types.rs")], FLOW_NOTE)
P("X02", "Locks never block for good",
  "No thread ever waits for a lock it already holds, no two locks are taken in opposite orders, and nothing waits for another thread, a channel or a parallel computation that may need the same lock while holding it. "
  "So evaluation, the shell and the language server cannot deadlock on their own locks.",
  ["schedules", "histories"], "every reachable path through all crates and every interleaving of the threads",
  "Deadlocks need a particular path with a lock held; writing an error with help while the definitions were locked hung the shell (repaired), which no test noticed.",
  ["ogma-shell/lib.rs", "ogma/src/lang/types.rs", "ogma/src/rt/fscache.rs", "ogma/src/common/err.rs", "ogma-ls/workspace.rs"], [("every lock of a Mutex or RwLock", "all crates")], FLOW_NOTE)
P("X01", "Only the commands made for it have effects, and only those effects",
  "Evaluating an expression reads files only through `open` and `ls`, writes files only through `save`, takes random numbers only through `rand` and reads the clock only through `benchmark` and the file cache. "
  "No command, and no parsing, defining, compiling, printing or help text, writes to the terminal, changes the environment or working directory, ends the process, opens the network or starts a process; defining from a file only reads it.",
  ["inputs", "histories"], "every expression, definition and input value, through every reachable path of every command",
  "Tests see results, not effects; definitions printed left-over debugging output (repaired), which no test noticed.",
  ["ogma/src/lang", "ogma/src/eng", INT + "io.rs", "ogma/src/output", "ogma/src/rt/bat.rs"], [("every function registered as a command, parse, compile, eval, print", "ogma/src")], FLOW_NOTE)
P("X03", "No user action reaches unfinished code",
  "Nothing a user types, defines, evaluates, completes, or opens in an editor leads to a part of the program marked as not implemented or to do. "
  "What is not supported is reported as an error instead.",
  ["inputs", "histories"], "every input to the shell, the batch runner and the language server, through every reachable path",
  "Tests take supported paths; several unfinished places could be reached by ordinary input (repaired), which no test noticed.",
  ["ogma/src/lang/defs.rs", "ogma/src/eng/graphs/tygraph.rs", "ogma/src/eng", "ogma-ls/completion.rs"], [("every todo!/unimplemented! and everything that leads there", "all crates")], FLOW_NOTE)
P("X06", "Numbers from expressions never overflow or index out of bounds",
  "A number an expression computes may be as large as it likes when it is used as a count, an amount or a position: commands either use it or report an error. "
  "It never makes integer arithmetic wrap around or panic, is never cut to fewer bits, indexes nothing without a bounds check, and reserves no memory by itself.",
  ["inputs"], "every number an expression can yield, in every command that turns numbers into integers",
  "Tests use small counts; the largest index overflowed in nth and skip (repaired), which no test noticed.",
  [INT + "mod.rs", INT + "pipeline.rs", INT + "morphism.rs"], [("cnv_num_to_uint and everything its result flows to", INT + "mod.rs")], FLOW_NOTE)
PATH_NOTE = ("Abstract interpretation of the type-checked MIR with paths as terms over the root, the working directory and arbitrary given text; whatever is not path handling is left open (any value, any branch), loops keep nothing an iteration may "
             "change. Assumes the modelled path functions behave as documented and that nobody rearranges links between the check and the use; a file access reached by evaluation but not analysed is reported.")
P("S01", "Commands and the shell never reach files outside the root directory",
  "Whatever path an expression gives, `ls`, `open` and `save` read, list, create or overwrite nothing outside the root directory, neither through `..` or absolute paths nor through links. "
  "The same holds for the batch files the shell's `run` reads, and the working directory `cd` sets always lies inside the root.",
  ["inputs", "histories"], "every path text, working directory and arrangement of directories and links, and every way of computing the path in an expression",
  "The tests try a few relative paths; ls and links leading outside were never tried, and both escaped (repaired).",
  [INT + "io.rs", "ogma-shell/lib.rs", "ogma/src/rt/bat.rs"], [("ls, open and save, scrub_filepath and what it calls", INT + "io.rs"), ("RunState::validate_path", "ogma-shell/lib.rs")], PATH_NOTE)
P("R01", "A batch starts no item after being cancelled or failing fast",
  "Every item of a batch is started only after checking, since the item before, that the batch has not been cancelled and, if it is to fail fast, that no item has failed; an item that fails is noted before the next one starts. "
  "Definitions run one after the other before any expression, each outcome is stored for the item it belongs to, and an item that was not run is never reported as run.",
  ["schedules", "inputs", "histories"], "every batch, run in sequence or in parallel, every moment of cancelling and every pattern of failures",
  "Tests run batches to their end; nothing cancels one, so that cancelling was ignored unless failing fast (repaired) went unnoticed.",
  ["ogma/src/rt/bat.rs"], [("rt::bat::process", "ogma/src/rt/bat.rs")],
  "Typestate analysis over every path of the function that runs a batch (type-checked MIR, abstract interpretation; loops keep nothing an iteration may change; everything but the checks, the runs and the outcomes is left open). What starting an item itself does is outside.")
P("X07", "Waiting for a computation ends, however the computation ends",
  "Whenever the shell waits for a computation on another thread, the waiting ends when that thread ends, also when it ends by a panic and never says that it is done. "
  "No waiting thread keeps alive, by itself, the channel it waits on.",
  ["schedules", "histories"], "every way the other thread may end, at every moment",
  "No test lets a computation panic; both places where the shell waits waited for ever in that case (repaired).",
  ["ogma-shell/lib.rs", "ogma-shell/interface/mod.rs"], [("RunState::process_seq", "ogma-shell/lib.rs"), ("interface::eval", "ogma-shell/interface/mod.rs")], FLOW_NOTE)
LS = "ogma-ls/"
LS_NOTE = ("Typestate analysis by abstract interpretation over every path of the type-checked MIR; calls outside the language server are left open, loops keep nothing an iteration may change. The crates lsp-types and lsp-server are not installed, "
           "so the language server is type-checked against declarations of the parts it uses; channels deliver in order and closures handed to a thread pool run once, as documented.")
P("L01", "Editor positions convert to the right places in the text",
  "A position of an edit, a line and a column in UTF-16 units, becomes the start of that line plus the shortest beginning of the line that takes at least so many units (all of the line where it is shorter), or the end of the text where there is no such line. "
  "A range never ends before it starts, so that applying an edit never splits a character and never panics.",
  ["inputs"], "every text, every line and column, also inside surrogate pairs and past the ends",
  "Tests convert a few ASCII positions; positions inside a surrogate pair and ranges that end before they start went wrong (both repaired).",
  [LS + "lib.rs"], [("linech_to_idx, pos_to_idx, lsp_range_to_range", LS + "lib.rs")],
  "Abstract interpretation of the type-checked MIR; for the loop over a line's characters the equalities with the bytes and UTF-16 units read so far are inferred. Assumes lines() and as_ptr() as documented. lsp-types is not installed: its declarations are stood in for.")
P("L02", "Documents always have the text that the editor's edits give",
  "Notifications are handled one by one, completely, in the order they arrive. "
  "Each edit of a change is applied once, in order, at its range in the text as the edits before it have left it, or replaces the whole text when it has no range; it goes to the document named and is applied whether or not versions are skipped, after which the document has the new version. "
  "Opening stores the given text and version, and edits with a version below the document's change nothing.",
  ["schedules", "inputs", "histories"], "every sequence of open and change notifications, and every timing of their handling",
  "Nothing tests the server; notifications were handled in parallel, in any order, and edits that skipped a version were dropped for ever (both repaired).",
  [LS + "server/mod.rs", LS + "server/file_mgmt.rs", LS + "workspace.rs"], [("Server::run and what it calls", LS + "server/mod.rs"), ("DocChanges", LS + "server/file_mgmt.rs"), ("File::add_changes, apply_changes", LS + "workspace.rs")], LS_NOTE)
P("L03", "Every language server request gets exactly one reply, with its id",
  "Each request received is answered exactly once, with the request's own id, and nothing else is replied to. "
  "The reply carries the result of the handler registered for the method, called once with the request's parameters, or an error when it fails; unknown methods, unreadable parameters and failing handlers get the error codes the protocol has for them.",
  ["inputs", "histories", "schedules"], "every sequence of messages, every method name, parameter and outcome of a handler",
  "Nothing tests the server; requests with unknown methods were never answered (repaired), on which an editor waits for ever.",
  [LS + "server/mod.rs"], [("Server::run, handle_req, ServerCommand::call", LS + "server/mod.rs")], LS_NOTE + " That handlers do not panic is not shown: a panic ends the server.")
P("D01", "Definitions never displace predefined ones and are added wholly or not at all",
  "Adding a definition never replaces a command that is predefined for the same input type, nor any existing type, and a command is stored under its own name for its own input type; where it is refused, all commands and types stay as they were. "
  "Clearing removes exactly the commands and types that come from files, and those from the shell unless only files are asked for, whatever their input types.",
  ["inputs", "histories"], "every definition, in every state of the commands and types defined before",
  "Tests define a few names on fresh definitions; no test defines a type that has the name of a command, which replaced it (repaired).",
  ["ogma/src/lang/defs.rs", "ogma/src/lang/impls/mod.rs", "ogma/src/lang/types.rs"],
  [("process_definition and Definitions::clear", "ogma/src/lang/defs.rs"), ("Implementations::insert_impl, add_typedef_init_impls, Keys::retain", "ogma/src/lang/impls/mod.rs"), ("Types::insert and clear", "ogma/src/lang/types.rs")],
  "Typestate analysis over every path that adds or clears definitions (type-checked MIR, abstract interpretation); each entry of the maps is followed through all it may be (absent, or present with each location and kind), everything but the definitions is left open. "
  "Hash maps, clones and the equality of names are taken to behave as documented; a change of the maps by code that was not followed is reported. The parser is not analysed: that a definition's name is the one written is outside.")
# not applicable
P('P01', 'Parsing any text ends with a result or an error at the right place',
  'Whatever text is given as an expression, a definition or a batch file, parsing ends with a syntax tree or an error and never panics. The place an error points at lies inside the text and on character boundaries.',
  ['inputs'], 'every text',
  'Tests parse chosen texts; parsers fail on odd mixtures of brackets, quotes and multi-byte characters.',
  ['ogma/src/lang/syntax/parse/mod.rs', 'ogma/src/lang/syntax/parse/file.rs'], [['parse, parse_file', 'ogma/src/lang/syntax/parse/mod.rs']], na='the parser is built from nom combinators (closures over closures, instantiated recursively) whose progress and slice offsets are runtime quantities; bounding them statically needs a model of nom and an induction over the grammar, which no analysis in reach gives without alarms on correct code')
P('P02', 'An expression that compiles never fails for its types when evaluated',
  'If the engine resolves the types of an expression and compiles it, evaluating it with an input of the resolved type never fails because a value has another type than was inferred, and inference always ends.',
  ['inputs', 'histories'], 'every expression, definition and input type',
  'Inference works on graphs whose shapes tests sample only.',
  ['ogma/src/eng/comp/mod.rs', 'ogma/src/eng/graphs/tygraph.rs'], [['compile, resolve_tg, infer', 'ogma/src/eng/comp']], na="soundness of the language's own type inference is a property of a fixpoint over runtime graphs (petgraph, not installed here); static analysis of the implementation cannot bound which edges a given expression produces")
P('P03', 'Table commands compute the results their documentation gives',
  'filter, sort, group, map, fold, append, pick, skip, nth, to-str and the other commands give, for every table and argument, the value their help describes, with rows and columns in the documented order.',
  ['inputs'], 'every table, every argument expression',
  'Tests sample small tables.',
  ['ogma/src/lang/impls/intrinsics/morphism.rs', 'ogma/src/lang/impls/intrinsics/pipeline.rs', 'ogma/src/lang/impls/intrinsics/arithmetic.rs'], [['the intrinsics', 'ogma/src/lang/impls/intrinsics/']], na='functional correctness over runtime table contents held in a foreign crate (table) that is not installed; what static analysis can say about these commands (effects, determinism, number safety, sharing) is claimed as X01, X04, X05, X06')
P('P04', 'An opened file always shows the contents it has now',
  'After a file has changed on disk, the next `open` of it gives the new contents, whether the change was made by `save` or by another program.',
  ['schedules', 'histories'], 'every interleaving of changes, notifications and reads',
  'The notification arrives on another thread at any time.',
  ['ogma/src/rt/fscache.rs'], [['FsCache, watcher', 'ogma/src/rt/fscache.rs']], na='freshness depends on when the operating system delivers notifications relative to reads; no source-level argument bounds that, and the code as it is has a window between reading and inserting (see DESIGN.md)')
P('P05', 'Help, errors and tables print so that they can be read back exactly',
  "Printed tables keep every cell's text and alignment at any terminal width, and an error underlines exactly the offending part of the source, for every width and script.",
  ['inputs'], 'every table, width and source text',
  'Display widths of scripts and truncation points are runtime quantities.',
  ['ogma/src/output/print.rs', 'ogma/src/common/err.rs'], [['print_table', 'ogma/src/output/print.rs'], ['Error', 'ogma/src/common/err.rs']], na='widths are computed by foreign crates (comfy-table, cansi) that are not installed, from runtime text')
P('P06', 'Completions in the shell and the editor are relevant and ranked',
  'What is offered fits the place in the expression (commands, types, variables, paths), contains every match of the typed word and ranks better matches first.',
  ['inputs', 'histories'], 'every expression, cursor and set of definitions',
  'Tests check single places.',
  ['ogma-ls/completion.rs'], [['complete', 'ogma-ls/completion.rs']], na="relevance and ranking come from the parser's expectations and a fuzzy search crate (simsearch) that is not installed; there is no oracle for them in the source")
P('P07', "The interface's keys do what its help says in every state",
  'Each key binding has the documented effect on tabs, panes, scrolling, history and the input line in every state of the interface, and drawing never panics at any terminal size.',
  ['inputs', 'histories'], 'every sequence of keys, sizes and results',
  'Tests press a few keys.',
  ['ogma-shell/interface/mod.rs', 'ogma-shell/interface/outputs.rs'], [['handle_key_event, draw', 'ogma-shell/interface/mod.rs']], na="drawing arithmetic depends on terminal sizes and results at run time through tui's layout solver, and the effects run over evaluation results; the parts that can be decided (line, movement, history, completions, events, theme) are claimed as I01-I03, H01, C01-C03, E01, T01")
P('P08', 'Definitions mean what was written, and files of definitions load in full',
  'A definition has the name, parameters and body written, also after any sequence of further definitions, and the definitions of a file are those that its items give in any order.',
  ['inputs', 'histories'], 'every sequence of definitions and files',
  'Tests define a few names.',
  ['ogma/src/lang/defs.rs', 'ogma/src/lang/syntax/parse/file.rs'], [['Definitions::add_from_str', 'ogma/src/lang/defs.rs']], na='what was written is a matter of the nom parser (see P01), and the loader keeps, by design, what was defined before the first failing item of a file, so there is no stronger invariant in the source to decide; that definitions are stored whole, under their names and never over predefined ones is D01')
NOTES = "Every check is `python3 /verif/check.py <id>`; it type-checks /repo's sources under the rustc driver in /verif/driver and decides the property on the resulting MIR facts. DESIGN.md describes the two engines."
