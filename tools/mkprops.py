import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("S01","An acknowledged write leaves exactly the given content in the file",
 "When writing a text, a layout or a footprint to a path reports success, the file at that path holds exactly the bytes that were to be written, whatever it held before and however the operating system split or interrupted the writes. When the system cannot create the file or store all of the content, the call reports an error that names the file. A failed write does not remove the file. Partial and interrupted writes alone never make a write fail.",
 ["fault_sequences","inputs","histories"],
 "For every content (empty, around buffer sizes, non-ASCII), every earlier content of the file, and every sequence of short writes, EINTR, ENOSPC, EIO, EDQUOT, EACCES, EMFILE on open/write/close.",
 "The suite never makes a system call fail or split, and writes no file at all; a lost tail or a swallowed error needs a fault at a particular call.",
 ["src/util.rs","src/lib.rs"],[("write_file","src/util.rs"),("write_layout, write_module","src/lib.rs")],
 ["result of the write call","bytes in the file afterwards"])
p("S02","A read gives the whole file or an error, never part of it",
 "Every reading function gives a result computed from the complete content of the file exactly as stored, or an error. Short and interrupted reads never change the result. A file that cannot be opened, fails while being read, or is not valid UTF-8 is always reported as an error and never as an empty, partial or unknown document.",
 ["fault_sequences","inputs"],
 "For every stored content (BOM, CRLF, NUL, multi-byte characters split across reads, sizes at buffer boundaries) and every sequence of short reads, EINTR, EIO, EISDIR, EACCES, ENOENT, EMFILE.",
 "Tests read intact local files whose reads never fail or split; only fault injection at chosen calls reaches the error and continuation paths.",
 ["src/util.rs","src/lib.rs","src/symbol_lib.rs","src/project.rs","src/schematic.rs"],
 [("read_file","src/util.rs"),("read_kicad_file and the read_* functions","src/lib.rs"),("parse_file functions","src/schematic.rs, src/symbol_lib.rs")],
 ["result of each reading function"])
p("S03","A footprint survives every load, edit, save, restart history unchanged",
 "Loading a well-formed footprint file gives exactly what it contains, and saving it and loading it again, in the same or a restarted program, gives an equal footprint. After any sequence of supported edits (set reference, move, rename nets, flip, rotate, append or change elements) a saved footprint differs from the original only by those edits. A save that failed and is retried gives the same file as one that succeeded at once.",
 ["histories","fault_sequences","inputs"],
 "For every footprint over the whole supported element set and every bounded history of load, edit, save, failed save, retry, process restart.",
 "Tests load four fixed files and compare two of them once; they sample no edit/save/restart history and only a few attribute combinations.",
 ["src/footprint/data.rs","src/footprint/de.rs","src/footprint/ser.rs","src/formatter.rs","src/lib.rs"],
 [("footprint decoding","src/footprint/de.rs"),("footprint encoding","src/footprint/ser.rs"),("edits","src/footprint/data.rs"),("pretty printer","src/formatter.rs")],
 ["loaded footprint value","bytes of the saved file"])
p("S04","A layout survives every load, edit, save, restart history unchanged",
 "Loading a well-formed layout file gives exactly what it contains, in order, and saving it and loading it again, in the same or a restarted program, gives an equal layout. After any sequence of supported edits (move, add nets and net classes, edit a named footprint, change setup values, change fields) a saved layout differs from the original only by those edits. Looking things up in a layout gives what the layout contains.",
 ["histories","fault_sequences","inputs"],
 "For every layout over the whole supported element set and every bounded history of load, edit, lookup, save, failed save, retry, process restart.",
 "Two fixed layouts are loaded and re-encoded once; edits, lookups and multi-step histories are not exercised.",
 ["src/layout/data.rs","src/layout/de.rs","src/layout/ser.rs","src/formatter.rs","src/lib.rs"],
 [("layout decoding","src/layout/de.rs"),("layout encoding","src/layout/ser.rs"),("edits and lookups","src/layout/data.rs")],
 ["loaded layout value","bytes of the saved file"])
p("S05","A schematic survives every load, edit, save, restart history unchanged",
 "Loading a well-formed schematic file gives exactly what it contains, and printing, saving and loading it again gives an equal schematic. After any sequence of supported edits (component changes by reference, references, names, fields, sheet count) a saved schematic differs from the original only by those edits, and an edit addressed to a component leaves all others as they were. Looking up a component by reference gives that component or an error if there is none.",
 ["histories","fault_sequences","inputs"],
 "For every schematic over the supported element set (components with any unit, fields, connections, texts, sheets, raw drawings) and every bounded history of load, edit, lookup, save, failed save, retry, process restart.",
 "One fixed schematic is parsed; nothing saves, edits or reloads it.",
 ["src/schematic.rs","src/util.rs"],
 [("schematic parser","src/schematic.rs"),("schematic printer","src/schematic.rs"),("component edits","src/schematic.rs")],
 ["loaded schematic value","bytes of the saved file"])
p("S06","A symbol library survives every load, edit, save, restart history unchanged",
 "Loading a well-formed symbol library gives exactly the symbols, fields, aliases, pins and drawing lines it contains, and printing, saving and loading it again gives an equal library. After any sequence of supported edits (rename, field changes, pin changes) a saved library differs from the original only by those edits. Finding a symbol or a pin gives the matching one or none.",
 ["histories","fault_sequences","inputs"],
 "For every library over the supported element set and every bounded history of load, edit, lookup, save, failed save, retry, process restart.",
 "One fixed library is parsed and its symbol count checked.",
 ["src/symbol_lib.rs","src/util.rs"],
 [("symbol library parser","src/symbol_lib.rs"),("symbol library printer","src/symbol_lib.rs")],
 ["loaded library value","bytes of the saved file"])
p("S07","Library tables and projects survive load, save, restart histories",
 "Loading a footprint library table gives every entry, in order, with name, type, location, options and description exactly as stored, and encoding, saving and loading it again gives an equal table. A project file is kept exactly as stored. This holds over every history of edits, failed saves, retries and restarts.",
 ["histories","fault_sequences","inputs"],
 "For every table and project over the supported syntax and every bounded history.",
 "One fixed table is parsed; projects are not tested at all.",
 ["src/fp_lib_table.rs","src/project.rs"],
 [("table decoding and encoding","src/fp_lib_table.rs"),("project parser","src/project.rs")],
 ["loaded value","bytes of the saved file"])
p("S08","Library locations expand with the environment as it is at the call",
 "Expanding a library location replaces every environment variable reference by the value the variable has when the call is made, and a leading tilde by the home directory, and leaves all other text alone. A reference to a variable that is not set is an error and never an empty or partial location. Expansion never changes the table, so later saves still store the unexpanded text.",
 ["histories","configurations","inputs"],
 "For every location text and every history of environment changes, expansions, edits, saves and restarts.",
 "No test expands a location, and the result depends on the environment's history.",
 ["src/fp_lib_table.rs"],[("uri expansion","src/fp_lib_table.rs")],["result of the expansion","table value and saved bytes afterwards"])
p("S09","A damaged file gives a document or an error, never a crash or a hang",
 "Whatever bytes a file holds after damage (truncation, lost or duplicated lines or blocks, flipped bits, zeroed or garbage blocks, mixed-up files), every reading function returns a document or an error within bounded work, and never panics, aborts, overflows the stack or hangs. A document that is returned can be printed, saved and queried without a panic.",
 ["fault_sequences","inputs","crash_points"],
 "For every damage to a stored file of every supported kind and every reading function; files up to the sizes generated.",
 "Tests only read well-formed files.",
 ["src/lib.rs","src/schematic.rs","src/symbol_lib.rs","src/project.rs","src/fp_lib_table.rs","src/footprint/de.rs","src/layout/de.rs"],
 [("line based parsers","src/schematic.rs, src/symbol_lib.rs, src/project.rs"),("s-expression decoders","src/footprint/de.rs, src/layout/de.rs, src/fp_lib_table.rs")],
 ["result of each reading function","process status"])
p("S10","A save cut short by a crash is never read as a complete document",
 "If the program or the machine stops during a save, a later load of a footprint, layout, schematic, symbol library or library table gives the complete old document, the complete new document, or an error. It never gives a shortened or mixed document as if it were complete. Repeating the save after the restart gives the new document.",
 ["crash_points","fault_sequences","histories"],
 "For every crash point between two system calls of a save, every number of bytes of the interrupted write that reached the file, and every old/new pair of documents.",
 "Tests cannot stop a save at a chosen call and restart from what was stored.",
 ["src/util.rs","src/schematic.rs","src/symbol_lib.rs","src/footprint/de.rs","src/layout/de.rs","src/fp_lib_table.rs"],
 [("end markers of the line formats","src/schematic.rs, src/symbol_lib.rs"),("closing brackets of the s-expression formats","src/footprint/de.rs, src/layout/de.rs, src/fp_lib_table.rs")],
 ["result of the load after the crash"])
p("S11","Listing all components of a sheet hierarchy is complete or an error",
 "Listing the components of a schematic with its sub-sheets gives exactly the components of every sheet, parents before children in sheet order, each as often as its sheet is used, with file names taken relative to the sheet that names them. If any sheet in the hierarchy cannot be found, read or parsed the result is an error, never a shorter list.",
 ["fault_sequences","histories","inputs"],
 "For every sheet tree (depth, fan-out, directories, shared sheets) and every missing, unreadable, damaged, late-failing or concurrently edited sheet file.",
 "No test uses sub-sheets; a silently shortened list needs a failure in one particular file.",
 ["src/schematic.rs"],[("hierarchical component listing","src/schematic.rs")],["returned component list"])
p("S12","Searching a sheet hierarchy finds exactly the components it contains",
 "Searching a schematic and its sub-sheets for a reference gives a component with that reference which really is in the hierarchy, and the first one in listing order when no fault occurs. When no sheet contains it, or a sheet that had to be searched cannot be read, the result is an error.",
 ["fault_sequences","histories","inputs"],
 "For every sheet tree, every reference (in the root, in a nested sheet, in several sheets, in none, a prefix of another) and every failing sheet file.",
 "No test uses sub-sheets.",
 ["src/schematic.rs"],[("hierarchical search by reference","src/schematic.rs")],["returned component or error"])
p("S13","A sheet hierarchy that contains itself is an error, not a crash",
 "When a sheet uses itself directly or through other sheets, whatever names are used for the files, listing and searching the hierarchy end within bounded work with an error, or with a component that was found before the loop was reached. A sheet that is merely used more than once without a loop is not an error.",
 ["histories","fault_sequences","inputs"],
 "For every cyclic or shared sheet graph, including path aliases and graphs that become cyclic through a concurrent edit.",
 "A loop makes the process overflow its stack; no test has sub-sheets.",
 ["src/schematic.rs"],[("hierarchical listing and search","src/schematic.rs")],["result, process status, number of files read"])
p("S14","Identifying a file reports its real kind from one consistent version",
 "Reading a file of unknown kind gives the kind and the content of what is stored: every well-formed footprint, schematic, layout, symbol library, project and library table is recognised as such, and anything else is reported as unknown. When a kind is required, another kind is an error. When the file is replaced by another one during the call, the answer is that of the old or the new version, never of a mixture.",
 ["schedules","fault_sequences","inputs"],
 "For every stored content, every required kind and every point of the call at which the file is replaced.",
 "Tests read files of the expected kind which nobody changes meanwhile.",
 ["src/lib.rs","src/project.rs","src/fp_lib_table.rs"],[("identification by trying each format","src/lib.rs")],["returned kind and content"])
p("S15","Concurrent callers working on different files do not affect each other",
 "When several threads load, edit, print, search and save different files at the same time, each gets the results and leaves the files it would have produced alone, whatever the interleaving and whatever faults the other threads meet. No interleaving blocks them for ever.",
 ["schedules","fault_sequences","histories"],
 "For every interleaving of 2 to 4 caller threads at system calls, allocations, log records and locks, with faults in some of them.",
 "Every test is a single call on one thread.",
 ["src/lib.rs","src/util.rs","src/schematic.rs","src/symbol_lib.rs","src/footprint/mod.rs","src/layout/mod.rs","src/formatter.rs"],
 [("absence of shared mutable state","src/")],["per-thread results","files afterwards"])
p("S16","Printing into a failing or slow sink reports it and emits only a prefix",
 "Printing a schematic or a symbol library, or any of their parts, into a sink gives the complete text when the sink accepts everything, however it splits it. When the sink fails, printing stops, reports the failure, and what the sink received is a prefix of the complete text.",
 ["fault_sequences","inputs"],
 "For every document and every point at which the sink fails or takes less than offered.",
 "Tests print to no sink that fails.",
 ["src/schematic.rs","src/symbol_lib.rs","src/lib.rs"],[("error propagation in the printers","src/schematic.rs, src/symbol_lib.rs")],
 ["result of printing","text received by the sink"])
p("S17","Operations touch only the file they were given and release everything",
 "Reading never creates, changes or removes anything, and writing changes only the named file and leaves nothing else behind when it succeeds. Saving never removes the file it was given, even when it fails. Whether an operation succeeds, fails or meets a fault, every file it opened is closed when it returns. Parsing, printing and saving write nothing to standard output and do not depend on its state.",
 ["fault_sequences","histories","inputs"],
 "For every operation of the library on every document and every fault sequence.",
 "Tests do not observe system calls; a leak or a stray write shows only on a fault path or on rare content.",
 ["src/util.rs","src/schematic.rs","src/lib.rs","src/symbol_lib.rs"],[("file handling","src/util.rs"),("reporting of unknown lines","src/schematic.rs")],
 ["files created, changed, removed, left open","bytes on standard output"])
p("S18","Changing net names reaches every use exactly once or stops with the error",
 "Changing net names of a layout applies the given function exactly once to the name of every net, every net class member, every pad connection and every zone net, and to nothing else, and rejecting a name stops the change and reports the given error unchanged. A name that KiCad made from a component and a pad (Net-(R1-Pad2)) is told apart from a given one, and changing its component leaves the pad. Renaming one net of a footprint changes the net name of exactly the pads connected to it. After save and restart the file shows the names so changed.",
 ["histories","fault_sequences","inputs"],
 "For every layout, every naming function and every call at which it fails, in histories with saves and restarts.",
 "No test renames nets.",
 ["src/layout/data.rs","src/footprint/data.rs"],[("net name change","src/layout/data.rs"),("net rename","src/footprint/data.rs")],
 ["calls of the naming function","layout afterwards","saved file"])
p("S19","Convention fixes can be retried and converge over crashes and restarts",
 "Applying the convention fixes to a footprint and saving it gives a file on which, after a restart, the same check no longer reports what was fixed, and applying the fixes again changes nothing. Crashing or failing at any point of fix and save and starting over from the stored file gives the same final file as an undisturbed run. Fixing leaves everything but the reported items as it was.",
 ["crash_points","histories","fault_sequences","inputs"],
 "For every footprint over the supported elements, every settings of the check and every crash point or failed save in a fix, save, restart, retry history.",
 "No test runs a check or a fix.",
 ["src/footprint/data.rs","src/checkfix.rs","src/symbol_lib.rs"],[("footprint fixes","src/footprint/data.rs"),("check configuration","src/checkfix.rs")],
 ["saved file","reported items"])
p("S20","The command line tools succeed only with complete output and spare inputs",
 "A command line tool that exits successfully has produced the complete output for the complete content of its input files. When an input cannot be read or its output cannot be written it exits unsuccessfully or reports the problem. Tools never change their input files.",
 ["fault_sequences","inputs"],
 "For every tool, every input and every sequence of read and write faults.",
 "The tools have no tests.",
 ["src/bin"],[("tool main functions","src/bin")],["exit status, output, files afterwards"])
p("P01","Bounding boxes enclose their items","The bounding box of a layout item, footprint or symbol encloses its drawn elements, is empty exactly when there are none, and does not depend on element order.",
 ["inputs"],"For every item.","Few geometries are sampled.",["src/lib.rs","src/footprint/data.rs","src/layout/data.rs","src/symbol_lib.rs"],[("bounding boxes","src/lib.rs")],["returned box"])
p("P02","Convention checks report exactly the rule violations","The convention checks report each rule violation of a footprint or symbol exactly once and report nothing on a conforming one.",
 ["inputs"],"For every footprint and symbol.","No test runs a check.",["src/checkfix.rs","src/footprint/data.rs","src/symbol_lib.rs"],[("check rules","src/checkfix.rs")],["returned report"])
p("P03","References sort by letter and number","Ordering by reference puts references in order of their leading letter and then of their number.",
 ["inputs"],"For every pair of references.","No test sorts references.",["src/lib.rs"],[("reference ordering","src/lib.rs")],["returned key"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
