#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

T11 = "The 11 existing tests assemble 11 fixed sources once each on a healthy file system and diff the code file; "

p("C01", "A reported success means the code file holds exactly the program's bytes",
  "Whenever an assembly of a program that emits code reports success, the code file named by -o is complete and well formed (S-record or Intel HEX record lengths, checksums, one final terminator record) and decodes, in record order, to exactly the bytes the source emits, each at its own address and none lost, repeated or moved; the reported code length and last address agree with it. "
  "A valid program is accepted, and this holds for every program in one output format built from origins, data, strings, reserves, alignments, code/dummy sections, equates, forward and backward labels, bit references, conditionals, macros, includes and machine instructions, and however the environment delivers the I/O: reads and writes of any size, any buffering, any older file already at that path.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all programs in the generated language x all short-read/short-write/buffer-size patterns, allocator contents and pre-existing code files",
  T11 + "they never vary how the bytes reach or leave the process and reach a handful of origin changes, section switches and record boundaries.",
  ["src/scode.c", "src/crasm.c", "src/pseudos.c", "src/label.c", "src/macro.c", "src/parse.c"],
  [("record buffer flushed on address jump / 16 bytes / end", "src/scode.c setpc insert8 flushscoderaw closescodefile"), ("two passes with forward references", "src/crasm.c pass, src/label.c findlabel deflabel undeflabels")],
  ["code file as left in the simulated file system", "listing summary (Code length, Last address)"],
  [("raw/rawstart/rawnumber", "bytes pending for the current record", "src/scode.c"), ("pc", "address of the next byte", "src/scode.c")])

p("C02", "A failure to write the code file is never reported as success",
  "If opening, writing or closing the code file fails at any point of an assembly (disk full, I/O error, quota, no permission; once or for good), the run does not report success: the summary never says the assembly was successful, the exit status is non-zero and a message names the file problem. "
  "Conversely, writes that merely transfer fewer bytes than asked, and then succeed, do not make the assembly fail.",
  ["fault_sequences", "inputs"],
  "every position of a failing open/write/close on the code file x errno x transient or persistent x disk capacity in bytes x programs and buffer sizes",
  T11 + "no test makes any output operation fail.",
  ["src/scode.c", "src/crasm.c"],
  [("stream error checks on the code file", "src/scode.c scodebyte closescodefile"), ("fatal on failing open", "src/scode.c insert8")],
  ["exit status", "standard output", "code file"])

p("C03", "A failed assembly leaves no code file",
  "When a run with -o ends in failure, whether through source errors, a fatal error, an unreadable source or include, exhausted memory or a code file that cannot be written, no byte written by that run remains at the code file path. "
  "If the failure is counted as source errors, a code file left there by an earlier run is removed as well; after a fatal error the path holds either nothing or exactly what it held before the run.",
  ["fault_sequences", "inputs", "histories"],
  "every kind and position of failure (source errors, fatal errors, injected I/O and allocation failures) x presence of an older code file x programs",
  T11 + "none of them fails, so removal of partial or stale code files is never exercised.",
  ["src/crasm.c", "src/scode.c", "src/macro.c"],
  [("code file removed when errors were counted", "src/crasm.c crasm"), ("partial code file dropped on fatal error", "src/crasm.c fatal")],
  ["simulated file system after exit", "exit status"])

p("C04", "A run killed at any instant never leaves a complete-looking wrong code file",
  "If crasm is killed at an arbitrary instant, what is found at the code file path is nothing, the untouched older file, or a prefix of the code file of this program, and it carries the terminating record only if it is the complete code file of a program without errors. "
  "Running the same assembly again afterwards gives the same result as if the killed run had never happened.",
  ["crash_points", "inputs"],
  "every kill point between two system-visible operations x programs with and without errors x buffer sizes, followed by an undisturbed re-run",
  T11 + "no test ever interrupts the program.",
  ["src/scode.c", "src/crasm.c"],
  [("terminator written last and only for a good assembly", "src/scode.c closescodefile, src/crasm.c crasm"), ("opening truncates whatever a killed run left", "src/scode.c insert8")],
  ["simulated file system after the kill", "result of the re-run"])

p("C05", "A read error is never taken for the end of the source and never hangs the run",
  "If reading the source file or any included file, or going back to its start for the second pass, fails at any point and at any nesting, the run stops within a bounded number of steps and does not report success. "
  "Text that was not read is never silently treated as absent.",
  ["fault_sequences", "inputs", "schedules"],
  "every position of a failing read (EIO, EISDIR, ESTALE; once or for good) on the main file and on includes x both passes x programs and read sizes",
  T11 + "no test makes a read fail.",
  ["src/macro.c", "src/crasm.c"],
  [("line reader checks the stream for errors", "src/macro.c linegets"), ("per-pass loop until end of the main file", "src/crasm.c pass")],
  ["exit status", "standard output", "code file", "step count"])

p("C06", "The code does not depend on how the source text is delivered",
  "For the same sequence of source lines the generated code and the verdict are the same whatever the size of the individual reads, whether or not the last line of the source or of an include ends in a newline (including when that line is an INCLUDE, an ENDC, an ENDM or a macro call), whether lines end in LF or CR LF, and whether a run of lines stands in the source itself or is moved to an included file.",
  ["inputs", "histories", "schedules"],
  "programs x end-of-file placement on every kind of last line x read sizes x line terminators x splits of the text into included files",
  T11 + "every test file ends in a newline and is read in page-size blocks; one test uses INCLUDE, always in the middle of a file.",
  ["src/macro.c", "src/crasm.c"],
  [("source stack with end-of-file per level", "src/macro.c linegets Xinclude"), ("end of input test of the pass and of IF and MACRO", "src/crasm.c pass, src/macro.c Xif Xmacro")],
  ["code file", "verdict"], [("source[]/sourcelevel", "stack of open files and running macros", "src/macro.c")])

p("C07", "An include that cannot be opened never leads to wrong code",
  "If an include file cannot be opened, at any occurrence and in either pass (missing, no permission, too many open files; once or for good), the run either still produces exactly the code of the whole program or reports failure and leaves no code file. "
  "An include missing in the first pass only must not shift addresses in code that is then reported as successful.",
  ["fault_sequences", "inputs", "schedules"],
  "every include occurrence x both passes x errno x transient or persistent x programs with forward references across the include",
  T11 + "the only includes tested exist and open at the first try.",
  ["src/macro.c", "src/crasm.c", "src/label.c"],
  [("error on failing include", "src/macro.c Xinclude"), ("labels checked between the passes", "src/label.c deflabel")],
  ["code file", "verdict"])

p("C08", "In accepted code every label reference equals the label's real address",
  "In every assembly reported as successful, every reference to a label, forward or backward, assembles the address at which that label was actually placed by the same run. "
  "This holds even if source or include files are replaced, rewritten in place, appear or vanish while the assembler is working: then the run either is consistent in this sense or fails. If nothing changes meanwhile, a program in which every label is defined once in its scope is accepted, however many labels, sections and macro expansions it has.",
  ["schedules", "inputs", "fault_sequences"],
  "all instants at which another process changes the source or an include between and inside the two passes x kinds of change x programs",
  T11 + "files never change while a test runs, and the reference outputs sample a few dozen labels.",
  ["src/label.c", "src/crasm.c", "src/parse.c", "src/operator.c"],
  [("first-pass values used for forward references", "src/label.c findlabel deflabel, src/operator.c cstlabel"), ("labels compared between the passes", "src/label.c deflabel")],
  ["code file"], [("UNDEF/FORWARD flags", "not yet defined in this pass / referenced before its definition", "src/label.h")])

p("C09", "An erroneous line is reported once, in its place, and affects no other line",
  "Every erroneous source line is reported with exactly one error message carrying the line number at which it stands in its own file (inside a macro expansion, that of the call), wherever it stands: at top level, inside taken conditional branches, macro expansions or included files. "
  "All other lines that do not use a label of an erroneous line assemble to the same bytes at the same addresses as if each erroneous line were replaced by a reservation of the space it takes (most take none), and the error count in the summary equals the number of messages.",
  ["inputs", "histories", "fault_sequences"],
  "any set of faulty lines (unknown mnemonic, instructions and addressing modes the selected CPU does not have, malformed label, undefined label, FAIL, redefinition, missing include, no operand) injected at any positions and nesting levels of programs",
  T11 + "no test contains an error, so the non-local recovery after an error is never executed in the reporting pass.",
  ["src/crasm.c", "src/macro.c", "src/label.c"],
  [("error recovery by longjmp to the innermost reader", "src/crasm.c error pass, src/macro.c Xif Xmacro macrocall")],
  ["listing on standard output"], [("errorjump", "where processing continues after an error", "src/crasm.c")])

p("C10", "Source text cut off inside a conditional or macro block is always an error",
  "If the input ends, at whatever byte, while an IF block or a MACRO definition is still open, the assembly reports an error and leaves no code file; it neither hangs nor crashes. "
  "If it ends between blocks, the lines that are there are assembled as usual.",
  ["inputs", "fault_sequences", "crash_points"],
  "every truncation point of programs with nested conditionals, macros and includes (as left by a torn write or a full disk on the editor's side)",
  T11 + "all of them end outside any block.",
  ["src/macro.c", "src/crasm.c"],
  [("end of file check in block readers", "src/macro.c Xif Xmacro")],
  ["verdict", "code file"])

p("C11", "Whatever bytes the source contains, the run ends in an orderly way",
  "For any source and include contents, including text damaged by flipped, zeroed, lost, repeated or exchanged bytes and over-long lines, operands, names or nesting, the assembler makes no invalid memory access, is not killed by a signal, finishes within a number of steps bounded by the work the source asks for, and exits with either a summary or a fatal error message.",
  ["inputs", "fault_sequences"],
  "storage damage of any kind applied to generated programs and to the shipped test sources, under every option",
  T11 + "all are well-formed programs written by the authors.",
  ["src/filter.c", "src/parse.c", "src/operator.c", "src/crasm.c", "src/output.c", "src/macro.c", "src/pseudos.c", "src/label.c", "src/xref.c"],
  [("fixed-size line, match, message and listing buffers with limits", "src/filter.c filter, src/crasm.c error, src/output.c outputcar, src/macro.c linegets macrocall")],
  ["exit of the process", "sanitizer reports", "step count"])

p("C12", "Running out of memory ends the run in an orderly way",
  "If any single memory request of an assembly fails, or all requests from some point on, the run ends with a non-zero exit status and without reporting success, does not crash or hang, and leaves no code file written by it.",
  ["fault_sequences", "inputs"],
  "every allocation of a run x single or persistent failure x programs with many labels, macros and includes",
  T11 + "allocation never fails in a test.",
  ["src/label.c", "src/macro.c", "src/crasm.c"],
  [("fatal error on failing allocation", "src/label.c makelabel, src/macro.c Xmacro")],
  ["exit status", "standard output", "code file"])

p("C13", "Open files are bounded by the include nesting and all closed at the end",
  "At any time the assembler holds open at most the source, the files of the includes being read at that moment and the code file, and at the end of each pass every include has been closed, also when errors occurred. "
  "Hence a program may include any number of files one after another, and a nesting that needs no more descriptors than are available assembles correctly.",
  ["inputs", "histories", "fault_sequences"],
  "programs with any number, repetition and nesting of includes, with errors, early macro exits and truncations at any point, under any descriptor limit",
  T11 + "one test includes two files.",
  ["src/macro.c", "src/crasm.c", "src/scode.c"],
  [("include closed when its level is left", "src/macro.c linegets"), ("nesting limit", "src/macro.c Xinclude macrocall")],
  ["simulated descriptor table"])

p("C14", "No file other than the code file is ever created, changed or removed",
  "Whatever the source contains and whatever fails during the run, the assembler creates, writes, truncates, renames or removes nothing but the path given with -o, and nothing at all without -o; the source and the included files are only read. "
  "Running out of disk, memory or descriptors does not change this.",
  ["fault_sequences", "inputs", "configurations"],
  "all programs, options and fault sequences of the other properties",
  T11 + "they look only at the code file.",
  ["src/crasm.c", "src/scode.c", "src/macro.c"],
  [("only the code file is opened for writing or removed", "src/scode.c insert8, src/crasm.c crasm")],
  ["trace of file operations", "file system before and after"])

p("C15", "Equal inputs give equal outputs",
  "The code file, the listing and the exit status depend on nothing but the options and the contents of the source and include files: not on what memory contained before, on addresses, buffering, timing, date, environment variables, or files left by earlier runs.",
  ["schedules", "configurations", "histories", "inputs"],
  "contents of fresh heap and stack memory x read/write sizes x buffer sizes x clock and environment x older code file x programs with errors, warnings, macros and long symbol tables",
  T11 + "each test is run once on one machine.",
  ["src/label.c", "src/macro.c", "src/operator.c", "src/parse.c", "src/output.c", "src/xref.c"],
  [("initialised label storage and results", "src/label.c makelabel, src/operator.c cst")],
  ["code file", "standard output", "exit status"])

p("C16", "Losing the listing never damages the code, and is reported",
  "If standard output or standard error cannot be written at any point (disk full, I/O error), the run still ends, and the code file is exactly the one an undisturbed run leaves (present for a good program, absent for an erroneous one). "
  "If part of the listing on standard output was lost, the exit status is non-zero.",
  ["fault_sequences", "inputs"],
  "every position of a failing write on standard output or standard error x errno x transient or persistent x buffer sizes x options",
  T11 + "standard output never fails in a test.",
  ["src/output.c", "src/crasm.c"],
  [("listing output", "src/output.c outputraw"), ("exit status", "src/crasm.c main")],
  ["code file", "exit status"])

p("C17", "Concurrent assemblies do not disturb each other",
  "Several assemblies running at the same time in one directory, each with its own code file and freely sharing sources and includes, each give exactly the code file, listing and exit status they give when run alone, whatever the order in which their operations are interleaved and even if some of them are killed or fail.",
  ["schedules", "inputs", "crash_points"],
  "all interleavings of the file operations of 2 to 4 processes x kills x programs sharing includes",
  T11 + "the test makefile runs one assembly at a time.",
  ["src/crasm.c", "src/scode.c", "src/macro.c"],
  [("no shared scratch files", "src/scode.c insert8, src/macro.c Xinclude")],
  ["code files", "standard output", "exit status"])

p("C18", "Exit status, summary, error messages and code file agree",
  "At the end of every run that is not killed and could write its listing, exactly one verdict is visible: either success (exit status zero, the summary says successful with zero errors, no error message in the listing, and the code file exists if the program emits code and -o was given), or failure (non-zero exit status, an error or fatal message, no claim of success). "
  "The number of errors in the summary equals the number of error messages in the listing and, as long as all of the source is listed, the number of warnings equals the number of warning messages.",
  ["inputs", "fault_sequences", "configurations"],
  "programs with any mix of good lines, errors and warnings x options x injected faults of any kind",
  T11 + "they check neither the exit status, nor the summary, nor the listing.",
  ["src/crasm.c", "src/xref.c", "src/scode.c"],
  [("error and warning counters", "src/crasm.c error warning pass"), ("summary", "src/xref.c result"), ("exit status", "src/crasm.c main")],
  ["exit status", "standard output", "code file"])

p("C19", "The listing shows every line with its number and exactly its emitted bytes",
  "In the listing of a successful assembly, every line of the main file, and with ILIST ON of every included file, that LIST, CLIST and ILIST do not exclude appears exactly once, in reading order, with its own text and its own line number within its file; nothing else appears as a line of the source. "
  "Beside each line stand, at their addresses, the bytes which that line (or, for a macro call with MLIST OFF, its expansion) put into the code file - all of them, or at least the first twenty of longer ones - and no other bytes; beside a definition by = or EQU, and beside labels in DUMMY sections, stands their value. "
  "This holds for any page length, any read and write sizes and any memory contents.",
  ["inputs", "configurations", "histories"],
  "programs with includes, macros, conditionals and sections x positions of LIST, CLIST, ILIST and MLIST switches x page lengths x environments",
  T11 + "the tests switch the listing off (-l) and compare only the code file.",
  ["src/output.c", "src/crasm.c", "src/macro.c", "src/pseudos.c"],
  [("line assembly and page breaks", "src/output.c outputline outputbyte outputraw"), ("listing state saved around includes and macros", "src/macro.c linegets Xinclude macrocall Xif")],
  ["standard output", "code file"],
  [("linebuffer/lpos", "the line of the listing under construction", "src/output.c"), ("linenumber/lineprefix", "what stands in front of the text", "src/crasm.c, src/macro.c")])

p("C20", "The symbol table lists every symbol once, with its kind and final value",
  "The symbol table after the summary of a successful assembly contains every global label, every symbol defined by = or EQU, every bit reference, every other name given to a register or mnemonic and every macro of the program exactly once, under its full name and kind, with the value it has at the end of the assembly - for labels the address which references to them got in the code - and no name the program does not define. "
  "This holds for any number of symbols and any order of definition, for names with long common beginnings and in any mixture of cases, and however the environment delivers the I/O and the memory.",
  ["inputs", "configurations"],
  "programs with up to several hundred symbols of all kinds and name styles x environments and memory contents",
  T11 + "no test produces a symbol table.",
  ["src/xref.c", "src/label.c", "src/output.c"],
  [("tree of labels", "src/label.c findlabel, src/xref.c xref2"), ("one entry", "src/xref.c printlabel")],
  ["standard output"],
  [("lroot", "all labels, kept from the first pass to the table", "src/label.c")])

p("C21", "After any history of failed or killed runs, the next undisturbed run is clean",
  "Whatever happened in earlier assemblies in the same directory - success, source errors, failing reads, writes, closes or opens, full disk, exhausted memory, kills at any instant, edited sources in between - an assembly that is then run without disturbance gives exactly the code file, listing and exit status it would give in a directory holding nothing but its sources. "
  "After each assembly of such a history the code file path holds nothing, what it held before, or this assembly's own code (a beginning of it only after a kill), and no run leaves any other file behind.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "sequences of 2 to 4 assemblies of equal, edited or different programs with the same code file x faults and kills in all but the last",
  T11 + "each runs once, in a directory of fresh outputs, without faults.",
  ["src/crasm.c", "src/scode.c"],
  [("code file truncated at opening, removed after errors", "src/scode.c insert8 discardscodefile, src/crasm.c crasm")],
  ["simulated file system after each run", "standard output", "exit status"])

p("C22", "Options change only what they are documented to change",
  "Whether -s, -l, -x and -o are given, together or apart, before or after the source name, changes nothing in the verdict: the exit status, the errors reported and counted, the code length and last address in the summary and the contents of the code file are the same with and without them. "
  "With -s no warning is shown or counted, without it the same warnings are counted whether or not the listing is shown; with -l no source line is listed other than those in error; without -o no file is made. This holds for correct and erroneous programs, for damaged sources and when reads or includes fail.",
  ["configurations", "inputs", "fault_sequences"],
  "programs and damaged sources x sets and orders of options x environments x failing reads and includes",
  T11 + "all with the same options.",
  ["src/crasm.c", "src/output.c", "src/scode.c"],
  [("flags kept apart from the assembly", "src/crasm.c main crasm error warning, src/scode.c insert8")],
  ["exit status", "standard output", "code file"])

p("C23", "What does not fit is warned about exactly once, in its place; the rest is not",
  "A value that does not fit where it is put - an operand of DB outside 0..255, of DW or DDB outside 0..65535, a fill value of DS outside 0..255, a byte operand of an instruction outside 0..255, an index displacement outside -128..127 - a complete operand in parentheses an instruction does not take as an address, a second NAM or PAGE, a SKIP by less than 0 or more than 100, A named as the first operand of a Z80 operation that has it anyway, and a line with unprintable characters (they are dropped) are each warned about exactly once, with the number of the line where they occur; nothing else is. "
  "A warning changes neither the code, which has the low bits of the value, nor the exit status; the summary counts the warnings, including those in lines not listed. (Negative data values may or may not be warned about; symbols named like keywords are not considered.)",
  ["inputs", "configurations", "schedules"],
  "programs with values at and beyond the limits at every place a value is put x operands in parentheses x listing switched on and off x I/O schedules",
  T11 + "their listings, where the warnings are, are not compared.",
  ["src/crasm.c", "src/parse.c", "src/pseudos.c", "src/cpu6502.c", "src/cpu6800.c", "src/cpuz80.c", "src/cpulist.c", "src/output.c"],
  [("warnings are given in the second pass only", "src/crasm.c warning"), ("limits of data directives", "src/pseudos.c"), ("operands in parentheses", "src/parse.c parse")],
  ["standard output", "code file", "exit status"])

# ---- pure functions of the source text: not decided by this technique ----------------
NA = "pure function of the source"
p("C30", "Every documented instruction and addressing mode has its manufacturer's encoding",
  "For each supported CPU, every mnemonic with every addressing mode of that CPU assembles to the opcode and operand bytes in the manufacturer's instruction set, with the shortest form when the operand is known to fit, and illegal combinations are errors.",
  ["inputs"], "all instructions, addressing modes and operand values of the seven CPU variants",
  T11 + "only the Z80 has a (nearly) full opcode list among them.",
  ["src/cpu6502.c", "src/cpu6800.c", "src/cpuz80.c", "src/cpulist.c"], [("opcode tables and addressing mode patterns", "src/cpu*.c")], ["code file"])
p("C31", "Expressions evaluate as documented",
  "Constants in all documented notations and all operators with the documented precedence evaluate to the documented 32-bit value, and ill-typed or malformed expressions are errors.",
  ["inputs"], "all expressions", T11 + "they contain a few dozen expressions.",
  ["src/parse.c", "src/operator.c"], [("pattern-driven recursive evaluation", "src/parse.c parse2")], ["code file"])
p("C32", "Macro parameters are substituted textually",
  "A macro call behaves as the macro body with \\1..\\9, \\# and \\* replaced by the operands, their number and the whole operand text.",
  ["inputs"], "all macro bodies and operand lists", T11 + "three macros are tested.",
  ["src/macro.c"], [("substitution while reading a macro line", "src/macro.c linegets macrocall")], ["code file"])
p("C33", "Conditional assembly selects the documented branch",
  "IF/ELSE/ENDC assemble exactly the branch selected by the documented comparison, at any nesting.",
  ["inputs"], "all conditions and nestings", T11 + "about ten conditions are tested.",
  ["src/macro.c"], [("comparison and branch skipping", "src/macro.c testtrue Xif")], ["code file"])
p("C34", "Labels follow the documented scope and case rules",
  "Global labels are case-insensitive and unique; labels starting with a period are visible only inside their macro expansion or CODE/DUMMY section; EQU labels may be redefined unless referenced before.",
  ["inputs"], "all label uses", T11 + "few local labels are tested.",
  ["src/label.c", "src/crasm.c"], [("segment number as prefix of local names", "src/label.c searchlabel")], ["code file"])
p("C35", "Page layout, titles and line folding follow the directives",
  "PAGE, NAM and SKIP divide the listing into pages of the given size with the given title, and lines longer than the page width are folded in a readable way.",
  ["inputs", "configurations"], "all programs and page settings", T11 + "no listing is checked at all.",
  ["src/output.c", "src/pseudos.c"], [("line and page formatting", "src/output.c")], ["standard output"])
p("C36", "Malformed command lines give the usage text",
  "A command line with an unknown option, without a source or with two sources gives the usage text with the list of CPUs and a failing exit status.",
  ["inputs", "configurations"], "all argument vectors", T11 + "all with well-formed command lines.",
  ["src/crasm.c"], [("option loop", "src/crasm.c main syntax")], ["standard output", "exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
