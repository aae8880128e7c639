#!/usr/bin/env python3
"""The one list of properties: writes properties.jsonl and MANIFEST.json (python3 lib/props.py)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "src/jomlib/"
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, state=state))


GRAPHS = "all acyclic dependency graphs, job counts and completion orders of the commands"

p("P01", "A target's commands start only after everything it depends on is finished",
  "No command of a target starts before every command of every target it depends on, directly or transitively, has ended, for any number of parallel jobs and any order in which the running commands happen to finish. This includes dependencies that come from several description blocks, from inference rules and from dependents that have no commands of their own.",
  ["schedules", "programs"], "over " + GRAPHS,
  "The unit tests build two or three fixed makefiles and cannot steer which command finishes first; the ordering bugs of a parallel make need particular graphs and completion orders.",
  [J + "dependencygraph.cpp", J + "targetexecutor.cpp", J + "commandexecutor.cpp", J + "parser.cpp"],
  [("a leaf of the graph is handed out only once it has no children; it is removed when its executor finishes", J + "dependencygraph.cpp findAvailableTarget/removeLeaf"),
   ("finished commands start the next one of the same target", J + "commandexecutor.cpp onProcessFinished")],
  ["start/end event log of every command"],
  "trace monitor over command start/end history under adversarial schedules",
  "exploration: real jom binary; random graphs, J values and controller-chosen completion orders plus injected delays; assumes the native Win32 stand-in orders events as Windows may.")

p("P02", "Every command of every needed target runs exactly once, in order, one at a time",
  "In a successful build every command of every target that has to be built runs exactly once, whichever and however many targets depend on it and however its name is spelled there, and no command of any other target runs. The commands of one target run in the order in which they are written and never overlap.",
  ["schedules", "programs"], "over " + GRAPHS + ", and spellings of the makefile",
  "Exactly-once is a statement about the whole history of a parallel build; tests look at exit codes of single small builds.",
  [J + "dependencygraph.cpp", J + "targetexecutor.cpp", J + "commandexecutor.cpp"],
  [("node states Unknown/Executing and removal of finished leaves", J + "dependencygraph.cpp"),
   ("current command index", J + "commandexecutor.cpp executeCurrentCommandLine")],
  ["start/end event log of every command"],
  "trace monitor (exactly-once, order, non-overlap) over command histories",
  "exploration: multiset of executed commands compared with the generated graph, on the real binary under many schedules.")

p("P03", "At no time more commands run than the job limit allows",
  "With /J n at most n commands run at the same time, without /J at most as many as the machine has processors, and a target list that is built under .NOTPARALLEL, or with /J 1, runs strictly one command after the other. The bound holds at every instant, also while commands fail, crash, or while several commands end at once.",
  ["schedules", "programs", "configurations"], "over " + GRAPHS + ", with failing and crashing commands",
  "A momentary excess needs a particular coincidence of completions; no test observes the number of live processes.",
  [J + "targetexecutor.cpp", J + "jobclient.cpp", J + "jobserver.cpp", "src/app/main.cpp"],
  [("a token is acquired before each start and given back after", J + "targetexecutor.cpp startProcesses/onChildFinished"),
   (".NOTPARALLEL sets the job count to one", "src/app/main.cpp")],
  ["process creation/exit events", "command start/end events"],
  "online concurrency monitor over process creation/exit events",
  "exploration: the number of live processes is measured at the process-creation boundary in every execution.")

p("P04", "Free job slots are used, and every build terminates",
  "Whenever fewer commands than the job limit run and some target is ready (everything it depends on is finished), another command is started without waiting for a running one to end. A build whose commands all end ends too, for every graph, job limit and completion order.",
  ["schedules", "programs"], "over " + GRAPHS,
  "Lost wake-ups and idle slots only show under particular completion orders; tests only see that a build ends.",
  [J + "targetexecutor.cpp", J + "jobclient.cpp", J + "jobclientacquirehelper.cpp", J + "iocompletionport.cpp"],
  [("a finished child triggers startProcesses again", J + "targetexecutor.cpp"), ("acquire helper thread", J + "jobclientacquirehelper.cpp")],
  ["set of commands that are blocked at a controlled gate", "termination of jom"],
  "controlled scheduler: quiescent state compared with the number of ready targets; watchdog",
  "exploration: every command is held at a gate; at quiescence the set of running commands must have the size min(J, ready); hangs are confirmed by a second run before they count.")

p("P05", "A failing command stops the build and fails it",
  "When a command fails, its target's remaining commands do not run, no target that depends on it runs, and no other target is started any more; commands of targets already in progress are completed, and only then jom exits, with exit code 2. jom never reports success (exit code 0) if a command failed that was not told to be ignored, and never exits while one of its commands is still running.",
  ["schedules", "programs", "fault_sequences"], "over graphs, job limits, sets of failing or crashing commands, ways to fail and completion orders",
  "Which targets are in progress at the failure depends on the schedule; tests run one failing command alone.",
  [J + "targetexecutor.cpp", J + "commandexecutor.cpp", "src/app/main.cpp"],
  [("abort flag and waiting for active executors", J + "targetexecutor.cpp onChildFinished/abortBuild"), ("exit code evaluation", J + "commandexecutor.cpp onProcessFinished")],
  ["start/end event log", "exit code of jom", "processes alive after jom's exit"],
  "trace monitor over histories with injected command failures",
  "exploration: random failing sets, crash and spawn-failure injection on the real binary.")

p("P06", "With /K everything that does not depend on a failure is still built",
  "With /K exactly the targets that do not depend, directly or transitively, on a failed target are built, each once and in dependency order, the failed target's remaining commands do not run, and jom ends with exit code 1; without any failure /K changes nothing and the exit code is 0. This holds for any number of failures and any completion order, and the time to decide it does not explode with the number of paths in the graph.",
  ["schedules", "programs", "fault_sequences"], "over graphs, sets of failing commands, job limits and completion orders",
  "The set of unaffected targets depends on the graph; no test builds with /K and more than one failure.",
  [J + "dependencygraph.cpp", J + "targetexecutor.cpp"],
  [("marking parents unbuildable", J + "dependencygraph.cpp markParentsRecursivlyUnbuildable"), ("continuing after failures", J + "targetexecutor.cpp")],
  ["start/end event log", "exit code"],
  "trace monitor: executed set compared with the set computed from the graph",
  "exploration over random graphs and failure sets.")

p("P07", "A command's exit code is a failure exactly if it exceeds the tolerated maximum",
  "A command fails iff its full 32-bit exit code is greater than the tolerated maximum: 0 by default, n with the prefix -n, unlimited with the prefix - and, for commands without a number of their own, under .IGNORE or with /I. A crash, and the codes that the system uses for crashes (0x80000000 and above, 0xf291), count as 2. It makes no difference whether a command is run directly or by the shell, or comes from an inference rule; a command that cannot be started fails.",
  ["inputs", "configurations"], "over exit codes, prefixes, directives and ways to run the command",
  "Tests check a few codes; the decision is over the whole 32-bit range and its interplay with prefixes and directives.",
  [J + "commandexecutor.cpp", J + "makefile.cpp", J + "parser.cpp", J + "jomprocess.cpp"],
  [("comparison with the maximal exit code", J + "commandexecutor.cpp onProcessFinished"), ("prefix evaluation", J + "makefile.cpp Command::evaluateModifiers")],
  ["exit code of jom", "whether the following command ran"],
  "trace monitor against a reference model of exit-code tolerance",
  "exploration: boundary and random codes crossed with every prefix form.")

p("P08", "A target is rebuilt exactly when it is out of date",
  "A target's commands run iff its file does not exist, or one of its dependents - after that was made - is newer than it, does not exist as a file, or did not exist and had to be made; equal time stamps count as up to date, /A rebuilds everything. A dependent without file and without commands is as new as the newest file it depends on. Time stamps of targets that commands of this very build create, touch, backdate, delete or leave alone are the ones after those commands ran.",
  ["programs", "histories"], "over graphs, file time stamps (with exact ties and sub-second differences), missing files and commands that do or do not update their target",
  "Tests cover a handful of time stamp constellations; the decision ranges over all constellations of a graph and over what the commands do meanwhile.",
  [J + "dependencygraph.cpp", J + "fastfileinfo.cpp", J + "filetime.cpp", J + "targetexecutor.cpp"],
  [("time stamp comparison", J + "dependencygraph.cpp isTargetUpToDate"), ("cache of file attributes, cleared for finished targets", J + "fastfileinfo.cpp")],
  ["set of executed commands", "files and time stamps"],
  "trace monitor against a reference model of the out-of-date rule",
  "exploration: executed set compared with an independent model over random graphs of files.")

p("P09", "A finished build is complete: running it again does nothing",
  "After a successful build whose commands create their targets, running jom again runs no command at all. After changing any set of source files exactly the targets that depend on a changed file are rebuilt, after which jom again has nothing to do, whatever the job limit and whether or not an earlier build was aborted by a failing command.",
  ["histories", "programs", "schedules"], "over sequences of builds, edits, failures and job limits",
  "Statement about sequences of builds; every test is a single build.",
  [J + "dependencygraph.cpp", J + "targetexecutor.cpp", J + "fastfileinfo.cpp"],
  [("up-to-date check", J + "dependencygraph.cpp isTargetUpToDate"), ("time stamp invalidation", J + "makefile.cpp")],
  ["set of executed commands per build of the sequence"],
  "history monitor over multi-step build/edit/fail sequences",
  "exploration: sequences of builds against a model of which targets are affected.")

p("P10", "Several goals are built in the given order, each completely",
  "Targets named on the command line are built one after the other: all commands needed for one have ended before a command that is only needed for a later one starts, and a later goal sees the files that the earlier ones produced. A goal that is named twice counts once. Without a named target the first target of the makefile is built and nothing else; an unknown target is an error and nothing is run.",
  ["programs", "schedules", "configurations"], "over graphs, lists of goals (with repetitions and spellings) and job limits",
  "Tests pass one goal at a time.",
  [J + "targetexecutor.cpp", J + "parser.cpp", J + "options.cpp"],
  [("pending target list", J + "targetexecutor.cpp"), ("active targets", J + "parser.cpp apply")],
  ["start/end event log"],
  "trace monitor over goal-segmented histories",
  "exploration over random graphs and goal lists.")

p("P11", "Recursively started jom instances share one job limit and give every slot back",
  "Sub-makes started with $(MAKE) run as many commands in total, over all instances of the tree, as the top-level /J allows, never more, and use free slots. When an instance ends - successfully, by a failing command, or because it was killed - the slots it used are available to the others again, none appears from nowhere, and the whole tree terminates with the right exit code.",
  ["schedules", "programs", "fault_sequences"], "over trees of makefiles, job limits, failures and completion orders",
  "Tests never start more than one instance; the token protocol is only exercised by trees of processes.",
  [J + "jobserver.cpp", J + "jobclient.cpp", J + "targetexecutor.cpp", "src/app/main.cpp"],
  [("named semaphore with J-1 tokens plus one implicit token per instance", J + "jobserver.cpp"), ("acquire/release pairs", J + "jobclient.cpp")],
  ["leaf command start/end events across all instances", "semaphore operations"],
  "token conservation monitor over multi-process histories",
  "exploration: semaphore acquire/release and leaf commands of all instances in one log.")

p("P12", "Output of commands arrives complete, exactly once and in order",
  "Every byte a command writes to its standard output or error appears exactly once on the corresponding stream of jom, in the order written, whatever the amount, the timing, the number of parallel commands and the way the command ends. This includes binary bytes, output without a final line break, and output that is written immediately before the command dies.",
  ["schedules", "inputs"], "over output volumes, chunkings, numbers of parallel writers and timings of process death versus pipe reads",
  "Loss needs a race between process death and pending reads, or volumes beyond a pipe's buffer; tests check one short output.",
  [J + "jomprocess.cpp", J + "iocompletionport.cpp", J + "commandexecutor.cpp"],
  [("overlapped reads and draining after death", J + "jomprocess.cpp"), ("output buffers", J + "jomprocess.cpp writeToStdOutBuffer")],
  ["sequence-numbered lines in jom's output"],
  "conservation monitor over sequence-numbered output under injected I/O delays",
  "exploration: each command writes tagged, numbered lines; every line must arrive once, in order.")

p("P13", "Output of commands that run in parallel is not mixed",
  "The output of one command appears as one contiguous block, apart from a single command at a time whose output is passed through directly while it runs; no two commands are passed through at the same time, and within one command standard output and error keep their relative order when both go to the same place. With one job the output appears in exactly the order in which it is produced.",
  ["schedules"], "over schedules, job limits and interleavings of writes",
  "Mixing depends on timing; tests run a single command.",
  [J + "jomprocess.cpp", J + "targetexecutor.cpp", J + "commandexecutor.cpp"],
  [("buffered output for all but one executor", J + "targetexecutor.cpp"), ("time stamps of buffered chunks", J + "jomprocess.cpp printBufferedOutput")],
  ["order of tagged lines in jom's output", "which commands have inherited standard handles"],
  "interleaving monitor over tagged output lines",
  "exploration: blocks of at most one pass-through command may be interrupted.")

p("P14", "cd and set act on the remaining commands of their own target as in a shell",
  "A cd command changes the working directory for the following commands of the same target, relative to the directory reached so far, and for no other target; a set command changes the environment of the commands that are started afterwards. cd into a directory that does not exist fails the target, cd without argument prints the current directory, and commands of concurrently built targets never see a directory change of another target.",
  ["programs", "schedules"], "over sequences of cd, set and other commands, in several targets at once",
  "Tests contain one or two fixed cd sequences; the state is kept per executor, and executors are reused for many targets in a schedule-dependent order.",
  [J + "commandexecutor.cpp", J + "targetexecutor.cpp", J + "jomprocess.cpp"],
  [("built-in handling", J + "commandexecutor.cpp exec_cd"), ("environment propagation", J + "targetexecutor.cpp")],
  ["working directory and environment seen by each command"],
  "trace monitor of cwd/environment per command against a shell model",
  "exploration: random cd/set programs in parallel targets, compared with a model of the current directory.")

p("P15", "Commands see the inherited environment plus the macros jom exports",
  "Every command sees the environment of jom, with every variable unchanged (macro invocations in its value are expanded), except for variables whose macro - the variable's name in upper case - the makefile, a set command or the command line redefines, which have the redefined value, and jom's own job bookkeeping. Names that were no environment variables before are exported only if they are defined on the command line; with /E environment variables win over makefile definitions, and command line definitions win over both.",
  ["inputs", "configurations"], "over environments, makefile and command line macro definitions, with unusual characters, empty and very long values",
  "Tests do not look at the environment of commands.",
  [J + "macrotable.cpp", J + "makefilefactory.cpp", J + "processenvironment.h", J + "jomprocess.cpp", "src/app/main.cpp"],
  [("macro table keeps the environment in step", J + "macrotable.cpp setMacroValue"), ("environment block for CreateProcess", J + "jomprocess.cpp createEnvBlock")],
  ["environment dump of a command"],
  "differential monitor: environment of a command against the model",
  "exploration with random environments and definitions.")

p("P16", ".SYNC orders everything left of it before everything right of it",
  "All dependents left of a .SYNC in a dependency list, with everything they depend on, are finished before a command of a dependent on its right starts, over several .SYNCs and lists, for targets with rules, targets made by inference rules and with plain files in between. The dependents between two .SYNCs still run in parallel, and .SYNC changes nothing else about what is built: the makefile means the same as one in which every dependent right of a .SYNC also depends on everything left of it.",
  ["programs", "schedules"], "over dependency lists with any placement of .SYNC, including plain files, inferred targets, repetition and empty segments",
  "One fixed makefile in the tests.",
  [J + "parser.cpp", J + "dependencygraph.cpp"],
  [("translation of sync points into dependencies", J + "parser.cpp parseDescriptionBlock/apply")],
  ["start/end event log"],
  "trace monitor over segment order",
  "exploration over random .SYNC lists and schedules.")

p("P17", "Preprocessor expressions have the documented value",
  "Every well-formed !IF expression over decimal numbers, strings, DEFINED, EXIST, command exit codes and the operators evaluates to the value given by the operators and selects the branch accordingly: left-associative, with && || & | sharing the lowest precedence, then the comparisons, shifts, + -, * / %, and unary - ~ !, in wrapping 32-bit arithmetic; strings are compared with == and != only. Every ill-formed expression, and a division or remainder by zero, is an error with exit code 2 that names file and line, never a crash or a silent decision.",
  ["inputs"], "over all expressions",
  "Tests check a list of fixed expressions without nesting, overflow or EXIST in compound expressions.",
  [J + "ppexpr.g", J + "ppexpr.l", J + "ppexprparser.cpp", J + "ppexpr-lex.inc", J + "preprocessor.cpp"],
  [("LALR parser with semantic actions", J + "ppexprparser.cpp"), ("lexer", J + "ppexpr-lex.inc")],
  ["which !MESSAGE is printed", "exit code"],
  "differential monitor: reference evaluator over generated expressions, UBSan",
  "exploration: thousands of generated expressions per run evaluated by the real parser and by an independent evaluator.")

p("P18", "Conditional directives keep exactly the lines of the selected branches",
  "For every nesting of !IF, !IFDEF, !IFNDEF, !ELSE, !ELSEIF.., !ELSE IF.. and !ENDIF the makefile means the same as the text that remains after selecting, per conditional, the first branch whose condition holds; lines and directives of the other branches have no effect at all, not even macro definitions, includes or errors. Unbalanced conditionals are errors (what a second !ELSE in one conditional does is left open).",
  ["programs"], "over all nestings of conditionals and conditions",
  "Tests use one fixed makefile of nested conditionals.",
  [J + "preprocessor.cpp"],
  [("stack of conditionals and skipping to the next branch", J + "preprocessor.cpp skipUntilNextMatchingConditional")],
  ["messages, macro values and targets that survive"],
  "differential monitor: reference preprocessor over generated conditional trees",
  "exploration over random conditional trees.")

p("P19", "Macro invocations expand to exactly what the definitions say",
  "$(NAME), $X, nested definitions, undefined macros (empty), substitutions $(NAME:from=to) and the escape $$ expand to the value that recursive textual replacement gives, in dependency lines, commands, other macro definitions and directives alike, independent of where in the line they appear. In a definition of NAME itself, $(NAME) means the previous value. In a substitution the first = ends a non-empty from part, and ^ makes the character after it literal in the replacement. Recursive definitions and malformed invocations are errors, not hangs or crashes.",
  ["inputs", "programs"], "over sets of definitions and texts with invocations",
  "Tests expand a dozen strings.",
  [J + "macrotable.cpp", J + "preprocessor.cpp", J + "parser.cpp"],
  [("recursive expansion", J + "macrotable.cpp expandMacros")],
  ["arguments of an executed command", "messages"],
  "differential monitor: reference expander over generated definitions",
  "exploration with generated macro programs.")

p("P20", "Macro definitions override each other by origin and order",
  "A macro defined on the command line wins over the makefile, the makefile wins over the environment (the other way round with /E), and the environment wins over the predefined macros (except MAKE and MAKEDIR); among makefile definitions the last one before the use in a directive or dependency line counts, and the last one overall before the command's own line for commands. !UNDEF removes a definition, and the precedence is the same in included files and in sub-makes, for which command line macros and redefined environment macros are environment variables.",
  ["configurations", "programs"], "over combinations of origins, orders, /E, case of names and !UNDEF",
  "Tests check single origins.",
  [J + "macrotable.cpp", J + "options.cpp", J + "makefilefactory.cpp"],
  [("origin and read-only flags of macros", J + "macrotable.cpp")],
  ["value seen in a message and in a command"],
  "differential monitor: reference model of origins",
  "exploration over random combinations of origins.")

p("P21", "The meaning of a makefile does not depend on its layout or encoding",
  "Line ends LF or CRLF, a missing final line break, line length, UTF-8 or UTF-16 with byte order mark instead of plain 8-bit, comments, blank lines, the kind of indentation and splitting lines with a trailing backslash do not change what is built, with which commands, in which order, or any macro value.",
  ["inputs"], "over makefiles and layout transformations",
  "Metamorphic statement over all makefiles; tests read fixed files.",
  [J + "makefilelinereader.cpp", J + "preprocessor.cpp", J + "parser.cpp"],
  [("line reader for 8-bit and Unicode files", J + "makefilelinereader.cpp"), ("joining of continued lines", J + "preprocessor.cpp")],
  ["executed commands and their arguments"],
  "metamorphic monitor: runs of re-laid-out makefiles compared",
  "exploration: pairs of executions of the real binary must agree.")

p("P22", "Errors name the file and line where they are",
  "For an error in a makefile - syntax, expression, !ERROR, missing include, unbalanced conditional - jom exits with code 2, runs no command at all, and names the file and the line (one of its lines, for a continued one) at which the error is, whatever precedes it: comments, continued lines, skipped conditional branches, inline files, includes.",
  ["inputs", "programs"], "over positions of an error behind any text",
  "Tests check two line numbers.",
  [J + "makefilelinereader.cpp", J + "preprocessor.cpp", J + "parser.cpp", J + "exception.cpp"],
  [("line counting", J + "makefilelinereader.cpp"), ("file stack", J + "preprocessor.cpp")],
  ["error message", "exit code"],
  "differential monitor: reported position against the generator's",
  "exploration with errors planted behind random prefixes.")

p("P23", "!INCLUDE inserts the file's text, wherever it is found",
  "A makefile with !INCLUDE means the same as the text with the included files inserted, to any nesting depth. A relative name is looked up in the working directory, then beside the including file and the files that include that one, from the inside out, and for <...> then in the directories of the expanded macro INCLUDE, in their order. A missing file and an inclusion cycle are errors that name the file.",
  ["programs", "configurations"], "over include trees, directories and spellings of names",
  "Tests include three fixed files.",
  [J + "preprocessor.cpp"],
  [("file stack", J + "preprocessor.cpp internalOpenFile"), ("include resolution", J + "preprocessor.cpp findIncludeFile")],
  ["executed commands", "messages"],
  "metamorphic monitor: split versus merged makefiles",
  "exploration over random include trees.")

p("P24", "File name macros denote the target, the dependents and the newer dependents",
  "In commands $@, $*, $**, $?, $<, their D, B, F and R modifiers and substitutions on them expand to the target's name, its name without extension, all dependents, the dependents newer than the target, and the inferred dependent, for every command of every target independently of what else is being built. An invocation escaped with ^ or with an unknown modifier stays as written.",
  ["inputs", "programs"], "over target and dependent names (paths, several dots, spaces), modifiers and time stamps",
  "Tests expand them for a few names.",
  [J + "makefile.cpp", J + "macrotable.cpp"],
  [("expansion at execution time", J + "makefile.cpp expandFileNameMacros")],
  ["arguments of executed commands"],
  "differential monitor: command arguments against a reference expansion",
  "exploration over random names and modifiers.")

p("P25", "Inference rules build exactly the targets they match, once per source",
  "A target without commands is built by the first rule, in the order of .SUFFIXES, whose source exists when the target's turn comes, from exactly that source, and rebuilt iff it is out of date against source and dependents; a batch rule (::) runs its commands for sets of sources that together contain every out-of-date source exactly once, unless /Y forbids batches. Everything that depends on a target of a batch waits for the batch.",
  ["programs", "schedules"], "over sets of rules, suffix orders, directories, sources and job limits",
  "Tests look at fixed rule sets; batches in parallel builds are not tested.",
  [J + "makefile.cpp", J + "parser.cpp", J + "targetexecutor.cpp", J + "dependencygraph.cpp"],
  [("rule selection by suffix priority", J + "makefile.cpp applyInferenceRules"), ("batching", J + "makefile.cpp")],
  ["executed commands and their arguments"],
  "differential + conservation monitor over rule applications",
  "exploration over random rule sets; every source must be handed to one command.")

p("P26", "Dependency cycles are reported, never run into",
  "If the targets reachable from a goal contain a dependency cycle of any length, jom reports a cycle, runs no command and exits with an error; if they do not, no cycle is reported, whatever the number of paths through the graph, the spelling of the names and the cycles elsewhere in the makefile.",
  ["programs"], "over all dependency graphs and goals",
  "Tests have two fixed cycles.",
  [J + "parser.cpp", J + "dependencygraph.cpp"],
  [("depth-first search with marks", J + "parser.cpp checkForCycles")],
  ["error message, exit code, executed commands"],
  "differential monitor: reference cycle detection on generated graphs",
  "exploration over random cyclic and acyclic graphs, including large layered ones.")

p("P27", "Inline files have the written content, a private name, and are cleaned up",
  "Each << of a command is replaced by the name of a file that, while the command runs, contains exactly the text given in the makefile with macros expanded; unnamed inline files of different commands never share a name. After the build every inline file without KEEP is gone and every one with KEEP of a command that ran is there, no matter how the build ends by itself (outside dry runs; the UNICODE option is not implemented).",
  ["programs", "schedules", "fault_sequences"], "over inline file contents, numbers, names, KEEP flags, parallel targets, failures",
  "Tests check one inline file at a time; cleaning up depends on executor reuse and failures.",
  [J + "commandexecutor.cpp", J + "parser.cpp", J + "preprocessor.cpp"],
  [("creation and removal of temporary files", J + "commandexecutor.cpp createTempFiles/cleanupTempFiles"), ("parsing", J + "parser.cpp parseInlineFiles")],
  ["content read by the command", "files left after the build"],
  "content and life-time monitor over inline files",
  "exploration: commands dump the files they are given; directory compared after the build.")

p("P28", "Options mean the same wherever they come from",
  "An option has the same effect given with / or -, in either case, combined with others, in a command file, or in the environment variables MAKEFLAGS and JOMFLAGS, and the macro MAKEFLAGS holds the options to be passed to a sub-make; the command line wins over the environment, and JOMFLAGS over MAKEFLAGS. Unknown options, missing option arguments and unreadable command files are errors with which nothing is run.",
  ["configurations", "inputs"], "over option sets, spellings, orders and origins",
  "Tests parse a few argument lists.",
  [J + "options.cpp", J + "makefilefactory.cpp", J + "helperfunctions.cpp", "src/app/main.cpp"],
  [("option parser", J + "options.cpp handleCommandLineOption"), ("flags from the environment", J + "makefilefactory.cpp")],
  ["effect of the options on a probe build", "MAKEFLAGS seen by commands"],
  "metamorphic monitor: equivalent option spellings compared",
  "exploration over random option sets and spellings.")

p("P29", "Wildcards in dependents stand for exactly the matching files",
  "A dependent with * or ? is replaced by exactly the existing files that match it, each once, in directories as written, with case ignored; a pattern that matches nothing contributes nothing, and names in the list without wildcards are left alone.",
  ["inputs", "configurations"], "over directory contents and patterns",
  "Tests match one pattern in one directory.",
  [J + "parser.cpp"],
  [("expansion by directory listing", J + "parser.cpp expandWildcards")],
  ["dependents passed to a command"],
  "differential monitor: reference matcher over generated directories",
  "exploration over random directories and patterns.")

p("P30", "Target names are case-insensitive, and blocks of one target add up",
  "Different spellings of a target name - letter case, / or \\, quotes - denote one target. Dependents of all description blocks of a target add up; commands come from the one block that has them (:) or from all of them in order (::), and mixing : and :: for one target is an error.",
  ["programs", "inputs"], "over spellings and distributions of a target over description blocks",
  "Tests have single fixed examples.",
  [J + "parser.cpp", J + "makefile.h", J + "makefile.cpp"],
  [("lookup with lower-cased keys", J + "makefile.h target()/append()"), ("adding blocks", J + "parser.cpp parseDescriptionBlock")],
  ["executed commands"],
  "differential monitor: split/re-spelled makefiles against the plain one",
  "exploration over random spellings and splits.")

p("P31", "Dry runs and dumps execute nothing and change nothing",
  "With /N jom starts no command of a target and changes no file, but prints exactly the commands that a build of the goal would run at this moment, given that commands update their targets, in an order it could run them; with /DUMPGRAPH or /DUMPGRAPHDOT it prints every dependency between targets of the goal's graph exactly once and runs nothing. Both end with exit code 0 for a valid makefile.",
  ["programs", "configurations"], "over graphs, file states and options",
  "Tests have no dry run and no dump.",
  [J + "commandexecutor.cpp", J + "dependencygraph.cpp", J + "targetexecutor.cpp", "src/app/main.cpp"],
  [("dry-run branch", J + "commandexecutor.cpp executeCurrentCommandLine"), ("dump", J + "dependencygraph.cpp dump")],
  ["process creation events", "directory snapshot", "printed text"],
  "effect monitor (no process, no write) plus differential against the real build",
  "exploration: process creation and file writes are observed at the OS boundary.")

p("P32", "No input makes jom corrupt memory, crash or hang",
  "For every makefile, command line, command file and environment jom either builds or ends with an error message and a non-zero exit code: no invalid memory access, no undefined arithmetic, no failed internal assertion, no crash and no endless loop.",
  ["inputs"], "over all byte strings as makefiles, argument lists and environments",
  "Tests feed well-formed text.",
  [J + "parser.cpp", J + "preprocessor.cpp", J + "makefilelinereader.cpp", J + "macrotable.cpp", J + "makefile.cpp", J + "options.cpp", J + "ppexprparser.cpp"],
  [("error reporting by exceptions", J + "exception.cpp"), ("buffer growth", J + "makefilelinereader.cpp")],
  ["sanitizer reports, exit status, run time"],
  "coverage-guided fuzzing (libFuzzer) and grammar-based generation under ASan/UBSan",
  "exploration: coverage-guided and grammar-based inputs, in-process and with the whole program.")

p("P33", "The threads of jom do not race",
  "No two threads of jom access the same memory without synchronisation, at least one of them writing, for any timing of process output, process death, job slots becoming free and the end of the build.",
  ["schedules"], "over timings of I/O completions, process deaths and semaphore operations",
  "Races are not visible in single-command tests and depend on timing.",
  [J + "iocompletionport.cpp", J + "jomprocess.cpp", J + "jobclient.cpp", J + "jobclientacquirehelper.cpp", J + "jobserver.cpp"],
  [("mutexes and queued signals", J + "iocompletionport.cpp"), ("helper thread", J + "jobclientacquirehelper.cpp")],
  ["ThreadSanitizer reports"],
  "ThreadSanitizer on whole builds with injected delays",
  "exploration: happens-before race detection on all accesses of jom's code in the executed schedules; the Win32 stand-in is annotated.")

p("P34", "Long builds leak no handles and use none after closing it",
  "The number of handles that jom holds is bounded by the job limit and not by the number of commands it has run: pipes, processes, threads and events are closed, once, for every command - also for those that crash, fail, or cannot be started - and jom never uses a closed handle or starts a second read on a busy pipe. Every handle passed to a child is inheritable and open at that time, and a child inherits nothing but its own three pipe ends.",
  ["histories", "fault_sequences"], "over lengths of builds, mixes of command endings and injected failures of process creation",
  "Tests start a handful of processes and do not count handles.",
  [J + "jomprocess.cpp", J + "iocompletionport.cpp", J + "jobclient.cpp"],
  [("closing of pipes and process handles", J + "jomprocess.cpp"), ("unregistering", J + "iocompletionport.cpp")],
  ["handle table of the Win32 stand-in: open counts per kind, use of closed handles"],
  "handle-table monitor at the Win32 boundary",
  "exploration: every handle operation is checked against a table; live counts sampled at every process start.")

p("P35", "Ctrl-C ends the build cleanly",
  "After Ctrl-C or Ctrl-Break jom starts no further command, ends with a non-zero exit code, removes the inline files that it created and that have no KEEP. It does so at once, at whatever point of the build the interrupt comes and without waiting for the commands that are running, and inline files with KEEP stay.",
  ["crash_points", "schedules"], "over the moments of the interrupt in builds of any shape",
  "Tests never interrupt a build.",
  ["src/app/main.cpp", "src/app/application.cpp", J + "targetexecutor.cpp", J + "commandexecutor.cpp"],
  [("console control handler", "src/app/main.cpp"), ("temp file removal", J + "targetexecutor.cpp removeTempFiles")],
  ["events after the interrupt", "files left", "exit code"],
  "fault injection at random points with a history monitor",
  "exploration: the interrupt is delivered at random and at systematically chosen points.")

p("P36", "Missing dependents stop the build with an error",
  "If a dependent of a needed target neither exists as a file nor can be made by any rule, jom says so, runs no command that depends on it, and does not exit with code 0; with /K everything else is still built. A dependent that exists when the build of the goal begins, or that has a description block, is never reported missing, nor is one that an inference rule can make from a source that an earlier command of the build has to create first.",
  ["programs", "inputs"], "over graphs with missing files at any depth",
  "One fixed makefile in the tests.",
  [J + "dependencygraph.cpp", J + "targetexecutor.cpp"],
  [("check while building the graph", J + "dependencygraph.cpp internalBuild")],
  ["message, exit code, executed commands"],
  "differential monitor on generated graphs with missing leaves",
  "exploration over random graphs.")

p("P37", "A command is executed with exactly the command line written",
  "The program named by a command gets the arguments as written after macro expansion: quotes, blanks, special characters, %% and ^ escapes and very long lines arrive as the shell would pass them, prefixes are removed, and a command with shell operators or shell built-ins is run by the shell given by ComSpec, any other one directly or, if it cannot be started directly, by the shell. A command is executed at most once even if starting it directly fails.",
  ["inputs"], "over command lines",
  "Tests run a few fixed command lines.",
  [J + "commandexecutor.cpp", J + "jomprocess.cpp", J + "makefile.cpp", J + "parser.cpp"],
  [("choice between direct start and shell", J + "commandexecutor.cpp executeCurrentCommandLine"), ("prefix evaluation", J + "makefile.cpp")],
  ["command line received by the child process"],
  "boundary monitor: received command line compared with the written one",
  "exploration over random command lines; the stand-in records what reaches process creation.")

p("P38", "Exactly the commands that are not silenced are displayed, before they run",
  "Each executed command line is printed once, on standard output, after a tab and before its output, unless it has the prefix @, comes after .SILENT, or /S or /C is given; with /N it is printed always. A failed command is reported on standard error with makefile, target and exit code, after its output and at the latest when its target ends, and otherwise jom prints nothing on its own beyond its logo, which /NOLOGO suppresses.",
  ["configurations", "programs"], "over prefixes, directives, options and parallel builds",
  "Tests do not look at the display.",
  [J + "commandexecutor.cpp", J + "makefile.cpp", J + "parser.cpp", "src/app/main.cpp"],
  [("display of the command line", J + "commandexecutor.cpp executeCurrentCommandLine")],
  ["jom's standard output and error"],
  "differential monitor: full expected transcript of the output",
  "exploration: the complete transcript is predicted for J=1 and compared as blocks for parallel builds.")

p("P39", "The reports of /D, /P, /U, /W and /X are true and change nothing else",
  "/D shows each target that a build looks at once per goal, before its commands: marked with * if it is built, otherwise with a blank and the time of its file. /P lists each macro, inference rule and target with its dependents and commands. /U shows each inline file of the commands that run, with the name and the content the command gets. /W names the working directory in quotes before and after everything else, also for nested makes; /X sends all of jom's and the commands' error output to the file. None of these options changes which commands run, in what order, the rest of the output, the files or the exit code.",
  ["configurations", "programs"], "over option sets, build graphs, file states and numbers of jobs",
  "The tests look at none of these reports.",
  [J + "dependencygraph.cpp", J + "makefile.cpp", J + "macrotable.cpp", J + "commandexecutor.cpp", "src/app/main.cpp", J + "options.cpp"],
  [("build information", J + "dependencygraph.cpp displayNodeBuildInfo"), ("makefile dump", J + "makefile.cpp dumpTargets, dumpInferenceRules"), ("inline file dump", J + "commandexecutor.cpp createTempFiles"), ("working directory", "src/app/main.cpp")],
  ["jom's standard output, standard error and error file", "commands run", "files left"],
  "monitor comparing the reports with the recorded events, and the build with its twin without reports",
  "exploration over random graphs, file states and option sets.")


def main():
    have = {f[:3] for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                                            "state": [], "observe_at": q["observe"], "hook_needed": None}}) + "\n")
            assert len(q["title"]) <= 80, q["id"]
    man = {"version": 1, "setup_cmd": "python3 lib/build.py asan tsan", "checks": [], "not_applicable": [],
           "notes": "No hooks in /repo: jom is built natively from the working tree against a Win32 stand-in (shim/) whose boundary is the observation point. Known findings and repairs: known_findings.txt."}
    for q in P:
        if q["id"] in have:
            man["checks"].append({"property": q["id"], "quick_cmd": "python3 checks/%s.py" % q["id"],
                                  "thorough_cmd": "python3 checks/%s.py --thorough" % q["id"], "technique": q["technique"],
                                  "level": "exploration", "level_note": q["note"]})
        else:
            man["not_applicable"].append({"property": q["id"], "reason": "check not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(man["checks"]), "checks")


if __name__ == "__main__":
    main()
