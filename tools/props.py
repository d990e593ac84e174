prop("C01", "A written configuration reads back as the same configuration",
     """Whatever commands have been read, writing the configuration succeeds, does not change it, and gives a file
     that the same syntax version accepts and that yields the same configuration and, written again, the same
     commands.  This holds for every command, option, value, combination of options and sequence of repeated
     commands in every syntax version.  Exempt are only settings that have no effect in the combination they
     were given in, and blanks or quotes in values that are written without quotes.""",
     ["inputs", "configurations"], """all command lines (command, arguments, options, values) and sequences of
     repeated commands, in all 38 syntax versions""",
     """The unit tests compare a few hand written lines per command with an expected output; they never read the
     output back, and reach almost no combinations of options.""",
     ["pykickstart/commands/*.py", "pykickstart/base.py", "pykickstart/options.py"],
     [("writer of every command and data object", "pykickstart/commands/*.py: __str__, _getArgsAsStr"),
      ("reader of every command", "pykickstart/commands/*.py: _getParser, parse"),
      ("assembly of the file", "pykickstart/base.py: KickstartHandler.__str__")],
     "exploration", "exhaustive bounded enumeration of inputs on the real reader and writer (round-trip oracle)",
     """Every line base+option+value, every option pair in every version and every triple in the newest versions is
     executed (bounds in DESIGN.md); trusts mc/normal.py, the list of settings without effect.""",
     ["handler attributes after reading", "str(handler)"])

prop("C02", "The syntax of every released version stays what it was released as",
     """For every syntax version, every command line is accepted or rejected, warned about, and stored (which values
     in which attributes of which command) exactly as that version defines it: an option or command introduced in
     another version is not accepted, one that was removed is rejected, a deprecated one warns, defaults, value
     checks and the meaning of repeated commands do not change.  Changing one version does not change another.""",
     ["inputs", "configurations"], """all command lines (command, arguments, options, values, option pairs, the same
     command given twice) in all 38 syntax versions""",
     """The unit tests of a command run in one or a few versions and mostly check single options; later versions
     inherit from earlier ones, so a change in one class reaches versions no test runs.""",
     ["pykickstart/commands/*.py", "pykickstart/handlers/*.py", "pykickstart/options.py", "pykickstart/version.py"],
     [("command classes, one per syntax change, inheriting from each other", "pykickstart/commands/*.py"),
      ("which class serves which version", "pykickstart/handlers/*.py, pykickstart/handlers/control.py"),
      ("option checking by version", "pykickstart/options.py: KSOptionParser")],
     "model_checking", "exhaustive conformance of the real parser to an explicit finite table model of every version",
     """The model is a committed table of outcomes (spec/golden) for all lines of the grammar; every entry is replayed
     on the real parser.  The table was generated from the repaired tree and reviewed, so it freezes behaviour rather
     than proving it right.""",
     ["KickstartParser.readKickstartFromString", "attributes of handler commands", "warnings"])

prop("C03", "Every line goes to the command or section it belongs to",
     """A kickstart file is split into commands, sections and section bodies by one rule: outside of sections, blank
     lines and comments are skipped and every other line is one command, reported with its line number; a section
     runs from its header to %end and gets exactly its own lines, in order and verbatim (sections that do not ask
     for all lines do not get blank lines and comments); lines that only look like a section or an end are body
     lines; a section that is not closed is an error at the line where that is noticed (F8 and later) or ends there
     (before F8); an unknown section is an error, or (if the parser is told so) skipped with a warning.  Neither
     sections nor commands leak into each other.""",
     ["inputs", "configurations", "histories"], """all sequences of lines, in all versions and parser modes""",
     """The unit tests read some two dozen fixed files; the state machine has to be right for every order of headers,
     ends, comments and bodies.""",
     ["pykickstart/parser.py", "pykickstart/sections.py"],
     [("state machine", "pykickstart/parser.py: KickstartParser._stateMachine, _readSection"),
      ("sections", "pykickstart/sections.py: Section and subclasses")],
     "model_checking", "reference model of the state machine, exhaustively compared with the real parser on all line sequences up to a depth",
     """All sequences over a 19 letter alphabet to depth 3-4 and reduced alphabets to depth 5-6; the model is hand
     written, every model trace is replayed on the implementation.""",
     ["handleCommand override", "registered custom sections", "handler.scripts, handler.packages", "error line numbers"])

prop("C04", "Scripts and unknown sections survive reading and writing verbatim",
     """Every script (%pre, %pre-install, %post, %onerror, %traceback) is kept with its type, interpreter, log file,
     error handling, chroot setting and its exact body, and every section pykickstart does not understand with its
     header and body; they keep their order, and writing and reading them again gives the same scripts and sections.
     This also holds for scripts created by a program.  (Before F8, where sections have no end mark, blank lines
     at the end of a script do not count.)""",
     ["inputs", "configurations"], """all headers, bodies and sequences of sections, in all versions""",
     """The unit tests never read a written script back and only use plain headers and bodies.""",
     ["pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/base.py"],
     [("script reading", "pykickstart/sections.py: ScriptSection"), ("script writing", "pykickstart/parser.py: Script.__str__"),
      ("unknown sections", "pykickstart/sections.py: NullSection"), ("order", "pykickstart/base.py: BaseHandler.__str__")],
     "exploration", "exhaustive bounded enumeration of headers, bodies and section sequences on the real reader and writer",
     """All header combinations, all bodies up to 2-4 lines over alphabets of awkward lines, all sequences of 2 and 3 sections.""",
     ["handler.scripts", "str(handler)"])

prop("C05", "%packages selects what was said last about every package and group",
     """Whatever lines the %packages sections of a file contain, in whatever order and number of sections, a package,
     group or environment is selected or excluded according to the last line about it (a group keeps the options it
     was first given with), comments are ignored, the header options of every version have their documented meaning
     and availability, and writing and reading the selection again gives the same selection.""",
     ["inputs", "configurations"], """all sequences of package, exclusion, group and environment lines, all splits into
     sections, all sets of header options, in all versions""",
     """The unit tests use a few fixed package lists; the algebra of inclusion and exclusion only shows in sequences.""",
     ["pykickstart/parser.py", "pykickstart/sections.py"],
     [("package algebra", "pykickstart/parser.py: Packages.add, _processGroup"), ("writing", "pykickstart/parser.py: Packages.__str__"),
      ("header", "pykickstart/sections.py: PackageSection")],
     "model_checking", "reference model of the package selection, exhaustively compared with the real parser on all line sequences",
     """All line sequences to depth 3 (25 lines) and 5 (9 lines), all header subsets; the model is hand written, every
     model trace is replayed on the implementation.""",
     ["handler.packages", "str(handler)"])

prop("C06", "%include means the contents of the included file at that place",
     """Reading a file with %include lines gives the same commands, sections, scripts and packages as reading the
     same lines in one file, for every way of distributing them over files, nested or not, inside or across sections
     (only blank lines at the edge of an included file do not count); line numbers and errors are those of the file
     the line is in.  A relative name is looked up next to the including file, however that was named.  Includes are skipped if the
     parser is told not to follow them; a missing file is an error, or skipped if the parser is told so, while an
     error in an existing included file is always an error.""",
     ["inputs", "configurations", "histories"], """all documents up to a size, all ways of cutting them into files, all spellings of the
     file name""",
     """The unit tests include a handful of fixed files, mostly in the command section; the cuts that matter are at
     section borders and in nested files.""",
     ["pykickstart/parser.py"],
     [("include handling", "pykickstart/parser.py: _handleInclude, readKickstart, _readSection, _stateMachine")],
     "model_checking", "reference model of the parser, exhaustively compared with the real parser on all carvings of all documents",
     """All documents to depth 3 (11 line alphabet) and 4 (5 lines), every carving into one, two or nested files, real files on disk.""",
     ["handleCommand override", "custom sections", "handler.scripts, handler.packages", "error line numbers"])

prop("C07", "%ksappend is replaced by the contents of the named file, and nothing else",
     """The four preprocessing functions replace every %ksappend line, wherever it is and however it is spaced, by the
     contents of the file, byte for byte and on lines of its own, keep every other line as it is, and give the
     result as bytes or as a file; a missing name or file is an error with the number of the line.  The parser
     itself skips %ksappend lines in the command part.""",
     ["inputs", "fault_sequences"], "all documents up to a size and all kinds of appended files",
     "The unit tests use two or three fixed documents and mock the file access.",
     ["pykickstart/parser.py"],
     [("preprocessor", "pykickstart/parser.py: _preprocessStateMachine and the preprocess functions")],
     "exploration", "exhaustive bounded enumeration of documents on the real preprocessor against the expected text",
     "All documents of up to 3 (thorough 4) pieces over 30 kinds of lines, byte-exact oracle.",
     ["results of the preprocess functions"])

prop("C08", "Wrong input is a kickstart error at its line, and costs nothing else",
     """Whatever words follow a command or section header, the line is either accepted or reported as a
     KickstartParseError that carries and mentions the line it is on; no other exception escapes.  Normally reading
     stops there with everything before it in place; with errorsAreFatal=False every wrong line, in the command
     part or in a %packages section, is counted and the rest of the file is read.  Either way the configuration,
     and what is written, is the same as if the wrong lines were not there.""",
     ["inputs", "fault_sequences"], """all wrong lines of the frozen tables, all sequences of one or two awkward words per command, all
     sequences of good and wrong lines, all versions""",
     """The unit tests check that some wrong lines are rejected, hardly ever where they are reported and what happens
     to the rest of the file.""",
     ["pykickstart/parser.py", "pykickstart/errors.py", "pykickstart/options.py", "pykickstart/commands/*.py", "pykickstart/base.py"],
     [("error handling", "pykickstart/parser.py: _tryFunc"), ("line numbers", "pykickstart/base.py: dispatcher; pykickstart/options.py"),
      ("checks of every command", "pykickstart/commands/*.py: parse")],
     "fault_enumeration", "exhaustive enumeration of wrong lines and of sequences of good and wrong lines on the real parser",
     """Every frozen line, every 1-2 word tail from 35 awkward words, every sequence of good and wrong lines to depth 3 (4).""",
     ["exceptions", "errorsCount", "handler attributes"])

prop("C09", "Handlers, parsers and files read one after the other do not affect each other",
     """A handler gives the same configuration and text whatever other handlers, of the same or another version, exist
     and are used at the same time; new handlers and data objects are always in their default state; reading several
     files with one parser or handler is reading their contents one after the other, and a file that failed, in
     whatever state, does not affect how the next one is read.  The result depends on nothing but the input.""",
     ["histories", "schedules", "configurations"], """all interleavings of two programs using two handlers, all sequences of three
     files on one parser, all versions""",
     "Unit tests use one handler per test and read one file with it.",
     ["pykickstart/parser.py", "pykickstart/base.py", "pykickstart/sections.py", "pykickstart/commands/*.py", "pykickstart/handlers/*.py"],
     [("state of the parser", "pykickstart/parser.py: _reset, Script._ver, Packages._ver"), ("state of sections", "pykickstart/sections.py: _resetScript, NullSection"),
      ("state of handlers and commands", "pykickstart/base.py")],
     "exploration", "stateless model checking of the real code: all interleavings of two handler programs, all histories of three files",
     """All 70 interleavings of two four-step programs per pair of versions (two partners per version quick, all thorough), all
     sequences of three documents out of 17, pristine state after all frozen lines; hash seeds only enumerated.""",
     ["handler attributes", "str(handler)"])

prop("C10", "Contradictions and repeated definitions are noticed in any order",
     """In every syntax version a line that contradicts an accepted line before it (autopart, mount, reqpart and the
     storage commands exclude each other as documented), or that defines a second thing of a name where that is an
     error, is refused; a line that repeats an earlier definition where that is allowed causes exactly one warning;
     every other line is accepted and kept, in order, without a warning.  The distance and the lines in between do
     not matter, and refused lines have no influence on what follows.""",
     ["inputs", "histories", "configurations"], """all sequences of storage commands and of definitions of named things up to a depth, all
     versions""",
     """The unit tests check single pairs of lines in one order and a few versions; the rules are implemented in every
     command class on its own, by looking at what the others have seen.""",
     ["pykickstart/commands/*.py", "pykickstart/base.py"],
     [("exclusions", "pykickstart/commands/autopart.py, mount.py, reqpart.py, partition.py, raid.py, logvol.py, volgroup.py, btrfs.py: parse"),
      ("repeated definitions", "pykickstart/commands/*.py: dataList, parse")],
     "model_checking", "explicit model of exclusions and definitions, all command histories replayed on the real parser",
     """All sequences of storage commands to depth 3 (thorough 4) and of definitions to depth 3, all versions, fatal and
     non-fatal; the model is hand written from the documentation.""",
     ["handler attributes", "warnings", "errors"])

prop("C13", "ksvalidator's verdict is the verdict of the syntax version",
     """ksvalidator exits with 0, silently, exactly if every line of the file is accepted without error or warning by
     the version asked for; otherwise the exit status is not 0 and every problem is reported, with its line (a
     warning: without).  With -e it stops at the first problem; with -i, and only then, included files are
     validated, too.  Whatever the input is, it ends with a message instead of a traceback, leaves nothing behind
     in the temporary directory, and does not change the input.""",
     ["inputs", "configurations", "fault_sequences"], """all documents up to a size from a catalogue of right and wrong pieces, all option
     combinations, all versions""",
     """The unit tests run it on half a dozen files, count the messages, and do not look at the exit status of the
     process.""",
     ["tools/ksvalidator.py", "pykickstart/parser.py", "pykickstart/base.py", "pykickstart/load.py"],
     [("driver", "tools/ksvalidator.py: main, cleanup"), ("counting of errors", "pykickstart/parser.py: _tryFunc"), ("warnings", "pykickstart/base.py")],
     "model_checking", "explicit model of the verdict, all documents from a catalogue replayed on the real tool",
     """All documents of 2 (3) pieces out of 19, four flag combinations, exact exit status and report; one or more lines of
     every command in every version; the real command for exit statuses.""",
     ["exit status", "messages", "temporary directory"])

prop("C15", "ksverdiff lists exactly what changed between two versions",
     """For every pair of versions, older first, ksverdiff lists as removed, added and deprecated exactly the commands
     that the older version accepts and the newer does not, and so on, and for every command the options that were
     added, deprecated and removed, each list sorted and without repetitions, and never fails.""",
     ["configurations", "inputs"], "all pairs of versions, all commands and options",
     "The unit tests compare three pairs of versions with each other and only look for a few words.",
     ["tools/ksverdiff.py", "pykickstart/version.py", "pykickstart/handlers/*.py", "pykickstart/commands/*.py"],
     [("comparison", "tools/ksverdiff.py: main, getCommandSet, getOptSet"), ("what the versions are made of", "pykickstart/handlers/*.py")],
     "model_checking", "explicit finite table model of all versions, every pair replayed on the real tool",
     """All 741 pairs and all entries; the table (spec/syntax.json) is compared with the parser of every version; options of
     removed and deprecated commands may or may not be listed.""",
     ["output", "exit status"])

prop("C18", "Versions are named, numbered and ordered consistently",
     """Every way to name a syntax version (constant, short and long name in any case, DEVEL, #version comment) means the
     same version in every function that takes one, converting back and forth gives the same version, versions
     compare in the order of their release within Fedora and RHEL, and every other name or number is refused with a
     KickstartVersionError.  Getting a handler of a version does not depend on which ones were asked for
     before.""",
     ["inputs", "histories"], "all spellings of all versions, all strings made of the words of version names, all files of #version lines up to a size",
     "The unit tests check some names of some versions.",
     ["pykickstart/version.py", "pykickstart/parser.py", "pykickstart/handlers/control.py"],
     [("names", "pykickstart/version.py: stringToVersion, versionToString, versionToLongString, makeVersion, returnClassForVersion"),
      ("files", "pykickstart/version.py: versionFromFile")],
     "exploration", "exhaustive enumeration of version names, files and request histories on the real code",
     """All spellings in all functions, all word combinations, numbers to 50000, all files of up to 3 (4) lines out of an
     alphabet.""",
     ["return values", "exceptions"])

prop("C14", "ksflatten writes all of it into one file, or leaves the output alone",
     """ksflatten reads a file like every other reader of the given version does, with all files it includes (nested,
     by any relative path, in and out of sections), and writes, on stdout as into a file, one kickstart file without
     any %include that means the same in this version: it is what writing the inlined file gives, and flattening it again
     changes nothing.  A file that is wrong or missing, a wrong version or an output that cannot be written makes it
     exit with 1 and a message, without a traceback and with an output file that is as it was.""",
     ["inputs", "configurations", "fault_sequences"], "all documents and all ways to split them into included files, in all versions",
     "The unit tests flatten one file with one %include and compare it with an expected text.",
     ["tools/ksflatten.py", "pykickstart/parser.py", "pykickstart/base.py"],
     [("driver", "tools/ksflatten.py: main"), ("inclusion", "pykickstart/parser.py: _handleInclude"), ("writing", "pykickstart/base.py: KickstartHandler.__str__")],
     "exploration", "exhaustive enumeration of documents and of their splits into included files, replayed on the real tool (inlining oracle)",
     """All documents up to 3 (4) lines out of an alphabet with every contiguous part included, nested splits, the document of nearly all
     commands of every version cut at every line, all failures.  The oracle is the same parser and writer on the inlined
     text, which C01 and C06 check.""",
     ["output", "exit status", "output file"])

prop("C16", "A ksshell session yields the file of its right lines",
     """At every point of a ksshell session, .show prints, and at the end the tool writes (stdout or file), what reading the
     input file and then the right lines since the last .clear as one file gives; every wrong line is reported and
     otherwise as if it was not typed; the session goes on after every error and ends for .quit, ^D and ^C.
     Completion offers exactly the commands, the built-in commands and the options of the command of the chosen
     version that start with what was typed.""",
     ["inputs", "histories"], "all sessions over an alphabet of inputs, all prefixes of all commands and options in all versions",
     "The unit tests type one or two lines and look at part of the output.",
     ["tools/ksshell.py", "pykickstart/parser.py", "pykickstart/base.py"],
     [("session", "tools/ksshell.py: main, ClearCommand, ShowCommand, QuitCommand"), ("completion", "tools/ksshell.py: KickstartCompleter")],
     "model_checking", "explicit model of a session (file of right lines), all input sequences up to a depth replayed on the real tool",
     """All sessions of up to 3 (4) inputs out of an alphabet, with every kind of input file and several versions, every .show
     compared; completion of every prefix of every command and option in every version.""",
     ["what .show prints", "final output", "messages", "completion candidates"])

prop("C17", "What is loaded is exactly what is there, or it is a KickstartError",
     """Every way to read a kickstart file (parser, %include, %ksappend, version detection, load functions, tools) takes from
     a local file and from an HTTP(S) server exactly the text that is there, the same for both.  When it cannot be read in
     full, whatever the reason (missing, unreadable, not UTF-8, any status but 200, answer cut short at any byte, connection
     refused or reset, untrusted certificate, wrong URL), a KickstartError is raised, nothing of it is used and nothing
     is left behind; a missing included file is skipped with a message if the parser is told so.""",
     ["inputs", "fault_sequences", "crash_points"], "all answers of a server and all places where the transfer can end, all local files, all readers",
     "The unit tests replace requests or load one small file from a local server that always answers.",
     ["pykickstart/load.py", "pykickstart/parser.py", "pykickstart/version.py", "tools/*.py"],
     [("loading", "pykickstart/load.py: load_to_str, load_to_file"), ("users", "pykickstart/parser.py: readKickstart, preprocessKickstart, _handleInclude; pykickstart/version.py: versionFromFile")],
     "model_checking", "exhaustive fault injection: all answers of a real server, cut at every byte, against every reader",
     """All contents, encodings, status codes, redirects and framings out of a catalogue, every cut point of every answer, with every
     reader; a host that never answers is not tried.""",
     ["returned text or state", "exceptions", "files left behind"])

prop("C11", "How a line is spelled does not matter, only what it says",
     """Two files that differ only in blanks between words, indentation, comments and blank lines outside of sections, line
     ends, quotes and escapes around words, --option=value or --option value, the order of options and their place among
     the other words of a line, mean the same: both are accepted with the same warnings and give the same
     configuration, or both are refused with the same kind of error.  Excepted are options that are alternatives
     (the last one counts), and commands that keep the rest of their line as it was typed (auth, authconfig,
     authselect) or as a list of words (realm).""",
     ["inputs", "configurations"], """all command lines, section headers and files, in all of their spellings, in all versions""",
     """The unit tests write each line in one way.""",
     ["pykickstart/parser.py", "pykickstart/options.py", "pykickstart/commands/*.py", "pykickstart/sections.py"],
     [("tokens", "pykickstart/parser.py: _stateMachine"), ("options", "pykickstart/options.py: KSOptionParser, ExtendAction, ExtendConstAction"),
      ("words and options", "pykickstart/commands/*.py: parse")],
     "exploration", "exhaustive metamorphic enumeration: all spellings of all lines of the grammar on the real parser",
     """Every line of the grammar with every single option in about 40 spellings, every pair (triple) of options in every order; quick does each
     command implementation once.  The relation between the runs is the oracle, so a change common to all
     spellings is for C02 to see.""",
     ["handler state", "exceptions", "warnings", "str(handler)"])

prop("C12", "Commands and sections do not interfere, in any order and company",
     """A file of different commands and sections means what each of them means on its own, in whatever order and with whatever others
     in between: no command changes, drops, repeats or refuses what another one says, except where that is the point (the last
     one of text/cmdline/graphical, of reboot/halt/poweroff/shutdown and of install/upgrade counts; storage commands that
     exclude each other are refused).  What is written for a file is what is written for each of its parts, does not depend on
     the order they were read in, has storage commands after those they refer to, and reads back as the same.""",
     ["inputs", "histories", "configurations"], "all sequences of lines of different commands and sections, in all versions",
     "The unit tests of a command use only this command; all of them share one handler object in practice.",
     ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/commands/*.py", "pykickstart/handlers/*.py"],
     [("dispatch", "pykickstart/base.py: KickstartHandler.dispatcher, _setCommand, _writeOrder"), ("methods", "pykickstart/commands/method.py"),
      ("written order", "pykickstart/base.py: KickstartHandler.__str__, registerCommand")],
     "model_checking", "compositional reference model (sum of the parts); all ordered pairs, documents in many orders, triples replayed on the real code",
     """All ordered pairs of all commands and sections in all versions, with several lines each in the newest; each command between two lines of
     another one; documents of nearly all commands rotated, reversed, with one left out or moved; all triples in RHEL7 and
     F34 in the thorough tier.""",
     ["handler state", "str(handler)", "handler.method.method"])

prop("C19", "A configuration built by a program is written like one that was read",
     """Command and data objects that a program fills, by keyword arguments of the constructor, by calling the object, by assigning
     attributes, by appending data objects or scripts to their lists, by Packages.add or through handler.method, are written exactly as
     the file that says the same would be after reading it, and read back as such; changing attributes of what was read gives what a
     file with the changed values gives; a deep copy of a handler is written the same and shares nothing with the original.
     Excepted are attributes of options that the version has removed.""",
     ["inputs", "histories", "configurations"], "all accepted lines of all commands and versions, in all public ways to build what they say, and all edits of one into another",
     "The unit tests parse text; a few set one or two attributes of a single version of a command.",
     ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/commands/*.py", "pykickstart/handlers/*.py"],
     [("objects", "pykickstart/base.py: KickstartCommand.__call__, BaseData.__call__, constructors and __str__ of pykickstart/commands/*.py"),
      ("packages and scripts", "pykickstart/parser.py: Packages, Group, Script"), ("method", "pykickstart/commands/method.py: FC3_Method")],
     "model_checking", "model: an accepted line is its attribute values; every way to build them enumerated and compared with the parsed file on the real code",
     """All lines with single options in all versions, pairs of options and edits between lines in some (all) versions, documents,
     all sequences of package lines to length 2 (3), all combinations of script attributes.""",
     ["str(command)", "str(data)", "str(handler)", "handler state"])

prop("C20", "The registry of commands does what a program asks for, and nothing else",
     """A handler is what the lines in force say: resetCommand, under any name of a command, takes back exactly what its lines said (the
     rest stays, and what was excluded by them is accepted again); after maskAllExcept the lines of other commands are ignored whatever
     they say, those of the others, the sections and unknown commands are as before; classes given by commandUpdates, dataUpdates,
     mapping or dataMapping take the place of the usual ones for all names given, in this handler only; a registered section gets exactly
     the lines of its sections, the last registration counts; handleCommand and dispatcher get each command's words and line, and
     return the object that stores it, with its line number.""",
     ["histories", "configurations", "inputs"], "all sequences of reading, resetting and writing, all commands and names, all masks, replaced classes and registrations",
     "The unit tests reset one command, mask one list and replace two classes in one version.",
     ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/handlers/control.py", "pykickstart/commands/*.py"],
     [("registry", "pykickstart/base.py: registerCommand, _setCommand, resetCommand, maskAllExcept, _registerCommands, registerData"),
      ("dispatch", "pykickstart/base.py: dispatcher; pykickstart/parser.py: handleCommand, registerSection")],
     "model_checking", "explicit model (list of lines in force); all operation sequences up to a depth and all single operations replayed on the real handlers",
     """All sequences of 24 operations to depth 2-3 (3-4); each command of each version reset under each name; masks of every single command and
     some pairs; every command and data class replaced.  Masked handlers do not write (the write order is cleared), a mapping must include
     the commands its commands refer to.""",
     ["handler state", "str(handler)", "returned objects", "calls of user classes"])

prop("C21", "Options and commands come, go and are warned about where documented",
     """In every version, the documentation of a command (its help) names exactly the options this version accepts, says since which
     version, and marks those (and the commands) that are deprecated or removed, at the version where that happened.
     Every use of a deprecated option or command (any spelling, abbreviation, line, number of times, in an included file, or in a
     section header) gives exactly one KickstartDeprecationWarning that names it and its line, and nothing else gives one, but what is
     announced to be deprecated.  An option parser built by a program accepts, warns and documents what its history of add_argument
     and remove_argument calls says: the last definition of a name counts, removed names are gone for good until added again.""",
     ["inputs", "histories", "configurations"], "all options and commands of all versions, all positions of their uses, all histories of definitions",
     "The unit tests look at some warnings of some commands, and at single calls of add_argument.",
     ["pykickstart/options.py", "pykickstart/base.py", "pykickstart/sections.py", "pykickstart/commands/*.py"],
     [("life cycle", "pykickstart/options.py: KSOptionParser.add_argument, remove_argument, _parse_optional"),
      ("documentation", "pykickstart/options.py: KSHelpFormatter; _getParser of pykickstart/commands/*.py"),
      ("commands", "pykickstart/base.py: DeprecatedCommand.parse; pykickstart/sections.py: PackageSection.handleHeader, TracebackScriptSection.handleHeader")],
     "model_checking", "explicit model of the parser's history; all call sequences up to a depth and all short lines replayed on the real parser; all uses enumerated in all versions",
     """All histories of 12 calls to depth 4 (5), lines of up to 2 words; all lines of up to two options of all commands and versions; headers
     with up to two options.  The marks of RHEL versions are only checked to be versions.""",
     ["help text", "warnings", "parsed values"])
