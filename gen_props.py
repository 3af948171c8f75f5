#!/usr/bin/env python3
"""Source of properties.jsonl (run once after editing; the output is committed)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))

prop("C01","cat writes the exact concatenation of its operands",
 "For every list of readable operands, cat's standard output is byte for byte the concatenation of the operands' contents in operand order, where '-' (or no operand at all) stands for the remaining standard input and '-u' changes nothing. No byte is added, dropped, translated or reordered, whatever the contents and sizes. cat then exits 0 with nothing on standard error.",
 ["inputs","configurations"],"all file contents (binary, empty, larger than any internal buffer), all operand lists with repeated files, '-' in any position and -u",
 "cmd/cat has no tests at all; the property ranges over every byte string, size and operand list.",
 ["cmd/cat/main.go"],[("copy loop","cmd/cat/main.go: write/writeFile"),("operand list construction","cmd/cat/main.go: main")],
 ["stdout and exit status of the cat binary"])

prop("C02","cksum prints the POSIX CRC, the octet count and the pathname",
 "For every input, cksum prints one line per operand, in operand order, holding the 32-bit CRC that POSIX defines for the contents followed by their length, the exact octet count in decimal, and the pathname as given. An operand '-' stands for the rest of standard input and is printed as '-'. Without operands it checksums standard input and prints only CRC and count. It exits 0 when every operand could be read.",
 ["inputs","configurations"],"all byte strings (all 256 octet values, lengths 0, 1, around 2^8, 2^16, 2^24), all operand lists, stdin or files",
 "cmd/cksum has no tests; a single wrong table entry or a length-extension slip only shows on particular bytes and lengths.",
 ["cmd/cksum/cksum.go","cmd/cksum/main.go"],[("CRC table and update","cmd/cksum/cksum.go: crctab, memcrc"),("length extension","cmd/cksum/cksum.go: memcrc"),("output line","cmd/cksum/main.go: run")],
 ["stdout and exit status of the cksum binary"])

prop("C03","cmp reports exactly where two files differ and exits accordingly",
 "For every two inputs cmp exits 0 exactly when they are identical, 1 when they differ and more than 1 when it cannot compare them (missing operand, unreadable file, too many operands). By default it prints '<file1> <file2> differ: char <n>, line <m>' for the first differing byte, with n counted from 1 and m one more than the newlines before it; with -l it prints byte number and both byte values in octal for every differing byte; with -s it prints nothing. When one file is a prefix of the other it exits 1 and, unless -s is given, writes 'cmp: EOF on <shorter file>' to standard error; '-' stands for standard input.",
 ["inputs","configurations"],"all pairs of byte strings (equal, one byte changed anywhere, prefix, length beyond any buffer), all option placements, '-' as either operand",
 "cmd/cmp has no tests; the first difference can be at any offset and line, and exit status combines with each option.",
 ["cmd/cmp/main.go"],[("byte loop with line counter","cmd/cmp/main.go: cmp"),("option parsing","cmd/cmp/main.go: parseSettings")],
 ["stdout, stderr and exit status of the cmp binary"])

prop("C04","head copies exactly the first n lines of each input",
 "For every input, 'head -n N' copies exactly the first N lines (10 without -n) unchanged, whatever bytes and however long the lines are, or the whole input if it has fewer. Without file operands, or for '-', it reads standard input. With more than one file operand each part is preceded by a line '==> <name> <==', with an empty line between parts, and the operands appear in order.",
 ["inputs","configurations"],"all byte strings (CR, NUL, invalid UTF-8, lines longer than 64 KiB, no final newline), all N >= 0, all operand lists",
 "cmd/head has no tests; content, line length, N and number of operands are unbounded.",
 ["cmd/head/main.go"],[("line copying","cmd/head/main.go: process"),("operand parsing","cmd/head/main.go: parseSettings")],
 ["stdout and exit status of the head binary"])

prop("C05","diff's output is an edit script that turns file1 into file2",
 "For every two text files, applying the default-format output of diff to file1 yields exactly file2, and applying it backwards to file2 yields file1: line numbers, ranges and the '<' and '>' lines all agree with the files, in increasing order. diff prints nothing and exits 0 exactly when the files have the same lines, exits 1 when they differ, and exits greater than 1 with a diagnostic on standard error, and nothing on standard output, when a file cannot be read or an operand is missing or superfluous.",
 ["inputs"],"all pairs of newline-terminated files over any bytes except NUL/newline inside a line, including CR, very long lines, empty files, repeated and moved lines",
 "neither cmd/diff nor pkg/diff has any test; a script is only right if it is right for every pair of files.",
 ["cmd/diff/main.go","pkg/diff/diff.go","pkg/diff/output.go"],[("longest-common-run recursion","pkg/diff/diff.go: Diff"),("normal format","pkg/diff/output.go: basicOutput, fmtRange"),("line reading","cmd/diff/main.go: readLines")],
 ["stdout, stderr and exit status of the diff binary"])

prop("C06","The diff library reconstructs both inputs and never touches common lines",
 "For every two line sequences, the change list returned by the diff library, read as kept, removed and added lines, reproduces the old sequence (kept and removed lines in order) and the new sequence (kept and added lines in order) exactly. It reports no change when the sequences are equal, and between two consecutive kept lines (or an end) it never reports the same line as both removed and added, so a line that could be kept in place is kept. The formatted output describes exactly those changes.",
 ["inputs"],"all pairs of line sequences, over small alphabets (many repeats) and large ones, including empty sequences and empty lines",
 "pkg/diff has no tests (a go-fuzz target exists but is never built); the recursion's index arithmetic depends on how runs of repeated lines overlap.",
 ["pkg/diff/diff.go","pkg/diff/output.go","pkg/diff/fuzz.go"],[("longest common run","pkg/diff/diff.go: Diff"),("recursion on the remainder","pkg/diff/diff.go: Diff"),("Format","pkg/diff/output.go")],
 ["diff.Diff return value (via its String methods), diff.Format"])

prop("C07","tsort prints every item once, in an order that respects every pair",
 "For every list of whitespace-separated pairs whose relation is acyclic, tsort prints each distinct item exactly once, one per line, and nothing else, such that for every pair of different items the first comes before the second; a pair of identical items only announces that item. It exits 0. The result does not depend on how the pairs are split over lines, repeated or ordered, or whether they come from a file or standard input.",
 ["inputs"],"all finite partial orders given as pair lists: chains, diamonds, isolated items, repeated pairs, items announced before or after they are used in a pair",
 "three fixed inputs are tested in pkg/tsort and none in cmd/tsort; validity quantifies over all graphs and all statement orders, and Go map order varies from run to run.",
 ["pkg/tsort/tsort.go","cmd/tsort/main.go"],[("successor map","pkg/tsort/tsort.go: Add"),("Kahn-style emission","pkg/tsort/tsort.go: heads, isBlocked, Order"),("word pairing","cmd/tsort/main.go: run")],
 ["stdout and exit status of the tsort binary","tsort.Sorter Add/Order"])

prop("C08","tsort rejects cyclic relations and unpaired input",
 "For every input whose pairs contain a cycle of two or more different items, or that has an odd number of items, tsort exits non-zero with a diagnostic on standard error and prints no ordering. The library reports an error for exactly the sets of orderings that contain a cycle (an item directly followed by itself in one ordering counts as one), and never for acyclic ones.",
 ["inputs"],"all relations with a cycle of any length, reachable or not reachable from an acyclic part, with any acyclic remainder; all odd item counts",
 "no test contains a cycle or an odd item; a cycle may be hidden behind any amount of sortable input.",
 ["pkg/tsort/tsort.go","cmd/tsort/main.go"],[("left-over check","pkg/tsort/tsort.go: Order"),("unmatched word check","cmd/tsort/main.go: run")],
 ["exit status, stdout, stderr of tsort; error result of Sorter.Order"])

prop("C09","test evaluates string and integer expressions by the POSIX argument rules",
 "For every argument list of up to four arguments built from strings, '!', -n, -z, =, != and the six integer comparisons, test exits 0 when the expression is true and 1 when it is false, where the number of arguments decides the reading as POSIX prescribes: with three arguments a binary operator in the middle wins even if the operands look like operators or are empty, and a leading '!' negates the remaining expression. Operands that are not integers in an integer comparison, and argument lists that form no expression, exit greater than 1 with a diagnostic.",
 ["inputs"],"all argument lists of length 0 to 4 over operators, empty strings, operator look-alikes, integers of either sign and arbitrary text",
 "cmd/test has no tests; the reading depends on count, position and content of every argument together.",
 ["cmd/test/main.go","cmd/test/tests.go"],[("argument-count dispatch","cmd/test/main.go: parse"),("operators","cmd/test/tests.go: infixMap, flagMap, numcmp")],
 ["exit status and stderr of the test binary"])

prop("C10","test's file primaries agree with the file system",
 "For every path, the file primaries -e -f -d -p -S -c -b -h -L -s -g -u of test exit 0 exactly when the named path has that property (existence, type, non-zero size, set-group-ID, set-user-ID), following symbolic links except for -h and -L, and exit 1 otherwise, including for paths that do not exist or dangling links. Negation with '!' gives the opposite status.",
 ["inputs","configurations"],"all primaries applied to regular (empty and non-empty, any mode bits), directory, FIFO, socket, character-device, symbolic-link (to each, dangling, chained) and missing paths",
 "cmd/test has no tests; each primary must be right on every kind of file, not just its own.",
 ["cmd/test/tests.go","cmd/test/main.go"],[("primaries table","cmd/test/tests.go: flagMap, modeIs, info, isLink")],
 ["exit status of the test binary"])

prop("C11","kill delivers exactly the requested signal to exactly the named processes",
 "For every supported way of naming a signal (-s NAME in either case, -NUMBER, or none for TERM) and every list of process IDs, each named process receives exactly that signal, once, and no other process receives anything; signal 0 only checks existence. When every process was signalled kill exits 0; for an unknown signal, a malformed process ID, a missing argument or a process that does not exist it exits non-zero with a diagnostic.",
 ["inputs","configurations"],"all signal spellings and numbers the tool lists, process-ID lists of any length with live and dead processes",
 "cmd/kill has no tests; which signal arrives can only be observed by running against processes.",
 ["cmd/kill/main.go"],[("argument loop","cmd/kill/main.go: main"),("signal table","cmd/kill/main.go: signalMap")],
 ["signals received by test processes, exit status and stderr of the kill binary"])

prop("C12","locale reports the effective value of every category from the environment",
 "For every setting of LANG, LC_ALL and the LC_* variables, locale prints LANG, the six categories LC_COLLATE LC_CTYPE LC_MESSAGES LC_MONETARY LC_NUMERIC LC_TIME and LC_ALL, in that order, one line each: LANG always in double quotes, LC_ALL without quotes. A category shows LC_ALL if that is set and not empty, else its own variable if set and not empty, else LANG; values that come from LC_ALL or LANG are enclosed in double quotes and a category's own value is not. Variable values are reproduced verbatim, whatever characters they contain.",
 ["configurations","inputs"],"all assignments of values (unset, empty, arbitrary text including % and spaces) to the eight variables",
 "cmd/locale has no tests and pkg/locale tests only definition parsing; precedence is a function of eight independent variables.",
 ["pkg/locale/locale.go","cmd/locale/main.go"],[("precedence","pkg/locale/locale.go: getVal"),("report","pkg/locale/locale.go: String"),("environment","pkg/locale/locale.go: FromEnv")],
 ["stdout of the locale binary","locale.FromEnv().String()"])

prop("C13","The option parser follows the POSIX utility syntax guidelines",
 "For every declaration of single-character boolean, string and integer options and every argument vector, parsing sets exactly the options that occur, with the values given either attached or as the next argument, accepts any grouping of boolean options (optionally ended by one option with a value), lets the last occurrence win, and stops at the first non-option argument, '-' or '--'. The remaining arguments are returned in order and unchanged ('--' itself is dropped). An unknown option, a missing option value or a non-integer value for an integer option yields an error, never a crash.",
 ["inputs","configurations"],"all option sets (ASCII and non-ASCII letters) and all argument vectors: grouped, attached, separate, repeated, empty and dash-prefixed values",
 "eight fixed vectors are tested; grouping, attached values and error cases combine without bound.",
 ["pkg/flag/parse.go","pkg/flag/flag.go"],[("argument loop","pkg/flag/parse.go: Parse"),("typed options","pkg/flag/flag.go")],
 ["return values of flag.Parser.Parse and the bound variables"])

prop("C14","Basic regular expressions match exactly the strings they denote",
 "For every well-formed pattern built from literal characters, '.', bracket lists of plain characters, the repetitions '*', '{m}', '{m,}' and '{m,n}', a leading '^' and a trailing '$', matching a string answers true exactly when some substring (starting at the beginning if '^' is present, ending at the end if '$' is present) is in the language of the pattern. This includes empty strings and patterns, characters outside ASCII, and patterns that need backtracking. Matching never crashes and always terminates.",
 ["inputs","programs"],"all such patterns and all subject strings, biased towards subjects over the pattern's own alphabet and of lengths around the repetition counts",
 "about 45 fixed pattern/subject pairs are tested, hardly any of them negative with anchors or repetitions; languages are infinite.",
 ["pkg/regexes/bre.go","pkg/regexes/bre_evaluate.go"],[("parser","pkg/regexes/bre.go: ParseBre, parseCount, readUntil"),("backtracking matcher","pkg/regexes/bre_evaluate.go: Matches, elementsMatch")],
 ["regexes.ParseBre(...).Matches(...)"])

prop("C15","Malformed patterns are rejected, well-formed ones are accepted",
 "Every pattern with an unterminated bracket list, an unterminated repetition count or a repetition count that is not of the form m, m, or m,n is rejected when it is parsed, before any matching; every well-formed pattern is accepted. Rejection is an error return or a panic, never acceptance, a hang or a fatal crash.",
 ["inputs"],"all patterns obtained from well-formed ones by truncating or corrupting a bracket list or repetition count at any position",
 "two malformed patterns are tested; corruption can happen anywhere in a pattern of any shape.",
 ["pkg/regexes/bre.go"],[("terminator search","pkg/regexes/bre.go: readUntil"),("count syntax","pkg/regexes/bre.go: breCountRe, parseCount")],
 ["regexes.ParseBre result or panic"])

prop("C16","The piece table behaves as a byte string under every edit history",
 "For every initial text and every sequence of valid insertions and deletions, the contents read back after each step equal those of a plain byte string edited in the same way, however the edits split, join or exhaust earlier pieces. This holds for a table over any random-access source, an empty one and a zero-value one; later changes by the caller to a slice that was inserted do not change the contents.",
 ["histories","inputs"],"all sequences of Insert(text, at) with 0<=at<=length and Delete(length, at) with at+length<=total, over any bytes, including empty edits, edits at piece boundaries and deleting everything",
 "a handful of fixed edits are tested; corruption shows only after particular sequences of edits at particular boundaries.",
 ["pkg/txt/piece_table.go"],[("piece splitting","pkg/txt/piece_table.go: Insert"),("piece trimming","pkg/txt/piece_table.go: Delete"),("assembly","pkg/txt/piece_table.go: String, piece.Read")],
 ["txt.PieceTable Insert/Delete/String"],
 [dict(name="piece list",meaning="the ordered spans of source and appended text that make up the contents",where="pkg/txt/piece_table.go")])

prop("C17","ed's editing commands change exactly the addressed lines, in every history",
 "For every file and every sequence of append, insert, change and delete commands with valid addresses (numbers, '.', '$', offsets, ranges with ',' or ';' and open-ended ranges), the buffer that is written afterwards equals that of a list-of-lines model: text goes exactly after, before or in place of the addressed lines, exactly the addressed lines disappear, and every other line, including empty ones, is unchanged byte for byte. The text may be any number of lines of any bytes, also none. After each command the current line is the last line inserted (without text, the addressed line for a and i) or, after a deletion or a change without text, the line that followed (or the new last line).",
 ["histories","inputs"],"all command histories over files with any lines (empty, CR, non-ASCII, very long), with or without a final newline, and over an empty buffer",
 "about a dozen single-command scripts on a three-line buffer are tested; addressing errors compound over histories and show only with particular contents.",
 ["pkg/ed/ed.go","pkg/ed/address.go","pkg/ed/ed.peg.go","cmd/ed/main.go"],[("commands","pkg/ed/ed.go: processCommand"),("line to offset mapping","pkg/ed/ed.go: getLineAddr, getLines"),("address resolution","pkg/ed/ed.go: addrLine"),("command grammar","pkg/ed/ed.peg, pkg/ed/ed.peg.go")],
 ["file contents after w, stdout of the ed binary"],
 [dict(name="current line",meaning="line that '.' denotes",where="pkg/ed/ed.go: Itor")])

prop("C18","ed prints exactly the addressed lines and keeps '.' right",
 "For every buffer and every sequence of p, n, = and null commands with valid addresses (numbers, '.', '$', offsets, /re/ and ?re? searches, ranges), ed prints exactly the addressed lines, preceded by number and tab for n, or the line number for =, each response followed by a newline and in command order. p, n and null set the current line to the last line printed, = leaves it; searches start after (before, for ?re?) the current line and wrap around. None of these commands changes the buffer.",
 ["histories","inputs"],"all command histories over all buffers, all address forms and combinations, search patterns over literals, '.', '*', bracket lists and anchors, matching or not on either side of the current line",
 "seven fixed print commands are tested; the addressed lines depend on the whole preceding history.",
 ["pkg/ed/ed.go","pkg/ed/address.go","pkg/ed/ed.peg.go"],[("printing","pkg/ed/ed.go: Print, number"),("search","pkg/ed/ed.go: regexMatch"),("defaults","pkg/ed/address.go: defaultAddresses")],
 ["stdout of the ed binary"])

prop("C19","ed answers every bad command with '?' and leaves everything as it was",
 "For every input line that is not a valid command, names a line that does not exist, has its addresses in the wrong order, searches for a pattern that does not match, or asks for something ed does not implement, ed answers with a response starting with '?', in its place in the output order, and neither the buffer, the current line nor any file changes. ed never crashes or hangs, whatever the commands, and goes on with the next command.",
 ["histories","inputs","schedules"],"all histories mixing valid commands with syntactically invalid, out-of-range, reversed, non-matching and unsupported ones, on empty and non-empty buffers; every scheduling of the reader and the executor",
 "no test gives ed an invalid command; any one crash loses the whole buffer.",
 ["pkg/ed/ed.go","pkg/ed/ed.peg.go"],[("command loop","pkg/ed/ed.go: ProcessCommands"),("address checks","pkg/ed/ed.go: processCommand, addrLine")],
 ["stdout, exit status of the ed binary, file contents"])

prop("C20","ed writes exactly the buffer, or leaves the old file intact",
 "For every history, w makes the file hold exactly the buffer's bytes, keeping its permission bits and leaving no temporary file behind (nor when it fails); a symbolic link stays a link, and the file it points to is written; 'w name' and 'm,nw name' write (the addressed lines of) the buffer to that file and leave the edited file alone; and e replaces the buffer by the file, so that e followed by w leaves a file unchanged. The operand on ed's command line names the file to edit whatever characters the name has. If the write fails at any point (I/O error, no space, missing directory) or ed is killed during it, the previous contents of the file survive complete, and after a failure ed reports '?' and the buffer can still be edited, printed and written elsewhere.",
 ["histories","inputs","fault_sequences"],"all buffers and histories; failures injected at every prefix of the data being written and at each step of the save",
 "one test writes one two-line file; failures during saving are not tested at all.",
 ["pkg/ed/ed.go"],[("write to temporary, then rename","pkg/ed/ed.go: Write"),("edit","pkg/ed/ed.go: Edit"),("write command","pkg/ed/ed.go: processCommand")],
 ["file contents and mode after w, directory listing, stdout of the ed binary"])

prop("C21","Every well-formed locale definition is accepted and its values are recorded",
 "Every locale definition source built from the supported categories and keywords is accepted, in any order of categories and keywords, and the international currency symbol, international fraction digits and monetary grouping it gives are recorded exactly. Comment lines, blank lines, continuation of long lines with the escape character, and redefinition of the comment and escape characters do not change the outcome.",
 ["inputs","programs"],"all definitions generated from the supported grammar of LC_CTYPE, LC_COLLATE, LC_MONETARY, LC_NUMERIC, LC_TIME and LC_MESSAGES, and all insertions of comments, blank lines, continuations and character redefinitions",
 "five fixed sources and the POSIX locale are parsed and only the return status of the five is checked; no recorded value is checked.",
 ["pkg/locale/localelex.go","pkg/locale/y.go","pkg/locale/localedef.y"],[("comment and continuation handling","pkg/locale/localelex.go: removeComments, checkSpecialWord"),("lexer","pkg/locale/localelex.go"),("grammar and actions","pkg/locale/y.go")],
 ["yyParse status and recorded definition for a source text"])

prop("C22","No malformed locale definition is accepted, and parsing always ends",
 "A locale definition source with an unknown category or keyword, a keyword of another category, a missing or mismatched END line, an unterminated string, a malformed integer or list, or trailing text that belongs to no category is never accepted. For every input text whatsoever, parsing ends: it accepts or rejects, and never runs forever.",
 ["inputs","programs"],"all single corruptions of well-formed definitions (truncation at every position, swapped or misspelt keywords, damaged values) and arbitrary text",
 "the list of sources that must fail exists in the tests but is not used by any test.",
 ["pkg/locale/localelex.go","pkg/locale/y.go"],[("category dispatch","pkg/locale/localelex.go: sCategory, getsGenericCategory, sCollateCategory"),("token grabbers","pkg/locale/localelex.go: grab*")],
 ["whether the parser accepts a source text, and that it returns"])

prop("C23","Era descriptions are split into exactly their six fields",
 "For every era description 'direction:offset:start:end:name:format' with direction '+' or '-' and an integer offset, the resulting era holds exactly the given direction, offset, start date, end date, name and format, where the format may itself contain colons. Descriptions with fewer than six fields, another direction or an offset that is not an integer are rejected with an error.",
 ["inputs"],"all six-tuples of field texts (any characters, colons only in the format), all integer offsets, and all descriptions damaged in one field",
 "no test calls the era constructor.",
 ["pkg/locale/time.go"],[("field splitting","pkg/locale/time.go: NewEra")],
 ["locale.NewEra result and error"])

prop("C24","An unreadable operand is reported and does not affect the other operands",
 "For every operand list given to cat, cksum or head that contains operands which cannot be opened or read (missing files, directories) at any positions, the tool writes a diagnostic naming that operand to standard error, still produces for every readable operand the output it would have produced, in order, and exits with a status greater than 0. With only readable operands it exits 0 and writes nothing to standard error.",
 ["inputs","configurations","fault_sequences"],"all operand lists of readable and unreadable operands in every arrangement, including all-unreadable and repeated ones",
 "none of these commands has any test; the fault can be at any position of any list.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/head/main.go"],[("per-operand loop","main/process functions of the three commands")],
 ["stdout, stderr and exit status of the binaries"])

prop("C25","No command line and no input makes a utility crash or hang",
 "For every argument vector and every standard input, cat, cksum, cmp, cut, diff, head, locale, test, tsort and ed end by themselves, with exit status 0, 1 or 2 and without a runtime crash (panic trace, fatal error or death by a signal). Whenever the exit status reports trouble, there is a diagnostic on standard error, except for test, cmp and diff, whose status 1 is a result.",
 ["inputs","configurations"],"all argument vectors of option-like, empty, numeric, file-like and arbitrary strings (missing option values, repeated options, unknown options) with arbitrary bytes on standard input",
 "only cmd/ed has tests, with two well-formed scripts; argument vectors are unbounded.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/cut/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/locale/main.go","cmd/test/main.go","cmd/tsort/main.go","cmd/ed/main.go"],[("argument parsing","parseSettings/main of each command")],
 ["exit status and stderr of each binary"])

prop("C26","A failed read or write is never passed over in silence",
 "For every run of cat, cksum, cmp, diff, head, tsort and locale in which reading an input fails at any point, or standard output cannot take all of the output, the tool exits with a status greater than 0 (greater than 1 for cmp and diff) and writes a diagnostic to standard error, so that a status that reports a result always stands for a complete result. What it has written until then is a correct beginning: no checksum, difference or order of data that was not read completely, and for cat and head nothing but the beginning of the failed operand and the parts of the others.",
 ["fault_sequences","inputs"],"all runs of the tools, with a failure of any read of any input, of its opening, or of standard output after any number of bytes (none at all, or a limit anywhere in the output)",
 "no command but ed has tests, and none with failing input or output; the failure can come at any byte.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go","cmd/locale/main.go"],
 [("copying","cmd/cat/main.go: write, writeFile"),("read errors","cmd/cmp/main.go: cmp; cmd/diff/main.go: readLines; cmd/head/main.go: process; cmd/cksum/main.go: run; cmd/tsort/main.go: run")],
 ["stdout, stderr and exit status of the binaries"])

prop("C27","How the input arrives does not change the result",
 "For every input of cat, cksum, cmp, diff, head, tsort and ed, output and exit status are the same whether the input is a regular file, a pipe or a FIFO, in whatever pieces and with whatever pauses it arrives. cat passes on what it has read before it waits for more, head ends as soon as it has copied its lines, even if the input stays open, and ed answers each command before it needs to see the next and ends at q.",
 ["schedules","inputs"],"all inputs cut into pieces of any sizes (single bytes, around buffer sizes, within a line or a multi-byte character), on standard input and as operands; writers that wait for the output before they go on",
 "the tests pass whole strings in one piece; short reads happen only with pipes and terminals.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go","cmd/ed/main.go","pkg/ed/ed.go"],
 [("reading","main/run/process functions of the commands"),("command loop","pkg/ed/ed.go: ProcessCommands, readLine")],
 ["stdout and exit status of the binaries, and when the output appears"])


prop("C28","Only ed's w command changes files",
 "For every argument vector, every input and every state of the files named (any permission bits, missing, directories), running cat, cksum, cmp, cut, diff, head, locale, test or tsort, or ed without a w command, leaves the file system as it was: no file is created, removed, renamed, truncated or rewritten, and contents, permissions, owners and modification times stay the same.",
 ["inputs","configurations","histories"],"all command lines and inputs of these tools on files of any mode, with missing operands, and all ed histories without w",
 "no test looks at the file system apart from one file written by ed; an accidental creation or truncation shows only for particular operands and modes.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go","cmd/test/tests.go","pkg/ed/ed.go"],
 [("opening of operands","os.Open calls of each command"),("ed's edit and read paths","pkg/ed/ed.go: Edit, processCommand")],
 ["directory tree before and after a run: names, contents, modes, owners, links, modification times"])

prop("C29","Results depend on arguments and inputs only, not on the surroundings",
 "For every run of cat, cksum, cmp, diff, head, tsort and test, standard output and exit status are the same when the run is repeated with other environment variables, under another program name, in another directory in which the same names lead (through symbolic or hard links) to the same files, with another umask, with standard output a pipe, a file or a file opened for appending (whose earlier contents stay), and, when standard input is not used, with it empty, closed or a directory. tsort may print another valid order.",
 ["configurations","inputs"],"all ordinary runs of these tools, and all combinations of environment, program name, directory, umask and kind of standard streams",
 "tests run in one fixed environment and directory; a dependence on the surroundings shows only in others.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go","cmd/test/main.go"],
 [("argument and stream handling","main of each command")],
 ["stdout and exit status of the binaries"])

prop("C30","The editor library's operations act on a buffer as on a list of lines",
 "For every sequence of Edit, Delete, Print, String, Write and commands given through ProcessCommands on one or several editors, Print returns exactly the asked lines joined by newlines, String the whole buffer with a final newline, Delete removes exactly the asked lines (counted from 1, inclusive), Edit replaces the buffer by the file's lines, or fails and leaves the buffer as it was, and Write makes the edited file hold the buffer. Several editors in one process do not influence each other, and no operation but Write changes a file.",
 ["histories","inputs"],"all sequences of valid operations on several editors over files with any lines, with or without a final newline, sharing files",
 "the tests make one editor each and mostly one command; nothing tests Delete, Write after edits, or two editors.",
 ["pkg/ed/ed.go","pkg/txt/piece_table.go"],[("exported operations","pkg/ed/ed.go: Edit, Delete, Print, String, Write, ProcessCommands"),("line to offset mapping","pkg/ed/ed.go: getLineAddr, getLines")],
 ["return values of the exported methods, file contents"],
 [dict(name="editor",meaning="buffer, file name and current line of one Itor",where="pkg/ed/ed.go: Itor")])

prop("C31","A command line that cannot be honoured is refused",
 "For every command line of cat, cksum, cmp, cut, diff, head, locale and tsort that has an unknown option (and no file of that name exists), an option that needs a number but gets none or something that is not a decimal number in range (for head, also a negative one), more operands than the tool takes, or fewer than it needs, at any position among otherwise good arguments, the tool writes a diagnostic to standard error and exits with a status greater than 0 (greater than 1 for cmp and diff). It prints no result in place of the one that was asked for: nothing at all, except that cat, cksum and head still show the other operands when the option is taken for a missing file.",
 ["inputs","configurations"],"all argument vectors with one bad element (unknown option, missing or malformed number, superfluous or missing operand) at any position among good ones",
 "none of these commands has tests of its argument parsing; a malformed argument may be taken for a good one only in some position or spelling.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/cut/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/locale/main.go","cmd/tsort/main.go"],
 [("argument parsing","parseSettings/main/checkArgs of each command")],
 ["stdout, stderr and exit status of the binaries"])

prop("C32","Uses of the libraries do not influence each other",
 "Every use of the library packages (computing and formatting a diff, parsing and matching a regular expression, parsing a command line, sorting items, editing a piece table, editing a file through the editor library, parsing an era description) gives the same result whether it is done first, after other uses, or at the same time as others in other goroutines of the same process; a parsed regular expression may be matched by several goroutines at once. No call changes the slices it was handed, and independent uses have no data race.",
 ["histories","schedules"],"all sets of independent uses in any order and interleaving",
 "the tests use each package once, one after another, so state kept between uses (a cache, a pooled buffer, a package variable) goes unnoticed.",
 ["pkg/diff","pkg/regexes","pkg/flag","pkg/tsort","pkg/txt","pkg/ed","pkg/locale/time.go"],
 [("diff","pkg/diff/diff.go: Diff; pkg/diff/output.go: Format"),("regular expressions","pkg/regexes/bre.go: ParseBre; bre_evaluate.go: Matches"),("option parser","pkg/flag/parse.go: Parse"),("sorter","pkg/tsort/tsort.go: Sorter"),("editor","pkg/ed/ed.go: Itor"),("piece table","pkg/txt/piece_table.go")],
 ["return values of the exported functions, reports of the race detector"])

with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
