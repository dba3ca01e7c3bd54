#!/usr/bin/env python3
# Writes properties.jsonl (kept here so that the long lines stay editable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Integer, logic and stack words compute in 64-bit two's complement",
 "For every data stack content, each integer arithmetic, comparison, logic, shift, stack-manipulation and address-arithmetic word, and every sequence of them, interpreted or compiled, leaves exactly the stack its documented stack effect defines over wrapping 64-bit two's complement cells (truncating division, flags 0 and -1, WITHIN as n2<=n1<n3), touching no cell below its arguments. Division by zero by / MOD or /MOD raises exception -10 with empty stacks and executes nothing that follows. Moves through the return stack (>R R> R@ 2>R 2R> 2R@) preserve values and order.",
 ["inputs","programs"],"all stacks of up to 64 cells with arbitrary (in particular boundary) values, all words, all word sequences that stay within the stacks; shift counts 0..63; 2/ on values that are even or non-negative.",
 "One or two hand-picked small operands per word; no boundary values, no deep stacks, no combinations.",
 ["src/core.rs","src/env.rs","core.fth"],[("primitives of Core","src/core.rs"),("high-level words","core.fth")],["data stack after evaluation","exception code"])
p("C02","Stack overflow and underflow are always reported",
 "When a word executed at top level leaves the data, return or floating-point stack with fewer than zero items, or has pushed it beyond 64 items, evaluation stops right after that word with the matching exception (-4, -6, -45 for underflow, -3, -5, -44 for overflow; -22 for the control stack), with empty data and float stacks and nothing that follows executed. While every stack stays between 0 and 64 items (63 data items under the Forth loop evaluate-input, which needs one itself), no stack exception is raised and all items are kept. After the host resets the machine it works as if the error had not happened.",
 ["programs","histories"],"all push/pop histories on each of the four stacks, in particular around depth 0 and 64, by interpreted and compiled words, with net depth at the end of a top-level word between -100 and 128.",
 "Tests pop one item from an empty stack for individual words; overflow, the exact limit 64, the return, control and float stacks and recovery are hardly touched.",
 ["src/core.rs"],[("Stack canaries and length check","src/core.rs: Stack::underflow/overflow"),("check_stacks after each token","src/core.rs: evaluate_input, ?stacks in core.fth")],["exception code","stacks"])
p("C03","Integer literals denote their value and non-numbers are rejected",
 "A token that is not a word and reads [%|#|$][+|-]digits with at least one digit, each digit below the radix (prefix or BASE, letters in either case for 10..15), denotes its value modulo 2^64, and 'c' denotes the code of the ASCII character c; it does so when interpreted and when compiled. Every other token that is neither a word nor a float literal raises exception -13 and pushes nothing. Printing a cell with . .R or H. in radix 2, 8, 10 or 16 and reading the text back yields the same cell.",
 ["inputs","configurations"],"all tokens over the number alphabet, all cell values, radix 2..16 (BASE), interpretation and compilation.",
 "Tests parse a handful of small numbers in base 10 and 16.",
 ["src/parser.rs","src/core.rs","src/output.rs","core.fth"],[("number parser","src/parser.rs"),("evaluate_integer","src/core.rs"),("dot_r","src/output.rs")],["data stack","output"])
p("C04","Float literals denote the decimal number they spell",
 "A token [+|-]digits[.[digits]](e|E)[+|-][digits] with at most 18 integer and 18 fraction digits denotes, whether interpreted or compiled, the decimal value it spells to a relative error below 1e-13 (a missing exponent is 0, leading zeros of it mean nothing, its value fits a cell; values beyond the double range become infinite, values below it 0 or subnormal; -0e is the negative zero), independent of BASE unless the token is also an integer literal in the current base. A token that deviates from that form (no integer digits, no exponent letter, stray characters) is not a float and raises exception -13 with nothing pushed.",
 ["inputs","configurations"],"all tokens over the float alphabet, exponents of any size up to 18 digits, BASE 2..16, interpretation and compilation.",
 "Eleven fixed literals with tiny exponents.",
 ["src/parser.rs","src/core.rs"],[("evaluate_float, compile_float, flit","src/core.rs"),("uint, fraction","src/parser.rs")],["float stack","exception code"])
p("C05","Output words print exactly the specified text in order",
 ". .R H. H.R ? print the cell in the current radix 2, 8, 10 or 16 (two's complement for negative cells outside decimal, upper-case digits) right-aligned in the given width and never truncated, F. F.R print the float with exactly the requested 0..17 fraction digits correctly rounded, and EMIT (ASCII) TYPE S\" .\" .( SPACE SPACES CR print exactly their characters (TYPE replaces only what is not UTF-8). The texts appear in execution order, with nothing lost or reordered by flushing, which only ends a non-empty output with one line end, and H. H.R leave BASE unchanged. .R in any other radix raises exception -21.",
 ["inputs","programs","configurations"],"all cells, finite floats, widths -5..80, precisions 0..17, all text without the delimiter, all sequences of output words interpreted and compiled.",
 "Two tests: emit of two characters and one type.",
 ["src/output.rs","core.fth"],[("output words","src/output.rs"),("high-level output words","core.fth")],["output buffer","standard output of flush-output"])
p("C06","Memory words never touch memory outside the data space",
 "For every address, length and value, @ ! C@ C! F@ F! 2@ 2! +! ON OFF MOVE FILL COUNT TYPE !TOKEN access only bytes of the data space: when any byte they would access lies outside it (including ranges that wrap around the address space) they raise exception -9, no byte outside the data space is read or written and the host goes on; READ-FILE, WRITE-FILE and the file words taking a path report a non-zero ior instead. When all bytes lie in the user part of the data space they succeed, whatever their alignment.",
 ["inputs","programs"],"all 64-bit addresses (boundaries of the data space, host objects, 0, extremes), all lengths and values.",
 "Tests read and write a few valid addresses and two or three invalid ones.",
 ["src/core.rs","src/memory.rs","src/float.rs","src/output.rs","src/file_access.rs","core.fth"],[("range checks in fetch/store/move/type","src/core.rs, src/float.rs, src/output.rs"),("DataSpace bounds","src/memory.rs")],["exception code","guard pages and canary objects around the data space"])
p("C07","Compiled control structures behave as structured programs",
 "Every well-formed colon definition made of literals, words, IF ELSE THEN, BEGIN WHILE REPEAT UNTIL AGAIN, DO ?DO LOOP +LOOP with I J LEAVE UNLOOP, CASE OF ENDOF ENDCASE, EXIT, RECURSE, calls, >R R@ R> and LABEL GOTO CALL, nested in any way, whether written directly or through user-defined compiling words that POSTPONE them, has exactly the data stack, memory and output effect of the structured program it denotes. A DO loop runs its body for each index from start to before limit at least once, ?DO not at all when they are equal, and +LOOP ends when the index crosses the boundary between limit-1 and limit in either direction, modulo 2^64.",
 ["programs","inputs"],"all nestings and sizes that fit the stacks, all loop bounds and steps (wrapping ones too), all branch outcomes.",
 "One or two fixed definitions per construct; no nesting, no negative or wrapping steps, no combinations.",
 ["src/core.rs","core.fth"],[("control structure compilers and run-times","src/core.rs")],["data stack","variables","output"])
p("C08","Names resolve to the newest live definition; bodies are bound early",
 "At any time a name, in any ASCII letter case, denotes the most recent completed definition of that name that is still live, or is undefined (exception -13); a definition keeps calling the words it was compiled with after these are redefined, cannot be found before its ; and never when it failed, and executing a marker restores exactly the names, meanings and data-space pointer from before the marker. Words made by : CONSTANT VARIABLE CREATE ALLOT DOES> 2CONSTANT 2VARIABLE FCONSTANT FVARIABLE +FIELD DEFER, and by the host, keep their meaning and data independently of each other. IMMEDIATE, COMPILE-ONLY, POSTPONE, LITERAL, ' ['] EXECUTE >BODY DEFER! act as documented on every word.",
 ["histories","programs"],"all histories of definitions, redefinitions, failed definitions, markers and uses, with names that collide in the hash table, long and non-ASCII names.",
 "A few definitions in an otherwise fresh dictionary; one marker test; no collisions and no redefinition histories.",
 ["src/core.rs","src/float.rs","src/memory.rs","core.fth"],[("Wordlist, find, define, marker/unmark, does>, postpone","src/core.rs")],["behaviour of every name","data stack","here"])
p("C09","Tasks run round-robin with private stacks; facilities exclude each other",
 "Each PAUSE transfers control to the next awake task in cyclic order and returns to the task, with its data, return and float stacks and its position intact, only when its turn comes; ACTIVATE starts the rest of a definition in the given task with fresh return stack, RESUME and SUSPEND make a task eligible or not, STOP and HALT as defined on these (exception -24 and no effect for a task number outside 1 to 5), and ME is the running task. Words of the dictionary, data space and output are shared. Between GET and RELEASE of a facility by one task no other task gets it, whatever pauses in between, and every waiting task that is scheduled after RELEASE gets it.",
 ["schedules","programs"],"all sets of up to five tasks with arbitrary task programs of pauses, stack use, loops, suspends, resumes, facility use; the operator task stays awake and no task activates itself.",
 "No test runs more than one task.",
 ["src/core.rs","core.fth","src/mock_vm.rs"],[("pause, activate, suspend, resume","src/core.rs"),("nod halt stop get release","core.fth")],["shared event log","stacks of each task"])
p("C10","File words agree with the file system",
 "Through any sequence of CREATE-FILE OPEN-FILE CLOSE-FILE DELETE-FILE READ-FILE WRITE-FILE FILE-SIZE FILE-POSITION RESIZE-FILE REPOSITION-FILE, data read, sizes, positions and the files left on disk are those of ordinary byte files with one independent position per open file, which only READ-FILE WRITE-FILE REPOSITION-FILE move, and ior is 0 exactly when the operation succeeds. A closed, never opened or otherwise invalid file id, access against the mode, a missing file, a path over 256 bytes or an invalid mode yield a non-zero ior and no effect, always with the documented stack effect and never an exception.",
 ["histories","inputs"],"all operation sequences over several files and handles (several handles on one file included), contents of any bytes, sizes up to 64 KB.",
 "There is no test of file access.",
 ["src/file_access.rs"],[("file words","src/file_access.rs")],["data stack","data space","files on disk"])
p("C11","An error in the interactive system leaves everything else as it was",
 "In the rtf read-eval loop, a line that fails in any way (undefined word, stack error, division by zero, bad address, compile-only word, malformed definition, ABORT, error deep inside nested definitions, loops or an included file) prints the offending token and the description of the error (nothing for ABORT), discards the rest of the line and clears the stacks. Every other line of the session behaves and prints exactly as if the failing line had not been typed, apart from effects completed before the error; names it was defining stay undefined, and the loop keeps accepting lines.",
 ["histories","fault_sequences"],"all sessions of lines with failing lines of every kind inserted anywhere, one after another and repeatedly.",
 "No test drives the rtf loop; tests reset the machine by hand after an error.",
 ["src/core.rs","rtf/rtf.fth","core.fth","src/loader.rs"],[("abort_with, handler!, reset","src/core.rs"),("(abort) quit","rtf/rtf.fth")],["output of the session"])
p("C12","No input text crashes or corrupts the host",
 "Whatever UTF-8 text is given to the interpreter, line by line, in embedded or interactive use, evaluation never panics, aborts or faults the host process; each error surfaces as an exception code. After the host resets the machine it still evaluates correct programs correctly. (Text that exhausts the data space or asks for unbounded output or time is not covered, nor text that stores into dictionary headers or compiled code.)",
 ["inputs","histories"],"all texts: random Unicode, random token sequences over all words, mutated programs; split in lines anywhere.",
 "Tests only feed meaningful programs.",
 ["src/core.rs","src/output.rs","src/loader.rs","src/tools.rs","src/parser.rs"],[("abort_with in place of panics","src/core.rs")],["process exit","exception code","sanity programs afterwards"])
p("C13","Source text is tokenised independent of layout; parsed text is exact",
 "Replacing the whitespace between words by any mix of spaces, tabs, carriage returns and newlines, splitting the text into lines between words, changing the ASCII letter case of words and inserting ( ) and \\ comments changes nothing in what a program does. S\" and .\" take exactly the characters after one separating space up to the delimiter (.( all up to its delimiter), WORD skips leading and takes characters up to the delimiter, CHAR and [CHAR] give the first character of the next token, PARSE-WORD with !TOKEN stores exactly the next token, for any Unicode text, and parsing resumes right after it. SOURCE-IDX is the place right behind the last token in bytes, and RESTORE-INPUT after SAVE-INPUT, like SOURCE-IDX!, continues at exactly the place given, in typed lines and files alike. A missing name after a defining or parsing word raises exception -39, and [ ... ] LITERAL evaluates in the middle of a definition.",
 ["inputs","programs"],"all programs with all layouts, comments and letter cases; all strings of any length up to 255 bytes and any Unicode characters except the delimiter.",
 "Tests use one layout, ASCII strings and short lines.",
 ["src/core.rs","src/output.rs","core.fth"],[("parse_word, parse, _skip, imm_paren, imm_backslash","src/core.rs"),("s_quote","src/output.rs"),("word","core.fth")],["data stack","output","data space"])
p("C14","All ways to run a program are equivalent",
 "The same program has the same effect on stacks, memory, output and exception when it is interpreted token by token, compiled into one definition, factored into sub-definitions, run by the host's evaluate loop or by the Forth evaluate-input loop, executed at once or one inner-interpreter step at a time, and reached directly, through EXECUTE of its token, through DEFER or through POSTPONE. Doing the same work in a machine that was used and reset before gives the same result as in a fresh one.",
 ["programs","configurations"],"all programs of words with interpretation semantics, all factorings, all execution modes.",
 "Each test uses exactly one mode.",
 ["src/core.rs","core.fth"],[("interpret_token / compile_token / run / forth","src/core.rs"),("evaluate-input","core.fth")],["stacks","output","exception code"])
p("C15","Data space is a byte array with disjoint allocations",
 "HERE ALLOT , C, F, 2, ALIGN FALIGN CREATE VARIABLE 2VARIABLE FVARIABLE and string compilation hand out consecutive disjoint memory; @ ! C@ C! F@ F! 2@ 2! +! ON OFF MOVE FILL COUNT APPEND read and write exactly the bytes they denote (little-endian cells at any alignment, MOVE as if through a copy) and no others. ALIGNED and FALIGNED give the next multiple of 8, PAD an aligned address at least 84 bytes past HERE. An ALLOT that does not fit raises exception -8 and changes nothing.",
 ["histories","inputs"],"all histories of allocations and accesses, overlapping moves in both directions, odd addresses and lengths, all values.",
 "A few single stores and fetches.",
 ["src/core.rs","src/memory.rs","src/float.rs","core.fth"],[("memory words","src/core.rs, core.fth"),("DataSpace","src/memory.rs")],["bytes of the data space","data stack"])
p("C16","Float and unit words agree with IEEE 754 double arithmetic",
 "For every float stack content, each float word and every sequence of them, interpreted or compiled, leaves exactly the stacks its stack effect defines: + - * / square root, negate, abs, min, max, floor, ceil, round (halves away from zero), comparisons and conversions as IEEE 754 doubles (F>S truncates toward zero and saturates, 0 for NaN; FMIN FMAX prefer a number to a NaN), F~ as in Forth 2012, trigonometric functions, powers and the unit words to a relative error of 1e-12. Float stack words move values unchanged, and items below the arguments and the data stack are untouched.",
 ["inputs","programs"],"all finite and infinite doubles (special and boundary values), all words, all sequences within 64 items.",
 "One or two small operands per word.",
 ["src/float.rs","src/units.rs","core.fth"],[("float words","src/float.rs"),("unit words","src/units.rs")],["float stack","data stack"])
p("C17","Loading source files equals typing their lines",
 "INCLUDE and INCLUDED of a readable file have the effect of interpreting its lines in order, for LF or CRLF ends, with or without a final newline, empty lines and any line length, then continue right after the file name with the rest of the including line or file, for includes nested up to 15 deep and any number of includes in a row; \\\\ ends the file. An error in a line stops all loading and is reported with the path, line number and text of that line. A missing file aborts without effect, and an include too deep aborts.",
 ["inputs","histories"],"all file contents split in files and lines in all ways, nesting 0..15 and beyond, errors in any line of any file.",
 "No test loads a file.",
 ["src/loader.rs","core.fth","rtf/rtf.fth"],[("load_line, open_source, close_source","src/loader.rs"),("included, save-source, restore-source, evaluate-input","core.fth")],["stacks","output","exception code"])
p("C18","Malformed definitions are rejected as a whole",
 "A colon definition with up to 64 open structures is accepted if and only if its control-structure words nest as IF..THEN, IF..ELSE..THEN, BEGIN..UNTIL, BEGIN..AGAIN, BEGIN..WHILE..REPEAT, DO|?DO..LOOP|+LOOP, CASE..(OF..ENDOF)..ENDCASE, with LEAVE only inside a DO loop, and every label used is defined (once per 0LABELS) with a number in 1..999; otherwise exception -22 (-24 for a label number that is out of range or already defined) is raised no later than at its ; and the name keeps its previous meaning. Compile-only words used while interpreting raise -14, and after the rejection the next definitions compile and run correctly.",
 ["programs","inputs"],"all sequences of control-structure words, well-formed or not, up to the control stack depth of 64.",
 "A few missing or doubled words; not the combinations.",
 ["src/core.rs"],[("control stack checks","src/core.rs: imm_*"),("semicolon","src/core.rs")],["exception code","behaviour of the name"])
p("C19","Inspection and timing words report the true state and change nothing else",
 ".S prints both stacks without changing them, DEPTH the item count, WORDS all and only the visible names newest first, .WORD the name of a token, DUMP the bytes of a range, .MEMORY the bounds and use of the data space, and .INPUT .TOKEN .ERROR SOURCE-ID what they name; the backtrace of an error report names the definitions being executed, outermost first, and the failing word. MTIME and UTIME give the host clock in ms and us, MS returns only after at least n ms of host time while other tasks run, and XTIME runs the word unchanged while .XTIME shows its smallest and largest time until 0XTIME. ",
 ["inputs","histories","schedules"],"all stacks, dictionaries, byte ranges and clock sequences.",
 "These words have no tests apart from the clock words being present.",
 ["src/tools.rs","src/facility.rs","core.fth"],[("tools","src/tools.rs"),("facility","src/facility.rs"),("ms xtime dump","core.fth")],["output","stacks"])
p("C20","Running compiled code allocates no heap memory",
 "Executing already compiled words made of integer, float, stack, memory, control-flow, loop, multitasking and time words, of any length and depth, performs no heap allocation or release in the host, whether it completes or ends in an exception, so that its run time has no dependence on the allocator.",
 ["programs"],"all compiled programs of words other than those for output, input, files, defining and parsing.",
 "No test looks at allocations.",
 ["README.md","src/core.rs","src/float.rs"],[("fixed-size stacks and buffers","src/core.rs")],["calls of the host's global allocator"])
p("C21","The program rtf edits, keeps and runs exactly the lines that are typed",
 "While a line is typed at rtf the screen shows it with the cursor at the edit position - characters go in there, Backspace erases before it, Left and Right move by whole characters of any width, Up and Down walk through the history (keeping changes to the entries left), keys without a meaning do nothing - and Enter hands Forth exactly the line shown, while Ctrl-D or BYE ends the program with status 0. The screen of a session is that of the read-eval loop of the library run on the same lines, after the words given as arguments, joined by spaces, have been evaluated; with -v or -h only the version or usage appears, and its clock words follow real time. On leaving, the terminal is as it was before and the last 32 history entries, except empty ones (one is left by Ctrl-D), are in the history file, whence Up recalls them in the next run, whatever the file held before and without failing where no home or cache directory can be used.",
 ["inputs","histories"],"all sequences of keys, lines of one-, two- or zero-column characters, arguments and history files.",
 "The program has no tests.",
 ["rtf/src/term.rs","rtf/src/main.rs","rtf/rtf.fth"],[("line editor and history","rtf/src/term.rs"),("virtual machine, arguments, receive","rtf/src/main.rs"),("read-eval loop","rtf/rtf.fth")],["screen","line received","history file","exit status and terminal mode"])
p("C22","The host's Rust interface and Forth text act on one machine",
 "What a host does through the Rust interface - the stacks, set_source, push_source and load_str, add_primitive, add_immediate, add_compile_only and add_immediate_and_compile_only, find, execute_word, run and forth, compile_word, compile_integer and compile_float, the methods of DataSpace within its capacity, awake, set_awake and reset - has exactly the effect of the Forth words that denote it, from then on and in any order with text; a Stack is a last-in first-out list of up to 64 items with its overflow and underflow flags. abort_with stops the program with the exception given, whose code and description are those of ANS Forth, and executing an invalid token raises exception -21. Machines in one process, of any host type, do not affect each other.",
 ["histories","inputs","programs"],"all sequences of calls and lines, all stack depths, all 58 exceptions, all interleavings of machines.",
 "Tests use some of these methods on a fresh machine with one or two values.",
 ["src/core.rs","src/memory.rs","src/exception.rs","src/mock_vm.rs","README.md"],[("Stack, Wordlist, add_*, find, run, abort_with","src/core.rs"),("DataSpace, Memory","src/memory.rs"),("description","src/exception.rs")],["stacks","data space","dictionary","exceptions","output"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n,"sentences?")
