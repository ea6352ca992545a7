"""Writes properties.jsonl and MANIFEST.json from the table below (run after changing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "CppLisp/CppLispInterpreter/"
F = {"E": C + "Environment.cpp", "I": C + "Interpreter.cpp", "V": C + "Variant.cpp", "T": C + "Tokenizer.cpp", "K": C + "Token.cpp", "P": C + "Parser.cpp", "S": C + "Scope.cpp", "L": C + "Lisp.cpp",
     "X": C + "Exception.cpp", "F": C + "fuel.cpp", "U": C + "Utils.cpp", "o": C + "csobject.cpp", "s": C + "csstring.cpp", "t": C + "cstypes.cpp", "D": "CppLisp/CppLispDebugger/Debugger.cpp",
     "M": "Library/fuellib.fuel", "Th": C + "cstypes.h", "oh": C + "csobject.h"}
REF = "monitor: independent reference interpreter as oracle over recorded evaluations (value, text, output, error line and module), ASan+UBSan build"
META = "monitor: metamorphic oracle over recorded evaluations, ASan+UBSan build"
NOTE = "held on the generated executions of this run (counts in the evidence file); trusts the oracle in /verif/lib and the sanitizers of clang 18"
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=REF, note=NOTE, state=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=[F[f] for f in files.split()], mech=mech, technique=technique, note=note, state=state, observe=observe))


SAMPLE = "The 271 unit tests evaluate a few hundred fixed snippets"

prop("P01", "No input makes the interpreter corrupt memory or take down its host",
     "Whatever program text, data, input and sequence of evaluations it is given, the interpreter neither touches memory it does not own nor executes undefined behaviour nor ends the host process: every evaluation ends with a value or with the documented script error. (Assumed: nesting of calls and data fits the stack, and memory suffices.)",
     ["inputs", "programs", "histories"], "all byte strings as programs, all argument kinds and counts for all builtins, all sequences of evaluations in one environment",
     SAMPLE + " with well-formed arguments and without sanitizers; memory errors hide behind argument kinds, positions and histories they never combine.",
     "E I V T P S o s t", [{"name": "argument checks and checked casts of every builtin", "where": F["E"]}, {"name": "conversion of values with type checks", "where": F["V"]}, {"name": "position and balance checks of the reader", "where": F["P"]}],
     technique="AddressSanitizer, UndefinedBehaviorSanitizer and checked standard library (two builds) under hostile generated workloads; monitor for escaping exceptions",
     note="no report in the executed workloads (every builtin x argument kinds x counts, mutated programs, histories); sanitizers miss non adjacent and intra-object errors")

prop("P02", "A failing evaluation leaves the environment usable and otherwise unchanged",
     "After an evaluation ended with an error, definitions, assignments and output made before the failure are kept, nothing after it happened, and later evaluations in the same environment behave exactly as if the failing statement had only had the effects up to its failure. No mode of the failed evaluation (assignment target, return, tracing, nested evaluation, call depth, module) leaks into later evaluations.",
     ["histories", "fault_sequences"], "all sequences of evaluations in one environment in which any expression at any nesting may fail",
     SAMPLE + ", almost all in a new environment; failures are asserted but the environment is not used afterwards.",
     "I E S L", [{"name": "scope state restored when a call is left by an exception", "where": F["S"] + ", " + F["I"]}, {"name": "error positions added once, by the innermost call", "where": F["X"]}])

prop("P03", "Errors name the line and module of the innermost failing call",
     "When evaluation fails, the reported line is the line of the text in which the innermost failing call stands and the reported module is the one this text was read from, however the call was reached: through nested calls, functions of other modules, macros, callbacks, several evaluations or text evaluated at run time. Calls that succeeded before do not influence the report.",
     ["programs", "inputs"], "all failing calls at all places of all programs, with any layout, comments and strings before them",
     "The tests assert the line of a handful of failures on the first lines of a program.", "I T P X E S L",
     [{"name": "line kept in the tokens and copied to calls", "where": F["T"] + ", " + F["K"]}, {"name": "position and module added where the exception passes the innermost call", "where": F["I"] + ", " + F["X"]}])

prop("P04", "Layout and comments do not change what a program does",
     "Replacing the white space between two tokens by any other non empty white space, line breaks or comments, or adding them around parentheses, changes neither value nor output nor the error message of a program. Reported lines shift exactly with the line breaks inserted in front of the failing call.",
     ["programs"], "all programs and all ways to lay them out (spaces, tabs, LF, CR LF, comments with any content, empty comments)",
     "Tests contain a few hand written multi-line programs; no test varies the layout of one program.", "T P",
     [{"name": "classification of characters and line counting", "where": F["T"]}], technique="monitor: each program is executed under several layouts, observations compared (values, output, message, shifted line)")

prop("P05", "Literals and printed data are read back as the same values",
     "Numbers, strings (with the documented escapes for any content), booleans, nil, symbols and nested lists written in a program are read as exactly the value they denote. The printed text of data made of these, quoted and read again, gives data of the same kinds and values that prints the same.",
     ["inputs"], "all literals and all nested data (strings without quote or backslash for printing, as printed strings are not escaped; floating point values with at most six decimals)",
     "Tests read and print a few dozen literals; boundaries of the integer range, odd digits, escapes at chunk borders and nesting are not varied together.", "T K P V o s",
     [{"name": "literal recognition", "where": F["K"]}, {"name": "string escapes", "where": F["T"]}, {"name": "text of values", "where": F["V"] + ", " + F["o"]}],
     technique="monitor: round trip and independent reader as oracles over generated data")

prop("P06", "The reader splits every text into all its tokens, in order, with right lines",
     "For every text the token sequence contains every parenthesis, quote mark, string and atom of the text exactly once and in order, with its kind and content, and each token carries the line of the text on which it ends. Start positions of the tokens lie within the text and never decrease.",
     ["inputs"], "all texts made of parentheses, quote marks, atoms, numbers, strings with escapes, comments and any white space",
     "Tests check token lists for about a dozen fixed texts.", "T K", [{"name": "tokenizer state machine", "where": F["T"]}, {"name": "token classification", "where": F["K"]}],
     technique="monitor: independent tokenizer as oracle over recorded token streams")

prop("P07", "Text that is not well formed is rejected as a whole",
     "A text with missing or surplus parentheses, an unterminated string or a quote mark without expression is rejected with an error and nothing of it is executed: no output, no definition, no assignment, and the environment stays usable. A well formed text is never rejected.",
     ["inputs"], "all well formed texts and all texts that result from removing, adding or moving delimiters",
     "Tests contain about five unbalanced programs.", "P T L", [{"name": "bracket matching before evaluation", "where": F["P"]}],
     technique="monitor: balance oracle over recorded outcomes of mutated programs, with execution probes in the rejected text")

prop("P08", "Arithmetic and bit operations give exact results for all numbers",
     "Integer addition, subtraction, multiplication, negation, shifts and bit operations give the 32 bit two's complement result, integer division and remainder truncate towards zero, and division by zero is an error; if any operand is a floating point number the result is the IEEE double result. Operations with several operands work from left to right, and operands of other kinds are converted or rejected the same way at each position.",
     ["inputs"], "all pairs and tuples of operands of all kinds, including the limits of the ranges, mixed kinds and more than two operands",
     "Tests add and multiply small positive numbers.", "V E", [{"name": "operators of the value type", "where": F["V"]}, {"name": "left fold over the operands", "where": F["E"]}],
     technique=REF + " plus exhaustive matrix over boundary operands")

prop("P09", "Comparison and equality are consistent for all values",
     "Comparison orders numbers by value (integers and floating point mixed) and strings by their characters, and is irreflexive, antisymmetric, transitive and total on them; <, >, <=, >= agree with each other and with equality. Equality is reflexive on data and symmetric, equal holds for lists exactly if they have the same length and equal elements of the same kinds at all nestings (numbers by value), and inequality is always its negation. The comparison functions of the value class, which host programs use, agree with these.",
     ["inputs"], "all pairs and triples of numbers, strings, booleans, nil, symbols and nested lists",
     "Tests compare about twenty fixed pairs.", "V E", [{"name": "comparison operators and deep equality", "where": F["V"]}],
     technique="monitor: algebraic laws and independent comparison as oracles over recorded comparisons")

prop("P10", "String functions give the right part or form of the text for every argument",
     "Length, first, last, rest, nth, slice, search, replace, trim, reverse, upper-case, lower-case and concatenation give for every text and every position and length the documented part, position or form, and an error where the position is outside of the text. They never change the text they were given.",
     ["inputs"], "all texts (also empty, with quotes, escapes, line breaks, repeated and overlapping patterns) and all positions and lengths",
     "Tests use one or two texts per function, without boundaries.", "E s V", [{"name": "string class", "where": F["s"]}, {"name": "string builtins", "where": F["E"]}])

prop("P11", "format fills in every placeholder and nothing else",
     "format replaces each placeholder of its text by the text of the argument with that number, aligned to the given width left or right, in one pass: argument texts are never scanned for placeholders, and all other text is kept. A placeholder without argument is an error.",
     ["inputs"], "all format texts with any number and order of placeholders and widths, all argument values",
     "Tests format three fixed texts.", "s E", [{"name": "single pass formatting", "where": F["s"]}])

prop("P12", "Lists behave as shared sequences through any history of operations",
     "Through any sequence of operations, building, reading, map, reduce, append, reverse, push, pop, rest and search give what they give on a plain sequence; push, pop and assignment to elements change exactly the addressed list, visibly through every reference to it. All other operations leave their arguments unchanged and return lists that share no later change with them.",
     ["histories"], "all histories of operations on several lists with shared references, all positions including the outside of the list, nested lists",
     "Tests call each operation once on a short list and do not look at aliases.", "E V o t", [{"name": "list builtins", "where": F["E"]}, {"name": "shared element storage", "where": F["o"]}],
     state=[{"name": "elements of a list", "meaning": "shared by all references to the list", "where": F["o"]}])

prop("P13", "Dictionaries behave as maps through any history of operations",
     "Through any sequence of operations a dictionary holds for each key the value stored last, keys of different kinds and values stay apart (numbers by value), removed keys are gone, length, key list and containment agree with the stored entries, and the key list is ordered independently of the order of insertion. All references to a dictionary see the same entries, and different dictionaries are independent.",
     ["histories"], "all histories of operations over several dictionaries with keys and values of all kinds",
     "Tests store two or three string keys.", "E V o t", [{"name": "total order of keys", "where": F["V"]}, {"name": "dictionary builtins", "where": F["E"]}],
     state=[{"name": "entries", "meaning": "key to value map shared by all references", "where": F["o"]}])

prop("P14", "Names are resolved lexically, and closures keep their own variables",
     "A name means the variable of the innermost enclosing function or definition context in which the function was created, then the global one, at every point of execution: callers' variables are never visible, arguments and local definitions hide outer ones, and assignments change the variable which the name means. Each call has its own variables, a closure keeps those of the call that created it alive and shared with its sibling closures, also under recursion and after the call has returned.",
     ["programs", "histories"], "all nestings of functions, closures, definitions, assignments and recursion, and all orders of calls",
     "Tests contain a few closures with one captured variable.", "S I E", [{"name": "search along the closure chain", "where": F["S"]}, {"name": "new scope per call", "where": F["E"]}],
     state=[{"name": "variables of a scope", "meaning": "bindings of one call", "where": F["S"]}])

prop("P15", "Arguments are bound to parameters by position for every count",
     "Every call binds the evaluated arguments to the parameters by position; missing ones are nil, surplus ones are available as additional arguments, and argument count, argument list and access by index describe exactly the arguments of the running call, also in nested and recursive calls. Builtins called with a wrong number of arguments fail with an error naming function and counts and have no effect.",
     ["programs", "inputs"], "all functions with any number of parameters called with any number of arguments of all kinds, directly, by map, reduce and apply, and all builtins with all argument counts",
     "Tests call functions with the right number of arguments, and check a wrong count for a few builtins.", "E I S", [{"name": "binding of formal arguments", "where": F["E"]}, {"name": "argument count checks", "where": F["E"]}])

prop("P16", "Each expression is evaluated exactly once, left to right, and only if needed",
     "Arguments of calls are evaluated exactly once and from left to right before the call; if, and, or, while, quote and function definitions evaluate exactly those parts which the language prescribes, and an error stops evaluation at its place. The recorded sequence of side effects of a program is the one this order gives.",
     ["programs"], "all nestings of calls, conditions, loops, logical operators and definitions with observable side effects in every part",
     "Tests look at final values, not at the order or number of evaluations.", "I E", [{"name": "evaluation loop over arguments", "where": F["I"]}, {"name": "special forms", "where": F["E"]}],
     technique="monitor: recorded event log of side effects compared with the order predicted by the reference interpreter")

prop("P17", "Conditions, loops, sequences and return control exactly their own function",
     "if, while, do and return run exactly the statements they should for every program: loops end when the condition is false, sequences give the value of the last statement, and return ends the running function (through nested blocks and loops) with its value and nothing else: neither its caller nor callbacks, later calls nor later evaluations. This holds at every nesting and in recursion.",
     ["programs"], "all nestings of conditions, loops, sequences, functions and returns",
     "Tests use return twice, in simple functions.", "E I S L", [{"name": "return flag of the scope", "where": F["S"] + ", " + F["E"]}])

prop("P18", "quote keeps code as data, quasiquote replaces exactly the marked parts",
     "A quoted expression evaluates to its own structure, unevaluated, at any nesting and for every kind of expression. A quasiquoted expression evaluates to its structure with each unquoted part replaced by its value and each spliced part by the elements of its value, in place and once, and evaluating a form repeatedly gives each time a new result and leaves the program text unchanged.",
     ["programs"], "all nested templates with unquotes and splices at any position and depth, for all values, evaluated repeatedly",
     "Tests contain about ten fixed templates.", "E I P", [{"name": "quasiquote processing", "where": F["E"]}, {"name": "quote marks read as forms", "where": F["P"]}])

prop("P19", "Run time macros replace their call by their body with the given expressions",
     "A call of a run time macro behaves as its body with each parameter replaced by the unevaluated argument expression, simultaneously, evaluated in the place of the call; each use expands afresh, also when macros are nested, recursive to a bounded depth, redefined or called with too few arguments (an error). Other names and quoted data are unaffected.",
     ["programs"], "all macro definitions and uses, nested, repeated, with arguments that mention parameter names",
     "Tests contain about a dozen fixed macros.", "I E", [{"name": "replacement of formal arguments", "where": F["I"]}])

prop("P20", "Interpreters are isolated from each other, and evaluation is deterministic",
     "What a program computes and prints depends only on its text, its input, the files it reads and the evaluations made before in the same environment. Definitions, macros, modules, redefined builtins, traces and failures in one environment are invisible in all others, in whatever order they are created, used and dropped, and repetition gives the same result.",
     ["histories"], "all interleavings of evaluations over several environments in one process, and repetitions",
     "Each test uses its own environment, but none runs several with interleaved use.", "L E S I", [{"name": "all state in the environment's scope", "where": F["E"] + ", " + F["S"]}],
     technique="monitor: interleaved histories over several environments in one process compared with the same histories run alone")

prop("P21", "Independent interpreters can run in parallel threads",
     "Interpreters used by different threads at the same time, each with its own environment, input and output, are free of data races and give the same values, outputs and errors as if each had run alone.",
     ["schedules"], "all schedules of threads that create environments, evaluate, fail, import and drop environments concurrently",
     "All tests are single threaded.", "E I S L V s o t", [{"name": "no mutable state shared by environments", "where": F["E"] + ", " + F["s"]}],
     technique="ThreadSanitizer over stress schedules of parallel interpreters, results compared with sequential runs", note="no race and no different result in the observed schedules; the shared process wide standard output is excluded")

prop("P22", "Observation by trace or debugger does not change what a program does",
     "A program run with tracing, under an attached observer of all steps, or in the debugger without stopping computes the same value, prints the same own output and fails with the same error as without. Trace lines are added to the output, one per function call, in the order of the calls.",
     ["programs", "configurations"], "all programs, with errors, macros, modules and closures, under all kinds of observation",
     "Tests run about twenty programs under the debugger and look at the dialogue only.", "I D L E", [{"name": "observation hooks in evaluation", "where": F["I"]}, {"name": "debugger loop", "where": F["D"]}],
     technique="monitor: same program recorded with and without observation, observations compared; call sequence predicted by the reference interpreter")

prop("P23", "Breakpoints and steps stop the program exactly where they say",
     "Under the debugger a program stops at each call on a line with a breakpoint of that module whose condition holds, and nowhere else; step into stops at the next call, step over at the next call not deeper, step out in the caller, run continues to the next breakpoint. Listed, deleted and cleared breakpoints agree with the commands given, and the position shown is the line and module where execution stands.",
     ["programs", "histories"], "all programs and all sequences of debugger commands with any breakpoints and conditions",
     "Tests script about thirty dialogues over one or two programs.", "D I S", [{"name": "break decision", "where": F["D"]}, {"name": "position of calls", "where": F["I"]}],
     technique="monitor: recorded debugger dialogue checked against the call sequence observed by an independent step monitor and a model of the breakpoint table")

prop("P24", "Imported modules are evaluated in order, and give their names to all",
     "import evaluates each named module once per import in an own module context, finds it at the documented places in their order, and makes its definitions usable everywhere afterwards, hidden by local, enclosing and global names. Module functions use their own module's and the global names, a failing module reports its file and line and leaves the importing environment usable, and a missing module is reported without stopping the program.",
     ["programs", "configurations"], "all sets of modules importing each other without cycle, with equal and different names, at all places of the search path",
     "Tests import the one library file.", "E I L S", [{"name": "search path and module scopes", "where": F["E"]}, {"name": "resolution through modules", "where": F["I"]}])

prop("P25", "Files are written and read back byte for byte",
     "A text written to a file and read again is the same text for every content and length, also when overwritten by shorter text, existence tests agree with the files present, other files are untouched, and failures to read or write are reported without exception and leave no effect.",
     ["inputs", "histories"], "all histories of writing, reading and testing over several files, with all byte contents and existing, missing and unwritable paths",
     "Tests read one fixed file.", "E t U", [{"name": "file functions", "where": F["E"] + ", " + F["t"]}],
     technique="monitor: model file system as oracle, cross-checked against the real directory content after each history")

prop("P26", "The command line runs exactly what its options ask for",
     "For every combination and order of options, script files and expressions, the command line program evaluates each given script once, in order, in an own environment, with tracing, measuring, macro expansion and library path as asked for, prints exactly what it is asked to print, reports unknown options without running anything, and takes missing files as empty. Errors of a script are reported with position and do not end the program abnormally.",
     ["configurations"], "all combinations and orders of options with correct, failing, empty and missing scripts and expressions",
     "Tests run the main function with about twenty argument lists.", "F L", [{"name": "argument handling", "where": F["F"]}, {"name": "guarded evaluation", "where": F["L"]}],
     technique="monitor: recorded output of the main function compared with a model of the command line; the real program run under ASan+UBSan")

prop("P27", "Output is complete, ordered and formatted as the values' text",
     "Everything a program prints appears exactly once and in order in the output of its own environment; print and println write their arguments' texts separated by one space, println adds one line end, and both return the text. Values of every kind have one text, the same for printing, conversion to string and formatting, with strings quoted only inside of lists and dictionaries.",
     ["programs", "inputs"], "all sequences of print operations with values of all kinds and lengths",
     "Tests print short texts.", "E V o t s", [{"name": "text of values", "where": F["V"] + ", " + F["o"]}, {"name": "output streams", "where": F["t"]}])

prop("P28", "Memory in use does not grow with the number of evaluations",
     "Repeating evaluations in one environment, whose definitions replace each other, does not let the memory in use grow with the number of repetitions: whatever a finished call, loop, failed evaluation, import, macro use or traversal allocated and is no longer reachable from a variable is given back. (Excluded: values which contain themselves, as functions stored in the variables of the call or module that created them do.)",
     ["histories"], "all repeated programs without cyclic data",
     "No test measures memory.", "I E S V o t", [{"name": "reference counting of values and scopes", "where": F["o"] + ", " + F["S"]}],
     technique="monitor: heap in use recorded after each repetition, growth detected over windows of equal work")

prop("P29", "Every builtin is documented and the documentation functions agree",
     "Every builtin function has a signature and documentation; doc returns exactly the entries asked for, searchdoc exactly those whose name contains the text, the html list has one entry for each documented function, and functions of the user and of modules are documented with their names, parameters and the comment before the definition. Functions accept exactly the number of arguments their signature shows. Looking up documentation changes nothing and accepts any argument.",
     ["inputs", "configurations"], "all builtin names, name parts and arguments, before and after definitions",
     "Tests look up three names.", "E S", [{"name": "documentation tables", "where": F["E"]}],
     technique="monitor: catalogue of signatures and documentation as oracle over recorded outputs")

prop("P30", "The call stack reported with an error is the chain of active calls",
     "The call stack reported with an error lists exactly the calls active at the failing call, outermost first, with the name of each function, the line it has reached and its module, whatever was called and returned or failed before. Its depth returns to the same value after every evaluation.",
     ["programs", "histories"], "all chains of calls through functions, closures, callbacks, macros, modules and nested evaluations, after any history",
     "Tests look at one stack.", "S I X E", [{"name": "chain of calling scopes", "where": F["S"]}])

prop("P31", "eval, evalstr and apply behave as the code written in their place",
     "Evaluating quoted code with eval, its text with evalstr, or a function with its arguments with apply has the same value, effects, output and error message as the same code in this place, in the same variables, for every code and at every nesting.",
     ["programs"], "all expressions and statements, evaluated directly, quoted, as text, by apply, and in several levels",
     "Tests contain about ten such evaluations.", "E I L", [{"name": "evaluation of data", "where": F["E"]}], technique="monitor: the same code recorded in its direct and indirect forms, observations compared; reference interpreter for both")

prop("P32", "Conversions and type queries are right for every value",
     "Type queries name the kind of every value; conversions to integer, float, string and symbol and the parse functions give for every value exactly the documented result: truncation towards zero, undefined for text that is no number or out of range, errors where no conversion exists. Conversion to text and back gives the same number.",
     ["inputs"], "all values of all kinds and all texts, including limits of ranges, blanks, signs and trailing characters",
     "Tests convert about twenty values.", "V E o", [{"name": "conversions", "where": F["V"] + ", " + F["E"]}])

prop("P33", "Assignment changes exactly the addressed place",
     "Assignment to a name changes the variable this name means and assignment to an element (first, last, nth, in nested lists, through variables, functions and references) changes exactly this element, visibly through all references; the value is evaluated exactly once and returned. Assigning to unknown names or positions outside of a list fails without effect, and after any assignment, failed or not, reading works as before.",
     ["programs", "histories"], "all targets and values, at all nestings and in all scopes, in any history",
     "Tests contain about ten assignments.", "E I S V", [{"name": "l-value mode of a scope", "where": F["S"] + ", " + F["E"]}])

prop("P34", "Definitions and deletions of variables take effect in exactly their scope",
     "def defines in the running scope, gdef in the global one, redefinition replaces, deletion removes exactly the named variable of the running scope (making an outer one visible again) and says whether it existed, and the listing of variables shows exactly the user's definitions with their values. Builtins can be redefined for one environment, and the redefinition is used by all later calls.",
     ["histories"], "all histories of definitions, assignments, deletions and listings, globally and in functions",
     "Tests define and delete one variable.", "E S", [{"name": "variable tables", "where": F["S"]}])

prop("P35", "Guarded evaluation reports every failure and never raises",
     "The guarded evaluation of a host returns the value of a successful program, and for every failing one, whatever the failure, an error value together with a report on its output that names message, line, position, module and call stack (for text which cannot be split into tokens: message and module); it never lets an exception pass. Output written before the failure precedes the report.",
     ["programs", "inputs"], "all programs and texts, valid, failing and malformed, with all option combinations",
     "Tests check two failing programs.", "L X", [{"name": "guarded evaluation", "where": F["L"]}])

prop("P36", "The library functions do what they document for all arguments",
     "The functions and macros of the shipped library (repetition by dotimes and foreach, setq, second, length, strlen, dict-len, find, structures with constructors, predicates and accessors, construction of code for native calls, platform predicates) give for all arguments the results documented for them, and can be used in any combination, nested in each other, in functions and together with variables of any names, without disturbing each other or the variables of the program.",
     ["inputs", "programs"], "all arguments of all library functions and macros, and their combinations",
     "Tests call each library function with one or two arguments.", "M E I", [{"name": "library source", "where": F["M"]}], technique="monitor: independent models of the library functions as oracle over recorded results")

prop("P37", "Compile time macros are expanded completely before evaluation",
     "Uses of compile time macros are replaced before evaluation by the result of the macro body for the argument expressions, at every nesting, repeatedly until none is left, in the order of the text; evaluation of the expanded program equals evaluation of the program written out. The shown expansion is the code that is executed, and code without macros is shown unchanged.",
     ["programs"], "all definitions and uses of compile time macros, nested and in combination with run time macros, over several evaluations",
     "Tests contain about ten fixed expansions.", "I E L", [{"name": "macro expansion pass", "where": F["I"]}])

prop("P38", "Mathematical functions give the IEEE results for all numbers",
     "The mathematical functions accept integers and floating point numbers and give the results of the standard library functions of the same name for all arguments, including limits, infinities, not-a-number and negative zero, with the documented rounding of Math-Round, Math-Floor, Math-Ceiling and Math-Truncate. They reject values that are no numbers.",
     ["inputs"], "all numbers of both kinds for all mathematical functions, and all other kinds of values",
     "Tests evaluate one value per function.", "E V", [{"name": "mathematical builtins", "where": F["E"]}])

prop("P39", "Input is read line by line, completely and in order",
     "Each read gives the next line of the input without its line end, in order and without loss or repetition, for lines of any length and content including empty ones; after the end of the input the empty text is returned. Reading is unaffected by output, errors and evaluations in between.",
     ["inputs", "histories"], "all inputs and all sequences of reads over several evaluations",
     "Tests read at most two lines.", "t E", [{"name": "input stream", "where": F["t"]}])

prop("P40", "The interactive prompt evaluates lines in the current frame and survives errors",
     "At the prompt of the debugger each command line is executed exactly once and in order; expressions are evaluated in the frame where the program stands, see and change its variables, their values are shown, and their errors are reported and leave the session usable. Leaving the prompt continues the program as if it had not been stopped, apart from the changes made.",
     ["histories"], "all sequences of expressions and commands, correct and failing, at any stop of any program",
     "Tests type about thirty lines.", "D E", [{"name": "interactive loop", "where": F["D"]}],
     technique="monitor: model of the prompt dialogue as oracle over the recorded session")

prop("P41", "The trace buffer holds exactly what was printed while tracing was on",
     "While tracing of output is switched on, every printed text is appended to the trace buffer in order and exactly once; while it is off nothing is added, and switching, reading and failing do not lose or change what it holds.",
     ["histories"], "all histories of switching, printing, reading and failing over several evaluations",
     "Tests contain two fixed traces.", "E S", [{"name": "trace buffer", "where": F["E"]}])

prop("P42", "Clock, waiting and questions about the host give the actual values",
     "The date and time is the host's local time at one instant within the call, in every time zone and across all borders of the calendar; the tick counter counts exactly the milliseconds which pass, also where it wraps; waiting takes the time asked for and no time for zero or negative amounts; the measured execution time of a run is the time it took. What the program tells about its version, date and platform is the same at all places and true.",
     ["inputs", "histories", "fault_sequences"], "all instants, time zones, movements of the clock between two readings, and histories of waits and readings",
     "Tests run at whatever time it is, and only look at the form of the answers.", "E F L", [{"name": "clock and host builtins", "where": F["E"]}],
     technique="fault injection: interposed clock and waits (recorded), oracle over the recorded readings")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"] or ["values, output and errors of evaluations through the public interface"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        f = "checks/%s.py" % p["id"].lower()
        if os.path.exists(os.path.join(ROOT, f)):
            checks.append({"property": p["id"], "quick_cmd": "python3 %s --tier quick" % f, "thorough_cmd": "python3 %s --tier thorough" % f, "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 lib/build.py asan tsan cli", "checks": checks, "not_applicable": na,
         "notes": "every check rebuilds the driver from /repo's working tree (keyed by content); known findings and repairs are listed in known_findings.txt; no hooks in /repo are needed"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
