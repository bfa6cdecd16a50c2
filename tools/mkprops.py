import json,subprocess
def w(f,pat):
    for i,l in enumerate(open('/repo/'+f),1):
        if pat in l: return f"{f}:{i}"
    raise SystemExit((f,pat))
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w(f,q)} for n,f,q in mech],"observe_at":obs or [w("pip.py","def pip(")],"hook_needed":None}})
T="The only tests cover a handful of values of the Scalar and List classes; none runs a Pip program. "
p("C01","Source text is split into exactly the tokens the language defines",
"Any program text is split into the tokens the language defines, taking the longest match at each point: operators, commands, one-letter and $-names, numbers, the five kinds of literal, and runs of capital letters cut into two-letter names from the end. Comments and extra whitespace between tokens never change a program's output, its errors or its return value, and every literal denotes exactly its text with its escapes and interpolations applied. An unterminated literal is an error and never a silently different program.",
["inputs","programs"],"every program text, including arbitrary soups of literals, quotes, escapes, comments, capitals, names and non-ASCII characters, and every placing of whitespace and comments between its tokens",
T+"The number of texts is unbounded, and the tokens' interactions (escapes before quotes, comments against strings, capital runs) are what breaks.",
["scanning.py","tokens.py"],[("token regexes and longest match","scanning.py","def tokenize"),("splitting of capital runs and token classes","scanning.py","def newToken"),("literal values","execution.py","def evaluate")])
p("C02","Operators group by the published precedence, associativity and arity",
"An expression groups exactly as the operator table says: higher precedence binds tighter, operators of one level associate in their level's direction, comparisons chain pairwise, and prefix, infix and three-operand forms, with their fold, scan, map and assign modifiers, take the operands the table gives them. Writing the implied parentheses explicitly therefore never changes the outcome. Where an operator has both a prefix and an infix form, its position decides which is meant.",
["programs"],"every expression built from any mix of the language's operators, modifiers and operands, at any depth",
T+"No test parses anything, and with hundreds of operators in 46 levels the pairs and triples of neighbours are far too many to list.",
["parsing.py","operators.py"],[("precedence climbing","parsing.py","def parseExpr"),("chains, bubbling of unary and assignment","parsing.py","def bubble"),("operands and meta-operators","parsing.py","def parseOperand"),("the table","operators.py","opsByArity = ")])
p("C03","The source text of a function is an equivalent function",
"The text shown for any function, whether written as a block, as an expression around a placeholder or built by applying operators to functions, is valid source. Evaluating it gives a function with an equivalent text that returns the same value, prints the same output and has the same effects for the same arguments.",
["programs","inputs"],"every function that can be written or built by operators, over all statements, operators with modifiers, embedded values and literals, and every argument list",
T+"Whether a text re-parses to the same tree depends on every pair of neighbouring tokens and on every value that can be embedded.",
["parsing.py","ptypes.py","operators.py"],[("unparser","parsing.py","def unparse("),("expression unparser","parsing.py","def unparseExpr"),("Block text","ptypes.py","class Block"),("operator text","operators.py","def __str__")])
p("C04","The notation of a value evaluates to an equal value",
"For every value other than a function, the notation given by RP (also used by the -p formats) is source text that evaluates to a value of the same type that is equal to the original and has the same notation, at any depth of nesting. This holds for all texts, including quotes, backslashes, newlines and texts that look like numbers, for Ranges with and without bounds, for nil, and for every Pattern that a literal can express, with its flags.",
["inputs"],"every value built from Scalars, Patterns, Ranges, nil and Lists, and every value an expression returns",
T+"The interesting texts (quote, backslash and numeral look-alikes) combine without bound.",
["ptypes.py"],[("Scalar notation","ptypes.py","class Scalar"),("Pattern notation","ptypes.py","class Pattern"),("Range notation","ptypes.py","class Range"),("REPR operator","execution.py","def REPR")])
p("C05","Incomplete, invalid and runnable code are told apart",
"Code is exactly one of: runnable; incomplete, when some continuation is needed to close a literal, block, list, expression or command; or invalid. A program that is not runnable is rejected with a fatal error before any of it executes and produces no output of its own; at the interactive prompt, incomplete input is continued with further lines and behaves exactly as if entered at once, and invalid input is reported, has no effect, and leaves the session usable. Code nested too deeply is rejected the same way rather than crashing the interpreter.",
["programs","histories"],"every program text, every proper prefix of a program by tokens, every split of an input into lines, and every nesting depth",
T+"No test scans or parses text; the classification has to be right for every prefix of every construct.",
["scanning.py","parsing.py","pip.py","errors.py"],[("incomplete literals","scanning.py","def tokenize"),("statements and blocks","parsing.py","def parseStatement"),("prompt continuation","pip.py","except IncompleteSyntax"),("error classes","errors.py","class ")])
p("C06","A REPL session keeps its state across inputs, errors and commands",
"In an interactive session each input runs in the state left by the previous ones: variables, history, the regex-match variables and the random seed persist, and each result is shown as its notation and becomes the latest history value. The session's commands only do what the help says: turn warnings on or off, show help, quit. A syntax error, fatal error or interrupt leaves the global scope active and all earlier values as they were apart from effects already performed.",
["histories"],"every sequence of inputs, commands, multi-line inputs and errors raised anywhere inside nested calls",
T+"No test starts a session, and state damage shows only in later inputs.",
["pip.py","execution.py"],[("the loop and its commands","pip.py","def repl"),("scope stack","execution.py","def closeScope"),("history","execution.py","def updateHistoryVars")],[w("pip.py","def repl")])
p("C07","Changing one variable never changes another value",
"Values behave as independent copies: after any assignment, argument passing, storing in or taking from a List, loop or function return, changing a variable in place (through indexing, slicing, push, pop, swap, in-place operators or regex replacement) changes that variable only. Constants, literals in loops and functions, arguments of the caller, and operands of operators that only read are never changed.",
["histories","programs"],"every history of assignments, calls, loops and in-place changes over aliases of shared values, nested to any depth",
T+"Aliasing shows only in histories of several operations on shared structure.",
["execution.py","ptypes.py"],[("assignment copies","execution.py","def assign"),("values of variables","execution.py","def getRval"),("List slices as views","ptypes.py","class List"),("arguments","execution.py","def functionCall")])
p("C08","Local names belong to one call; other names are global",
"Each function call has its own set of the local names, with the arguments in a to e, the whole argument list in g, the function itself in f and fresh initial values for the rest; they are gone when the call ends, however it ends, and the caller's are intact. All other names are shared by the whole program. This holds for recursion, for functions called by operators, for functions returned or stored and called elsewhere, and for evaluated code.",
["programs","histories"],"every nesting of calls, recursive and mutual, through every way of calling a function, with every mix of local and global assignments",
T+"Scope errors need nested calls with assignments on both sides to show.",
["execution.py"],[("calls","execution.py","def functionCall"),("scopes","execution.py","class LocalScope"),("name lookup","execution.py","def varTable")])
p("C09","Operands are evaluated once, left to right, and only when needed",
"Operands, list items, arguments and the parts of statements are evaluated in their written order, each exactly once, except that the short-circuiting operators, the conditional and comparison chains evaluate only the operands that decide the result. Operators that map, fold or filter call their function once per item, in order. Output, input lines, random draws and assignments made while evaluating therefore happen in that order.",
["programs"],"every expression and statement whose parts have observable effects, for every operator and command",
T+"Order and multiplicity of evaluation can be seen only with operands that have effects, which no test uses.",
["execution.py"],[("operand evaluation","execution.py","def evaluate"),("conditional operators","execution.py","def IFTE"),("and/or","execution.py","def AND("),("loops","execution.py","def FOR(")])
p("C10","Conditionals and loops run exactly the branches they should",
"If, else-if and else run exactly the branch of the first true condition; while, until, for-each, repeat and regex loops run their bodies exactly as often as their condition or iterated value says, with the loop variables, including destructured ones, holding each item in order. The iterated value and the count are fixed when the loop starts. The value and variables left afterwards are those of the iterations performed.",
["programs"],"every nesting of the statements with every type of condition and iterated value, including empty ones and bodies that change what is iterated",
T+"No test executes a statement; counts and nesting combine without bound.",
["execution.py","parsing.py"],[("if","execution.py","def IF("),("while","execution.py","def WHILE"),("for","execution.py","def FOR("),("repeat","execution.py","def LOOP("),("commands' syntax","operators.py","commands")])
p("C11","Arithmetic is exact on integers and follows the documented rules elsewhere",
"Integer arithmetic (sum, difference, product, integer division, remainder, power, square, halving, rounding to multiples, base conversion, bitwise and sign operators) is exact at any size, with floor division and remainders consistent with it. Fractions follow double arithmetic, whole results print without a fraction, non-numeric text counts as its leading number or 0, and undefined results such as division by zero are nil with a warning. The usual laws (commutativity, a = (a // b) * b + a % b, base conversion round trips) hold for every operand.",
["inputs"],"every pair of numbers of any size and sign, fraction, numeral with odd formatting, non-numeric text and nil, for each numeric operator",
T+"Size, sign and format of two or three operands multiply; exactness fails only for large ones.",
["execution.py","ptypes.py"],[("number conversion","ptypes.py","def toNumber"),("division","execution.py","def INTDIV"),("base conversion","execution.py","def TOBASE"),("power","execution.py","def POW"),("halving","execution.py","def HALVE")])
p("C12","Comparison is a consistent total order and truth is the same everywhere",
"Numeric, string and exact comparison each order the values they accept: the six numeric and six string comparisons agree with each other as a total order, the negative operators are the opposites of the positive ones, exact equality is an equivalence, and chained comparisons mean the conjunction of their neighbours. The sorting operators agree with that order. Conditionals, loops, logical operators, filters, and negation all agree on which values are true.",
["inputs","programs"],"every pair and triple of values of all types, and every construct that tests a value",
T+"The order laws quantify over pairs and triples of values of every type.",
["execution.py","ptypes.py"],[("numeric comparison","execution.py","def NUMLESS"),("string comparison","execution.py","def STRLESS"),("exact equality","execution.py","def OBJEQUAL"),("truth of Scalars","ptypes.py","def __bool__")])
p("C13","String and pattern operators give what their description says",
"Joining, splitting, padding, trimming, stripping, case changes, repetition, transliteration, character codes, counting, finding and replacing give exactly the documented text for every text, position and count. Pattern operators (match, split, replace, strip, count, find, regex map and loops) work on all matches from left to right with the Pattern's flags, and set the match variables to the last match, its groups, and the text around it. Unmatched groups are nil.",
["inputs"],"every text, including empty, non-ASCII and overlapping ones, every count or position including negative and out of range, and every Pattern with flags and groups",
T+"Boundary positions, overlapping matches, groups and flags combine without bound.",
["execution.py","ptypes.py"],[("replacement","execution.py","def REPLACE"),("split","execution.py","def SPLIT"),("strip","execution.py","def STRIP"),("match variables","execution.py","def assignRegexVars"),("Pattern","ptypes.py","class Pattern")])
p("C14","Sequence operators conserve and place items as described",
"Concatenating, repeating, chopping, grouping, windowing, reversing, sorting, deduplicating, flattening, transposing, zipping, rotating, product, permutation, combination, partition and insertion operators give exactly the documented items in the documented order, for every length including empty, nested and ragged. What only rearranges conserves all items with multiplicity, and inverse operators undo each other. Push, pop, dequeue and pick change exactly the named end or position and return the item.",
["inputs"],"every sequence (text, List or Range) of every length, nesting and raggedness, with every count including zero, negative and past the end",
T+"Lengths, counts and raggedness at the boundaries multiply, and no operator is tested.",
["execution.py","ptypes.py"],[("grouping","execution.py","def GROUP"),("sorting","execution.py","def SORTNUM"),("transposing","execution.py","def ZIP"),("push and pop","execution.py","def POP"),("List","ptypes.py","class List")])
p("C15","Operators that work item by item agree with themselves on each item",
"An operator defined item by item gives, for a List, the List of what it gives for each item, at any nesting depth; with two Lists it pairs items and keeps the rest of the longer one, and with a List and a single value it pairs each item with the value. A finite Range behaves as the List of its items.",
["inputs"],"every item-wise operator with every combination of single values, flat, nested and ragged Lists and Ranges of unequal lengths",
T+"The claim relates two executions for all operands; tests only compare fixed values.",
["execution.py"],[("item-wise dispatch","execution.py","def evaluate"),("operator flags","operators.py","flags")])
p("C16","Fold, scan, map and assign modifiers mean their explicit expansions",
"Folding an operator over a sequence equals nesting it between the items with the operator's own associativity, with its documented default for an empty sequence; scanning gives the values of the successive folds; mapping a prefix operator equals applying it to every item; and an assign form stores what the plain form returns and gives that value. This holds for every operator the modifier accepts and every sequence, and other operands are reported rather than guessed.",
["inputs","programs"],"every operator that takes a modifier, combinations of modifiers, and every sequence including empty, one-item and nested ones",
T+"The operator, the modifier and the operand vary independently.",
["execution.py","parsing.py","operators.py"],[("fold","execution.py","def FOLDMETA"),("map modifier","execution.py","def MAPMETA"),("defaults","operators.py","default")])
p("C17","Operators that take functions apply them to the right items",
"Map, filter, fold, sort-by, group-by, iterate, regex-map, enumerate, pairwise and coordinate maps, function repetition and call operators pass their function exactly the documented arguments in order, collect results in order, and accept the function on either side where documented. They agree with the explicit loop: filter keeps exactly the items for which the function is true, sorting by a key is stable, and mapping keeps the number of items.",
["inputs","programs"],"every function-taking operator, with functions of every kind including ones with effects, and every type and shape of operand",
T+"No test calls a function.",
["execution.py"],[("map","execution.py","def MAP("),("filter","execution.py","def FILTER"),("fold","execution.py","def FOLDFUNC") if any("def FOLDFUNC" in l for l in open('/repo/execution.py')) else ("fold","execution.py","def FOLDMETA"),("sort by key","execution.py","def SORTKEYED") if any("def SORTKEYED" in l for l in open('/repo/execution.py')) else ("key sort","execution.py","def pyKey")])
p("C18","Functions built by operators equal applying the operator to their results",
"Applying an operator to functions builds a function whose result for any arguments equals applying the operator to what the functions return for those arguments, with the same effects; placeholders, nested compositions, modifiers and mixed function and value operands included. Two functions are equal exactly when their code is the same.",
["programs","inputs"],"every operator, position of the function among its operands, nesting of built functions, and argument list",
T+"Nothing tests functions; the identity relates two programs for all operators and arguments.",
["execution.py","ptypes.py","parsing.py"],[("building","execution.py","def evaluate"),("function value","ptypes.py","class Block"),("operator identity","operators.py","def __eq__")])
p("C19","Indexing reads and writes exactly the addressed items",
"Indices count from 0, negative ones from the end, and wrap around cyclically when reading; a List as index selects several items, and a Range or slice operator selects the slice its bounds say. Assigning to a place given by indices, slices or slice operators, nested to any depth, changes exactly the addressed items and leaves everything else and every other variable as it was, and reading an indexed place afterwards gives what was assigned. What cannot be assigned to is reported and changes nothing.",
["inputs","histories"],"every List, text and Range, every index, slice and path of nested indices, including negative, out of range, empty and repeated ones, for reading, assigning, and in-place operators",
T+"Two tests cover a few fixed slices of the List class, none a place in a program.",
["execution.py","ptypes.py"],[("index operator","execution.py","def AT("),("places","execution.py","class Lval"),("assignment through places","execution.py","def assign"),("slices","ptypes.py","class List")])
p("C20","Destructuring and swapping assign all their targets consistently",
"Assigning to a list of places gives each place the corresponding item of the value, nil where there is none and ignoring extra items, at any nesting. All right-hand values are determined before the first place changes, and the places are then assigned from left to right. A swap exchanges exactly the values of two places and changes nothing else.",
["inputs","histories"],"every nested pattern of places, repeated and overlapping ones included, every value, and swaps and in-place operators over them",
T+"Overlapping places and length mismatches are never exercised.",
["execution.py"],[("assignment","execution.py","def assign"),("swap","execution.py","def SWAP"),("loop destructuring","execution.py","def FOR(")])
p("C21","Output formats print values exactly as the flags describe",
"Printing, output without newline and the automatic printing of a program's last value write each value exactly as the chosen list format says: joined, by lines, by spaces, by lines of joined or spaced items, or as notation, at any nesting depth, with Ranges as their items and nil as nothing. The same format is used in every place where output is produced or a List is made into text, and nothing else about a program depends on it.",
["inputs","configurations"],"every value of every nesting under each list format, through each way of producing output",
T+"No test prints anything.",
["pip.py","execution.py","ptypes.py"],[("formats","ptypes.py","class List"),("print","execution.py","def PRINT"),("final value","execution.py","def executeProgram"),("options","pip.py","add_argument")])
p("C22","Command line, input and argument handling follow their documentation",
"The code comes from the command line, a file, standard input or the prompt as the options say, and the same code with the same arguments behaves the same whichever way it comes. Program arguments reach the program unchanged as text, or evaluated when asked, in the argument variables in order; input lines are read one at a time in order when the program asks for them, and end of input gives nil. Options combine as documented, and a bad option, missing file or bad argument is reported without running anything.",
["configurations","inputs"],"every combination and order of options, quoting of an argument line, source of code, arguments and input lines including missing and empty ones, from the shell, from the prompt and when called from another program",
T+"The entry points are not tested at all.",
["pip.py","execution.py"],[("options","pip.py","add_argument"),("argument line","pip.py","argv_string"),("argument evaluation","pip.py","options.exec_args"),("input lines","execution.py","def getq")],[w("pip.py","def main"),w("pip.py","def pip(")])
p("C23","A run depends only on its program, arguments, input and seed",
"The same program with the same arguments, input lines, options and random seed produces the same output, warnings and errors every time. Earlier runs in the same process, whether they ended normally or in an error, other processes, hash seeds and the way of starting the interpreter make no difference.",
["histories","configurations"],"every sequence of runs in one process, including failing ones, and every process environment's hash seed",
T+"Each test makes one call on fresh objects; leaks between runs need histories.",
["pip.py","execution.py","operators.py"],[("state creation","execution.py","def __init__"),("shared operator objects","operators.py","opsByArity = "),("shared constants","ptypes.py","nil =")])
p("C24","Warnings only add diagnostics and never change a result",
"Turning warnings on changes neither what a program computes, prints, reads nor returns, nor whether it fails: it only adds diagnostics on the error stream, and none are written when they are off. An operator given operands it does not support, an undefined result or an impossible conversion yields its documented substitute value together with a warning, and the program goes on.",
["programs","configurations"],"every program, with operands of every unsupported type combination for every operator, with and without warnings",
T+"The warning branches are the error paths of hundreds of operators, which nothing runs.",
["errors.py","execution.py"],[("warnings","errors.py","def warn"),("unsupported operands","execution.py","Unimplemented argtypes")])
p("C25","Every program ends in a result, a warning or a Pip fatal error",
"No program, however hostile (wrong types, huge numbers, deep recursion, invalid patterns, changed built-in variables), makes the interpreter fail with an internal error: it ends normally or with a fatal error that is reported on the error stream. Output produced before a fatal error is kept complete and in order, nothing is executed after it, and a later run or the session is unaffected.",
["programs","inputs"],"every program over all operators and types, including runaway recursion and errors raised inside nested calls",
T+"Robustness is a claim about all programs; tests run none.",
["errors.py","execution.py","pip.py"],[("fatal errors","errors.py","def die"),("containment","execution.py","def executeProgram"),("reporting","pip.py","except FatalError")])
p("C26","A Range behaves as the sequence of integers it denotes, even if infinite",
"A finite Range gives the same result as the List of its items wherever sequences are accepted, and a Range with no upper bound gives correct first items, index, slice, membership and arithmetic results without running forever. Range operators (construction, inclusive form, shifting, length, minimum and maximum, reversal, membership) agree with the integers between the bounds, for missing, negative and reversed bounds.",
["inputs"],"every pair of bounds, missing ones included, every operator that accepts a sequence, and every other operand",
T+"No test constructs a Range.",
["ptypes.py","execution.py"],[("Range","ptypes.py","class Range"),("construction","execution.py","def RANGE("),("inclusive","execution.py","def INCLRANGE(")])
p("C27","Random operators draw valid, reproducible and reachable outcomes",
"Every random draw lies in the documented set: integers in the half-open interval, items of the sequence chosen from, and shuffles that are rearrangements. Every outcome of the set can occur, with equal chances for uniform choices. Setting the seed makes all following draws a function of the seed, equal seeds give equal sequences, and having nothing to choose from is an error, never an outcome outside the set.",
["inputs","histories"],"every size, bound, sequence and seed, and every interleaving of draws and seed settings",
T+"Nothing tests randomness; reachability and reproducibility concern sets of runs.",
["execution.py"],[("random integers","execution.py","def RANDRANGETO"),("random choice","execution.py","def RANDCHOICE") ,("seed variable","execution.py","def setr")])
p("C28","The value types keep their laws: equality, hashing, order, views",
"For the value classes used from Python: equality is an equivalence that agrees with hashing and with copying, a copy or slice is independent of its origin, length, iteration, indexing, slicing, containment and counting agree with each other, and a List under any history of assignments, deletions, insertions and appends holds what the same history leaves in an ordinary list. Conversion from and to native values preserves them.",
["inputs","histories"],"every value of every type, every pair of values, every index and slice, and every history of mutations over a pool of related Lists",
T+"The 15 tests check fixed examples of indexing and constructors; the laws relate pairs of values and histories.",
["ptypes.py"],[("List","ptypes.py","class List"),("Range","ptypes.py","class Range"),("Scalar","ptypes.py","class Scalar"),("conversion","ptypes.py","def toPipType")],[w("ptypes.py","class List")])
p("C29","Whole programs do what the language definition says",
"For any program the observable behaviour - standard output, the class of its warnings and errors, and its final value - is what composing the meanings of its statements, operators, literals and scopes gives, with features of every part interacting freely.",
["programs","inputs"],"every program mixing all statements, operators, types, functions, loops, patterns and input, and every argument list",
T+"Interactions between features are out of reach of examples.",
["execution.py","parsing.py","scanning.py","operators.py","ptypes.py"],[("execution","execution.py","def executeStatement"),("evaluation","execution.py","def evaluate"),("parsing","parsing.py","def parse(")])
p("C30","Interrupts and failing input or output never corrupt a run or session",
"An interrupt, memory failure or input error at any point of a program or session ends the current code with the documented message, keeps the output already produced, and never runs the rest. In a session the prompt returns, the global scope is active, and every variable holds the value from before or after the interrupted operation, never a partial one. A program that is interrupted ends without a stack trace.",
["fault_sequences","crash_points","histories"],"every fault (interrupt, memory error, input error, end of input, failing write) at every input or output operation of programs and sessions, and signals at arbitrary moments",
T+"No test injects a fault.",
["pip.py","execution.py"],[("interrupts in the session","pip.py","KeyboardInterrupt"),("input","execution.py","def getq"),("program interrupts","pip.py","def main")],[w("pip.py","def repl")])

p("C31","Predefined variables start at their documented values; names work alike",
"At the start of every program, session and, after the wipe-globals command, at that point, each predefined variable holds its documented value, the argument and main-function variables hold the arguments and the main function, and every other name is nil. Apart from these values all ordinary global names work alike: renaming the variables of a program consistently never changes what it does. Changing one variable leaves every other at its value.",
["programs","histories","inputs"],"every name, every change made before wiping, every argument list, every place the wipe can stand, and every renaming of a program's variables",
T+"Over forty predefined names, and all others, have to be right at every start and after every history.",
["execution.py","tokens.py","scanning.py"],[("initial values","execution.py","def WIPEGLOBALS"),("variable tables","execution.py","def varTable"),("names","tokens.py","class Name")])
p("C32","Numbers and texts convert into each other by one rule everywhere",
"A text used as a number counts as the number it starts with, after leading whitespace, and as 0 if there is none; where a whole number is needed the whole number it starts with is taken. A computed number becomes its shortest exact decimal text, without a fraction when whole, and with all its digits however large. Every operator, command and place uses the same rule, so a text, wherever it comes from, and the number it denotes compute the same, and using the text itself keeps every character of it.",
["inputs","programs"],"every text and number, from literals, arguments, input, Lists and operators, in every operator and command that takes a number or a text",
T+"The tests convert a few values; the rule has to hold at every use of every operator.",
["ptypes.py","execution.py"],[("number of a text","ptypes.py","def toNumber"),("whole number of a text","ptypes.py","def __int__"),("text of a number","ptypes.py","class Scalar")])
p("C33","Evaluating a text as code acts like the code itself at that point",
"Evaluating a text runs exactly the program it spells, in the current scope, and gives the value of its last expression; with an argument list it runs as a function called with those arguments; evaluating a function without arguments runs its body in the current scope. It makes no difference where the text came from. A text that is not valid code is a fatal error at that point: what ran before stays, nothing of the text is executed, and a session goes on with its global scope.",
["programs","inputs","histories"],"every text, runnable or not, from literals, arguments, input or computation, evaluated at any point of programs, functions, loops, other evaluated code and sessions",
T+"No test evaluates code, and the result depends on the scope at every point where it can happen.",
["execution.py","scanning.py","parsing.py"],[("evaluation","execution.py","def EVAL"),("function body","execution.py","def BLOCK"),("scope of a call","execution.py","def functionCall")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
