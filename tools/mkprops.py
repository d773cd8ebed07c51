#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S='cordy-sys/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=('program output','runtime error text'),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":[f if f.startswith('cordy') else S+f for f in files],
        "state":[{"name":a,"meaning":b,"where":S+c} for a,b,c in state],
        "mechanism":[{"name":a,"where":(b if b.startswith('cordy') else S+b)} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","Programs execute exactly as the language reference describes",
 "For every program, running it prints exactly the output, and ends with exactly the error or normal exit, that a direct reading of its source gives: operands are evaluated left to right and exactly once, `and`/`or`/ternary `if`/chained comparisons short-circuit, and `if`/`while`/`do-while`/`loop`/`for` with `break`, `continue`, `else` and `return` transfer control as documented. No statement or expression, in any nesting, disturbs the value of another variable or temporary.",
 ["programs"],"all well-formed programs over the expression and control-flow constructs, in any nesting",
 "The tests run a few hundred fixed snippets, each exercising one construct; interactions (a loop inside an expression-bodied function after a discarded value, `continue` out of nested blocks, an `else` on a loop in a `do`) are unbounded and each has its own code-generation path.",
 ["compiler/parser/mod.rs","compiler/parser/codegen.rs","compiler/parser/core/graph.rs","compiler/parser/core/mod.rs","compiler/parser/expr/mod.rs","vm/mod.rs"],
 [("single-pass parser emitting basic blocks","compiler/parser/mod.rs"),("basic block graph linearisation and jump resolution","compiler/parser/core/graph.rs"),("bytecode interpreter loop","vm/mod.rs")],
 [("operand stack","locals and temporaries share one stack, balanced on every path","vm/mod.rs")],hook="fuel counter in the interpreter loop, so that a diverging program is a deterministic outcome")
p("C02","Lexical scoping and closures: every name denotes the right variable",
 "In every program, a name denotes the innermost visible declaration at its point of use, shadowing and leaving a scope never changes an outer variable, and a function that captures variables shares them (reads and writes) with the enclosing code and with every other closure over the same variable, for as long as any of them lives. A variable declared in a loop body or loop header is a fresh variable in each iteration.",
 ["programs"],"all programs of nested scopes, loops and functions that declare, shadow, capture, mutate and let escape variables",
 "Tests contain about thirty hand-written closure programs; nesting depth, number of captured variables, capture through several function levels and escape order combine without bound.",
 ["compiler/parser/semantic.rs","compiler/parser/mod.rs","vm/mod.rs","vm/value/func.rs"],
 [("local/upvalue/global resolution","compiler/parser/semantic.rs"),("open and closed upvalues","vm/mod.rs")],
 [("open_upvalues","stack slots still shared with closures","vm/mod.rs")],hook="fuel counter")
p("C03","Function calls bind arguments as documented, in every call style",
 "For every function (user-defined with required, optional, default and variadic parameters; operator sections; native functions; partial applications and compositions of these) and every argument list, including `...` unrolled ones, the call binds each parameter as documented, yields a partial function exactly when too few arguments were given, and fails with an incorrect-argument-count error otherwise. The three call styles `f(x)`, `f x` and `x . f` are equivalent, supplying arguments one at a time or all at once gives the same result, and decorators apply innermost first.",
 ["programs","inputs"],"all signatures, argument counts, splits of the arguments over successive partial calls, unroll positions and call styles",
 "Tests use a fixed list of signatures; the product of signature x argument count x partial split x unroll placement x call style is not covered and each native function has its own arity handling.",
 ["vm/mod.rs","vm/value/func.rs","core/mod.rs","compiler/parser/mod.rs"],
 [("argument count checks, default-argument jump offsets","vm/value/func.rs"),("call, partial and unroll dispatch","vm/mod.rs"),("native function argument dispatch and partials","core/mod.rs")],hook="fuel counter")
p("C04","Assignment and pattern destructuring store the right values in the right places",
 "Every assignment form (simple, chained, operator-assignment, index, field, and nested pattern with `_` and `*rest`, in `let`, `for`, parameters and assignment expressions) stores each component into exactly its target, evaluates target sub-expressions once, and evaluates to the assigned value. A destructured value of a wrong length is rejected with an error.",
 ["programs","inputs"],"all pattern shapes, target kinds (local, captured, global, element, field) and source values",
 "Tests cover a few dozen fixed patterns; nested patterns with starred terms over mixed target kinds, and aliasing between targets and sources, are unbounded.",
 ["core/pattern.rs","compiler/parser/mod.rs","compiler/parser/expr/mod.rs","vm/mod.rs"],
 [("pattern destructuring","core/pattern.rs"),("pattern and assignment parsing","compiler/parser/mod.rs")],hook="fuel counter")
p("C05","Structs, modules and late-bound names resolve consistently",
 "Struct construction, field reads and writes, methods, `self` methods (with and without `self->`), modules and nested declarations resolve to the member named, on instances of the right type only, and any access to an absent field is an error. Reordering the top-level function, struct and module declarations of a program that runs does not change its behaviour, since names may be used inside functions before their declaration.",
 ["programs"],"all programs with several structs and modules with overlapping field and method names, and all orders of their declarations",
 "Tests declare one or two structs per program in one order; overlapping member names, several declarations referring to each other and forward references from several sites need generated programs.",
 ["compiler/parser/semantic.rs","compiler/parser/mod.rs","vm/value/mod.rs","vm/mod.rs","compiler/parser/core/mod.rs"],
 [("late bindings and field offset table","compiler/parser/semantic.rs"),("field lookup","vm/value/mod.rs")],hook="fuel counter")
p("C06","Optimisation never changes what a program does",
 "For every program that compiles without optimisation, compiling it with optimisation enabled and running it gives the same output, the same final result and the same error (or absence of one). Optimisation never reorders, drops or duplicates an observable effect, and never makes the compiler reject a program, except that an operation on constants which is certain to fail may be reported when compiling.",
 ["programs","configurations"],"all programs, with optimisation off and on",
 "Tests compare the two modes on fixed programs; folding and inlining rules fire on combinations of constants, operators, partial calls and compositions that have to be generated.",
 ["compiler/parser/expr/optimizer.rs","compiler/parser/core/optimizer.rs","compiler/parser/core/graph.rs","compiler/parser/expr/mod.rs"],
 [("expression tree rewriting with purity levels","compiler/parser/expr/optimizer.rs"),("block peephole optimisation","compiler/parser/core/optimizer.rs")],hook="fuel counter")
p("C07","The compiler accepts or cleanly rejects every source text",
 "For every input text, compilation terminates and yields either a program or a non-empty list of errors, each of which names a line that exists in the source; it never crashes, and it is deterministic. A program that compiles can be disassembled and run without an internal failure.",
 ["inputs"],"all Unicode texts, including token soups, truncated and mutated programs and non-ASCII text",
 "Tests feed a fixed list of malformed programs; error recovery and reporting have to handle every possible text.",
 ["compiler/scanner.rs","compiler/parser/mod.rs","compiler/parser/errors.rs","compiler/mod.rs","reporting.rs"],
 [("error accumulation and recovery by keyword synchronisation","compiler/parser/mod.rs"),("source view and error rendering","reporting.rs")],observe=("compiler result","error text"),hook="fuel counter in scanner and parser look-ahead, so that a hang is a deterministic outcome")
p("C08","Every operation on every value returns or raises a Cordy error",
 "Applying any operator, index, slice, field access or library function to any number of arguments of any types (empty, huge, negative, non-ASCII, nested, shared, lazy or function values) yields a value or a reported runtime error. The interpreter itself never crashes, never fails an internal check and never loops forever on a finite operation. Operations whose result does not fit in memory are excepted.",
 ["inputs","histories"],"all operations of the language and library applied to all values the language can build",
 "Tests call each function on a few well-typed arguments; the cross product of about 100 operations with boundary values of every type is out of reach for hand-written cases.",
 ["core/mod.rs","core/collections.rs","core/math.rs","core/strings.rs","vm/operator.rs","vm/value/mod.rs","vm/value/slice.rs","vm/value/str.rs","vm/value/number.rs"],
 [("native dispatch with type checks","core/mod.rs"),("operator dispatch by type pair","vm/operator.rs")],observe=("exit kind",),hook="fuel counter in iteration")
p("C09","Expressions parse by the documented precedence and associativity",
 "Every expression text means the same as its fully parenthesised form under the documented operator table: all binary operators left-associative, assignment right-associative, unary operators, calls, indexing, field access, bare calls, composition, `is`/`in`/`not in`/`is not`, chained comparisons, ternary `if` and operator sections included. Adding redundant parentheses around a sub-expression never changes the result.",
 ["programs"],"all operator expressions, with any operators adjacent",
 "Tests check about a hundred fixed expressions; adjacency of 30 operators with prefix, postfix and section forms has thousands of pairs and triples.",
 ["compiler/parser/mod.rs","compiler/scanner.rs","compiler/parser/expr/mod.rs"],
 [("recursive descent by precedence level","compiler/parser/mod.rs")])
p("C10","Literals, comments and layout are read as written",
 "Every integer (decimal, `0x`, `0b`, with `_`), imaginary and string literal denotes exactly the value its text spells, up to the limits of its type, and an ill-formed or out-of-range literal is a compile error. Inserting or removing whitespace, newlines or comments between tokens where the grammar is not layout-sensitive never changes what a program does.",
 ["inputs","programs"],"all literals and all placements of blanks, line breaks, line and block comments between tokens",
 "Tests contain a handful of literals and comments; boundary values, escapes, comment delimiters (`/**/`, `/*/ */`, `/* **/`) and their placement need generation.",
 ["compiler/scanner.rs","compiler/parser/mod.rs"],
 [("scanner","compiler/scanner.rs")])
p("C11","Integer operators compute 63-bit two's complement results",
 "For all integers and booleans, `+ - *` and unary minus wrap modulo 2^63, `/` floors and `%` is non-negative for a positive modulus and satisfies a == (a / b) * b + a % b, `**`, shifts (negative shift counts reverse the direction), bitwise operators and `!` agree with exact integer arithmetic reduced to 63-bit two's complement, and division or modulo by zero is an error. Operator, operator-function, section and assignment-operator forms of one operator agree, and operands of unsupported types are a type error.",
 ["inputs"],"all pairs of operands, with emphasis on the boundary values of the 63-bit range",
 "Tests compute a few dozen small sums; wrap-around, floor rounding signs and shift extremes are boundary-value facts over 2^126 operand pairs.",
 ["vm/operator.rs","vm/value/number.rs","vm/value/ptr.rs","core/math.rs"],
 [("operator dispatch","vm/operator.rs"),("63-bit tagged integers","vm/value/ptr.rs")])
p("C12","Complex, rational and vector arithmetic obey the laws of their types",
 "Operations on complex integers and on rationals equal the exact mathematical result (rationals always in lowest terms with positive denominator and without any loss of precision; complex division rounding each component down), mixing them with integers and booleans first promotes the integer, and results that are real are equal to integers where documented. Operators on vectors act element by element, pairing with a scalar or another vector.",
 ["inputs"],"all operand pairs of the numeric types and nested vectors of them",
 "Tests contain a small number of literal examples per operator; algebraic exactness over arbitrary-size rationals and sign combinations of complex values needs generation against an independent bignum model.",
 ["vm/operator.rs","vm/value/number.rs","vm/value/mod.rs"],
 [("rational and complex implementations","vm/value/number.rs"),("vector broadcasting","vm/operator.rs")])
p("C13","Equality, ordering and hashing are coherent",
 "`==` is an equivalence relation independent of how and in which order a value was built (sets and dicts compare by content), `<` and the other comparisons form the documented total order on numbers and the lexicographic order on strings and same-type sequences, and `sort`, `min`, `max`, heaps and comparison operators all agree with it. Equal values are interchangeable as set elements and dict keys: any lookup with an equal key finds the entry.",
 ["inputs","histories"],"all pairs and triples of values, nested to any depth, and all construction orders",
 "Tests compare a few literal pairs; symmetry, transitivity and hash agreement quantify over all values, including mixed int/rational/bool/complex and nested sets.",
 ["vm/value/mod.rs","vm/value/ptr.rs","vm/value/collections.rs","vm/value/number.rs","core/collections.rs"],
 [("Eq, Ord and Hash of values","vm/value/ptr.rs")])
p("C14","Collections behave as their mathematical models under every history",
 "After any sequence of operations (push, pop, push_front, pop_front, insert, remove, clear, index assignment, union, intersect, difference, default, keys, values, membership, len, iteration), a list is the corresponding sequence, a set and a dict hold exactly the corresponding elements with unique keys in insertion order, and a heap yields its elements in ascending order. Every variable that refers to the collection sees the change, and an invalid operation raises an error and changes nothing.",
 ["histories"],"all operation sequences on aliased and nested collections",
 "Tests perform one to three operations on a fresh collection; order and uniqueness must survive arbitrary histories, including removal from the middle and re-insertion.",
 ["core/collections.rs","vm/value/collections.rs","vm/value/mod.rs","core/mod.rs"],
 [("collection operations","core/collections.rs")])
p("C15","Indexing and slicing work exactly as in Python",
 "For every list, vector and string and every integer index (negative counting from the end), indexing reads or writes the addressed element or raises an index error, and every slice `[start:stop:step]` with any combination of omitted, negative, out-of-range and reversed bounds selects the same elements as Python, with a zero step rejected. Strings are addressed by character, whatever their encoding.",
 ["inputs"],"all sequences (including non-ASCII strings) and all index and slice triples",
 "Tests use two fixed lists and a fixed set of slices; bounds clamping depends on the sign of the step, the length and all three bounds together.",
 ["vm/value/slice.rs","vm/value/mod.rs","core/collections.rs","vm/value/str.rs"],
 [("slice bound normalisation","vm/value/slice.rs"),("index normalisation","vm/value/mod.rs")])
p("C16","String and character functions treat strings as character sequences",
 "For every string, `len`, iteration, indexing, `+`, `*`, `in`, comparison, `reverse`, `to_upper`, `to_lower`, `trim`, `join`, `split` by nothing, `ord`, `char`, `hex` and `bin` give the result defined on its sequence of Unicode characters, and the pairs ord/char, hex/hex, bin/bin and split/join invert each other. Arguments outside a function's domain raise an error.",
 ["inputs"],"all strings over ASCII, multi-byte and special characters, and all integers",
 "Tests use short ASCII literals; byte/character confusion and radix boundary values appear only with generated text and numbers.",
 ["core/strings.rs","vm/value/str.rs","core/mod.rs"],
 [("string functions","core/strings.rs"),("string storage with ASCII/char variants","vm/value/str.rs")])
p("C17","String formatting and regular-expression functions are exact",
 "`format % args` renders each `%d`, `%x`, `%b`, `%s`, `%%` specifier, with optional zero flag and width (numbers non-negative for `%x` and `%b`), exactly as documented (Python-like), and raises an error when arguments are missing, left over or of the wrong type. `split`, `search` and `replace` report exactly the successive non-overlapping leftmost matches of the pattern, with groups, so that the pieces and matches always reassemble into the original string.",
 ["inputs"],"all format strings with argument vectors, and all subject strings against patterns with and without groups and empty matches",
 "Tests check about forty fixed strings; parsing of width/flags and the advance over empty or non-ASCII matches quantify over all text.",
 ["core/strings.rs"],
 [("format string parser","core/strings.rs"),("regex compilation and match iteration","core/strings.rs")])
p("C18","Library functions over iterables satisfy their definitions",
 "For every iterable (list, vector, set, dict, heap, string, range, enumerate) and every function argument, `map`, `filter`, `flat_map`, `concat`, `zip`, `reduce`, `sort`, `sort_by`, `min_by`, `max_by`, `group_by`, `reverse`, `permutations`, `combinations`, `any`, `all`, `find`, `rfind`, `index_of`, `rindex_of`, `counter`, `sum`, `min`, `max` and `enumerate` return what their documented definition gives, call the function on the elements in the documented order and number, and leave their input unchanged. Errors for empty or invalid input are raised as documented.",
 ["inputs"],"all iterables, all function arguments (user functions with visible effects, operators, partials, native functions) and both calling forms",
 "Tests apply each function to one or two lists; agreement over every iterable kind, with side-effecting callbacks and ties, needs a reference implementation and generated inputs.",
 ["core/collections.rs","core/mod.rs","vm/value/mod.rs"],
 [("iterable functions","core/collections.rs"),("iteration protocol","vm/value/mod.rs")])
p("C19","Lazy ranges and enumerations equal the lists they stand for",
 "For all start, stop and step, a `range` contains exactly the integers start, start+step, ... before stop, and its length, truthiness, membership, iteration forwards and backwards, equality with itself and every library function applied to it agree with the list of those integers; a zero step is an error. `enumerate(x)` likewise agrees with the list of (index, element) pairs of x.",
 ["inputs"],"all integer triples, positive and negative, dividing or not, near the integer limits, and all enumerated iterables",
 "Tests iterate about ten ranges; closed-form length, membership and reverse start depend on sign and divisibility of all three parameters.",
 ["vm/value/range.rs","vm/value/mod.rs","core/collections.rs"],
 [("range arithmetic","vm/value/range.rs"),("iteration protocol","vm/value/mod.rs")])
p("C20","Type tests and conversions form a consistent type system",
 "For every value x: `x is typeof(x)` holds, typeof(x) == typeof(y) exactly when x and y have the same type, `is` respects the documented subtype relations (bool < int < complex and rational, collections and str < iterable, everything is any) and `is not` is its negation, struct types distinguish their instances. `bool`, `int`, `rational`, `str`, `list`, `set`, `dict`, `heap`, `vector`, `real`, `imag`, `numer`, `denom` convert as documented, and `int`/`rational` of a text accept exactly the well-formed numerals, using the default or raising an error otherwise.",
 ["inputs"],"all pairs of values and types, and all numeral and non-numeral texts",
 "Tests check a table of a few values; the relation quantifies over all pairs of values and type tests, and parsing over all texts.",
 ["core/mod.rs","vm/value/mod.rs","core/math.rs"],
 [("type tests and typeof","core/mod.rs"),("conversions","core/mod.rs")])
p("C21","repr and eval are inverse, str and print agree",
 "For every value built from nil, booleans, integers, strings, complex integers and nested lists, vectors, sets and dicts, `eval(repr(x)) == x` with the same type, distinct values of a type have distinct representations, and `str`, `print`, string concatenation and `repr` render it identically apart from quotation of strings. Self-referential collections are rendered finitely.",
 ["inputs"],"all such values, with all characters in strings, to any nesting",
 "Tests print about fifty literals; escaping, one-element vectors, nested empties and extreme integers need generation.",
 ["vm/value/mod.rs","vm/value/str.rs","vm/value/number.rs","compiler/scanner.rs"],
 [("string and repr conversion","vm/value/mod.rs"),("string escape handling in the scanner","compiler/scanner.rs")])
p("C22","copy isolates, aliasing shares, memoize is transparent",
 "`copy(x)` (and list `**`) always equals x, has the same shape of shared and self-references, and no later mutation through either affects the other, while plain assignment and argument passing always share; default argument values are built afresh per call. `memoize(f)` returns exactly what f returns for pure f, for every sequence of calls, and evaluates f once per distinct argument list.",
 ["histories","inputs"],"all object graphs with sharing and cycles, all mutation sequences on original and copy, all call sequences",
 "Tests copy a few small lists; isolation quantifies over object graphs and later histories.",
 ["vm/value/mod.rs","core/collections.rs","core/mod.rs","vm/value/func.rs"],
 [("deep copy","core/mod.rs"),("memoization","vm/value/func.rs")])
p("C23","A REPL session equals the corresponding program",
 "Feeding a sequence of complete inputs to the interactive loop has the same effects as running their concatenation as a file, plus one printed value for each input that ends in an expression, and inputs split over several lines are joined until complete. An input that fails to compile changes nothing and an input that fails at run time keeps all earlier variables and functions usable, so the session continues as if the failing effect had simply stopped there.",
 ["histories"],"all sessions of valid, incomplete, ill-formed and failing inputs",
 "Tests replay some twenty short sessions; state carried between inputs (globals, late bindings, open closures, structs) after successes and failures in any order is a property of histories.",
 ["repl.rs","vm/mod.rs","compiler/mod.rs","compiler/parser/semantic.rs","reporting.rs"],
 [("incremental compilation against persistent compiler state","compiler/mod.rs"),("recovery after an error","vm/mod.rs"),("continuation detection","repl.rs")],
 [("persistent locals, globals, code and constants","survive between inputs","compiler/mod.rs")],observe=("session output",),hook="fuel counter")
p("C24","Errors name the true cause and the true source location",
 "When a program fails at run time, the report names the error and the operand values involved, the line of the operation that failed, and one entry per active call, innermost first, with the line of each call; the quoted source line and the caret underline select exactly the text of the operation which failed (the operator, index brackets, argument list, field access or composed function). Compile errors likewise report existing lines, and adding blank lines or comments above the failure shifts reported lines by exactly that amount.",
 ["programs"],"all failing programs, in any layout, with any call depth, and with non-ASCII text before the failure",
 "Tests pin the report of about a hundred fixed programs; location tracking through generated code, multi-line expressions and character widths is unbounded.",
 ["reporting.rs","vm/error.rs","vm/mod.rs","compiler/mod.rs","compiler/parser/codegen.rs"],
 [("location per opcode, source index lookup","reporting.rs"),("stack trace collection","vm/mod.rs")],observe=("error text",),hook="fuel counter")
p("C25","Values cross the native interface unchanged",
 "Calling a function of a linked native module passes every nil, boolean, integer, string and (nested) list or vector argument to C with its exact value and length, and brings every value returned by C back as the equal Cordy value, with each function bound to the symbol of its own module and arity rules identical to those of ordinary functions. Values that cannot be passed, missing modules and missing symbols produce a reported error.",
 ["inputs","configurations"],"all argument values and counts, all module and function layouts with several linked libraries",
 "Tests call five C functions with fixed arguments; marshalling has to be exact for all values and lengths, and for several modules at once.",
 ["cordy/src/ffi.rs","cordy/cordy.h","vm/mod.rs","compiler/parser/semantic.rs"],
 [("value marshalling","cordy/src/ffi.rs"),("library linking","cordy/src/ffi.rs")],observe=("program output",))
p("C26","The command line tool runs files with faithful input and output",
 "Running the `cordy` executable on a file gives the program its exact arguments (`argv`), environment (`env`), standard input (`read`, `read_line`) and files (`read_text`), with only `\\r\\n` replaced by `\\n`, and writes exactly what it prints or saves (`print`, `write_text`), so that text written and read back is unchanged. Optimised and unoptimised runs agree, errors are reported without running anything when compilation fails, and disassembly mode describes the program without running it.",
 ["inputs","configurations"],"all texts, argument lists, option combinations and programs",
 "Tests never start the executable; option parsing, line-ending treatment and the standard streams are outside the unit tests.",
 ["cordy/src/main.rs","core/mod.rs","util.rs","vm/mod.rs"],
 [("option parsing and modes","cordy/src/main.rs"),("input and output natives","vm/mod.rs")],observe=("process output","files"))
p("C27","Syntax highlighting reproduces the text and marks it by its tokens",
 "For every input text, and whatever text precedes it (the prefix, which decides whether the input starts inside a string or comment but is not itself emitted), highlighting emits exactly the characters of the input, in order, with every marked region properly opened and closed, so removing the marks gives back the input. Each marked region is one token of the language, marked with the kind the compiler gives it, or a comment (adjacent comments and the blanks after a comment may share its region); all comment text is marked, and blanks elsewhere are not. The line-blocking formatter marks the same text, with regions cut at line breaks.",
 ["inputs"],"all Unicode texts and prefixes, including invalid programs",
 "Tests highlight six fixed lines; text preservation quantifies over all texts.",
 ["syntax.rs","compiler/scanner.rs","cordy/src/main.rs"],
 [("token-based highlighter","syntax.rs")],observe=("formatted text",))
p("C28","Numeric library functions agree with their mathematical definitions",
 "`abs`, `sqrt`, `gcd`, `lcm`, `count_ones`, `count_zeros`, `sum`, `min`, `max` (including `min(int)`, `max(int)` and the `min=`/`max=` assignments), `real`, `imag`, `numer` and `denom` return the exact mathematical value for all inputs where it is representable, with the same result for the many-argument and single-iterable forms and regardless of argument order where the function is symmetric. Inputs outside the domain raise an error.",
 ["inputs"],"all integers, booleans, complex and rational values, and all argument lists",
 "Tests call each function on a few small integers; exactness near the limits, signs and zero needs generated operands against exact arithmetic.",
 ["core/math.rs","core/collections.rs","core/mod.rs"],
 [("number functions","core/math.rs")])
p("C29","The web console answers as the command-line session does",
 "The web console (`load`, `prompt`, `exec`, `scan`) is the interactive session in another dress. After `load`, which starts afresh and forgets everything before, feeding lines to `exec` returns for each line exactly what the interactive loop prints for it, without its last line break and nothing of earlier lines; `exit` is set by exactly the lines which end the session, and `prompt` is `... ` while an input is incomplete and `>>> ` otherwise. A call of a native module's function reports the module, the function and all arguments in order, and gives nil. `scan` returns the text of a line, which may continue an incomplete input, with `[`, `\\` and `]` escaped as `&#91;`, `&#92;` and `&#93;` and everything else as it is, each token and comment enclosed in markup of its kind's own style, closed within each line, while syntax and blanks are plain.",
 ["histories"],"all sequences of loads, lines and texts to highlight",
 "No test calls the web console at all; its output buffer, prompt, state and markup have to agree with the session for every history and text.",
 ["cordy-web/src/lib.rs","repl.rs","syntax.rs","util.rs"],
 [("console functions over one session","cordy-web/src/lib.rs")])
p("C30","Memory is released exactly when nothing refers to it any more",
 "Values are reference counted: a value is intact as long as a variable, collection, closure, partial function or pending call refers to it, however it got there, and is released when the last reference goes. So when a program whose values do not refer to each other in a circle has ended, normally, by `exit` or by an error, all memory which compiling and running it took has been released; and a loop whose turns keep nothing needs no more memory, at any time, for many turns than for few. No program makes the interpreter use memory which was released.",
 ["programs"],"all programs without circular references, over all types of values, ended in any way; all loops over them",
 "Tests look at results and never at memory; a missing release or a reference counted twice changes no output, and depends on the type of value, the way it is discarded, and the path on which a program ends.",
 ["vm/value/ptr.rs","vm/value/mod.rs","vm/value/collections.rs","vm/mod.rs","vm/value/func.rs","compiler/parser/mod.rs"],
 [("reference counted pointers with a drop per type","vm/value/ptr.rs"),("operand stack discarded at the end of scopes, calls and programs","vm/mod.rs")],observe=("memory in use",),hook="fuel counter")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
