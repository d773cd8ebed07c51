M = 'model-based property testing: generated programs against an independent reference interpreter, optimiser on and off'
CLAIMED.update({
 'C01': (M, 'Generated whole programs; printed output, exit value and error class compared with an independent AST interpreter. Trusts that interpreter.'),
 'C02': (M, 'Programs of nested functions, blocks and loops over few names; the reference resolves names statically on its own. Trusts that resolver.'),
 'C03': (M, 'Calls of user, native and partial functions with traced arguments, defaults, variadics and unrolling, in several call syntaxes. Trusts the reference interpreter.'),
 'C04': (M, 'Declarations, assignments and patterns of every form with traced targets. Trusts the reference interpreter.'),
 'C05': (M + '; metamorphic: declarations reordered', 'Structs, modules, methods and late binding; also with top-level declarations permuted. Trusts the reference interpreter.'),
})
CLAIMED.update({
 'C06': ('differential property-based testing (optimiser off against on) over generated programs, plus the reference model', 'Programs made of the rewritable forms with traced operands; output, end, whole error report equal with the optimiser off and on, and to the reference interpreter.'),
})
CLAIMED.update({
 'C09': ('metamorphic and model-based property testing: one syntax tree printed with minimal, full, redundant and least possible parentheses', 'Typed expression trees over all operators; each printing must evaluate, for several argument tuples, to the value of the tree in the reference interpreter.'),
 'C10': ('metamorphic property testing (random layout, comments and respelt literals) and literals against a direct reading of the specification', 'Programs re-laid-out token by token must behave as the reference interpreter says; single literals of every notation, also ill-formed and out of range, have the specified value or are rejected.'),
})
V = 'model-based property testing: generated operations on generated values against an independent reference interpreter, optimiser on and off'
CLAIMED.update({
 'C11': (V, 'Integer operators in every syntactic form on values of all magnitudes, incl. both 63-bit ends; exact results by wide arithmetic of the reference. Trusts the reference.'),
 'C12': (V, 'Complex, rational and vector operators and natives; exact results by big-number arithmetic of the reference. Trusts the reference.'),
 'C13': (V, 'Comparison, hashing by sets and dicts, sorting, min and max over values of every type. Order of unlike types and ties in sorts are left open.'),
 'C14': (V, 'Histories of operations on lists, vectors, sets, dicts and heaps, whole state printed after each. Order of heap iteration is left open.'),
 'C15': (V, 'Indexing, slicing, and assignment through indices over every sequence type, incl. huge and negative bounds and steps.'),
 'C16': (V, 'String operations over texts of one- to four-byte characters.'),
 'C17': (V + '; own backtracking regex matcher', 'Format strings over all directives and values, and regular expressions of a subset (no word boundaries or inner anchors, which the regex crate itself gets wrong).'),
 'C22': (V, 'Copies, aliases, default values and memoised functions over graphs of collections, also cyclic.'),
 'C28': (V + '; fixed inputs', 'Number theory, bit and digit natives on integers of all magnitudes. The number of bits counted by count_ones and count_zeros is a known finding.'),
})
CLAIMED.update({
 'C18': (V, 'Library functions on iterables of all eight kinds, in each calling form, with callbacks that print, fail or are not functions of this many arguments. Ties in sorts, heap iteration order and changes while iterating are left open.'),
 'C19': (V + '; metamorphic: lazy value against its list', 'Ranges with bounds and steps up to the integer limits, and enumerations of every iterable. Iterations of more than 20000 elements are left open.'),
})
CLAIMED.update({
 'C20': (V, 'Type tests of values of every type against every type, and every conversion, with values and with texts near numerals. Signs and blanks in texts of rationals are left open.'),
 'C21': (V + '; round trip through eval; fixed inputs', 'eval(repr(x)), renderings, self-containing values, evaluation of expressions as text. Texts with a quote, vectors of fewer than two elements and empty dicts are known findings.'),
})
CLAIMED.update({
 'C23': ('stateful model-based property testing: histories of inputs to one session, with injected compile-time and run-time failures, against an independent reference interpreter', 'Sessions of up to 16 inputs, on one or more lines, also of rejected and failing inputs; outputs and continuation compared after each. Variables whose own declaration failed are not used again.'),
})
CLAIMED.update({
 'C24': ('model-based property testing: whole error reports of generated programs against those composed from an independent reference interpreter and the printed positions; planted mistakes and metamorphic shifts for compile errors', 'Whole report of every run-time failure in randomly laid out programs; compile errors at known places; lines, quotes and underlines of errors in arbitrary text, and their shift by preceding lines. Failures in patterns and loop headers by line only; regex and number parser texts not compared.'),
})
CLAIMED.update({
 'C08': ('structure-aware fuzzing with a crash and step-bound oracle: histories of operations in one session, and single operations on small fresh values, under internal assertions', 'Up to 14 operations per history, all library functions, operators and statement forms on 40 kinds of values, with sharing, self-containing values and callbacks which change what is iterated. Operations with results too large for memory are not generated; ending is judged on small fresh values within 3 million steps.'),
})
CLAIMED.update({
 'C25': ('property-based testing: generated programs with native modules run by the command line tool against C libraries which describe what they receive, with an independent marshalling oracle', 'Calls of C functions with arguments of every kind, valid and not, in every calling form, several modules, optimiser on and off; what the library prints, what the program gets back and the reported error are compared. Trusts gcc and the C library.'),
})
CLAIMED.update({
 'C26': ('model-based and differential property testing of the executable: generated command lines, environments, standard input, files and programs against a model of input and output and against the library', 'Runs of the built command line tool on option lists of every kind, argument, environment and file contents of every kind, in all modes (run, session, disassembly, highlighting, help, version), each in a scratch directory; whole standard output, error output and files compared. The exit code is not judged.'),
})
CLAIMED.update({
 'C29': ('model-based and differential property testing: histories of console calls against the interactive session, the scanner and expected native-call reports', 'Sessions of up to 16 inputs line by line on console and interactive loop, highlighting of texts of every kind after incomplete lines with its markup decoded, and native-module calls. Called natively, not through WebAssembly.'),
})
CLAIMED.update({
 'C30': ('property-based testing under a counting and overwriting allocator: generated programs release all memory, and loops over them need no more for 40 turns than for 4 (metamorphic), circular programs left out by the reference model', 'Programs of the generators of the other properties, up to some hundred operations, ended normally, by exit or by an error, optimiser on and off. Use of released memory shows only where it crashes the interpreter; values which eval compiles in loops are not judged.'),
})
