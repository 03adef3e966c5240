"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
T="src/protosym/core/tree.py"; A="src/protosym/core/atom.py"; S="src/protosym/core/sym.py"
EV="src/protosym/core/evaluate.py"; D="src/protosym/core/differentiate.py"
X="src/protosym/simplecas/expr.py"; F="src/protosym/simplecas/functions.py"; M="src/protosym/simplecas/matrix.py"
W="src/protosym/core/weakdict.py"; L="src/protosym/simplecas/lambdification.py"; SC="src/protosym/simplecas/sympy_conversions.py"
def mech(*p): return [{"name":n,"where":w} for n,w in p]
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,observe,state=None,hook=None):
    a={"files":files,"mechanism":mechanism,"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":a})

prop("C01","Equal expressions are one object; different expressions are never equal",
 "At every level (atoms, trees, user-facing expressions), building the same structure twice while the first is alive gives the very same object, which compares equal with the same hash. Two structures that differ in anything (atom kind, atom value, head, an argument, argument order or count, user-facing class) are different, unequal objects. This holds after any history of building, dropping, garbage collecting and rebuilding.",
 ["inputs","histories"],"every sequence of constructions, drops and collections, over every atom kind and hashable value (including hash-colliding ones), arity, nesting and user-facing class",
 "Tests compare a handful of fresh pairs; they never churn the weak tables, collide hashes, use same-named atom kinds, or rebuild after collection.",
 [A,T,S],mech(("atom interning",A+":Atom.__new__"),("tree interning",T+":Tree.__new__, Tree.atom"),("per-class interning",S+":Sym.__new__")),
 ["Atom/Tree/Sym constructors","==, is, hash","heap scan of live instances"],
 [("_all_atoms","weak table of atoms",A),("_all_trees","weak table of trees",T),("_all_expressions","weak table of user-facing expressions",S)])
prop("C02","Threads building equal expressions at once get one and the same object",
 "When several threads build equal atoms, trees or user-facing expressions at the same time, all of them receive the same, fully initialised object, under every interleaving. At no quiescent point do two live objects with the same structure exist.",
 ["schedules"],"every interleaving of two or more threads that create, look up and drop equal and different atoms, trees and expressions",
 "The test suite is single threaded; nothing exercises a switch between a failed lookup and the insertion.",
 [A,T,S],mech(("insert-if-absent in the weak tables",A+":Atom.__new__; "+T+":Tree.__new__; "+S+":Sym.__new__")),
 ["objects returned to each thread","heap scan at quiescent points"],
 [("_all_atoms/_all_trees/_all_expressions","shared weak tables","core")])
prop("C03","Expressions nobody references any more are reclaimed",
 "Once a program has dropped its references to an expression and to everything built from it, the expression, its subexpressions and its atoms are freed, however they were created or used (arithmetic, evaluation, substitution, differentiation, printing, counting, conversion, compilation). The library keeps no expression alive on its own other than its predefined constants and the patterns of registered rules.",
 ["histories"],"every history of creating and using expressions followed by dropping them",
 "No test drops an expression and looks whether it goes away; a strong cache anywhere passes every test.",
 [A,T,S],mech(("weak-value tables",A+", "+T+", "+S)),["weak references to atoms, trees and expressions","live instance counts"])
prop("C04","Arithmetic and calls build exactly the documented form, nothing else",
 "Every operator (+, -, *, /, ** and their reflected and unary forms) and every call builds exactly the documented inert expression: same operation, same operands in the same order, no simplification, flattening or reordering, with integers of any size kept exactly. The head, arguments and atom value read back from an expression are those it was built from. An operand that is neither an expression nor an int is rejected with a TypeError instead of being coerced, unless it defines the operation with expressions itself.",
 ["inputs","programs"],"every straight-line program of operators and calls over expressions and ints, and every foreign operand type",
 "Tests fix about thirty operand pairs built from x, 2 and 1.",
 [X,S],mech(("operator methods",X+":Expr.__add__ ... __rpow__"),("expressify",X+":expressify")),["structure of the resulting expression","exceptions"])
prop("C05","Traversals list each distinct subexpression once, children first",
 "The topological sort of an expression contains each distinct subexpression exactly once, never before any of its children, ends with the expression itself, and includes heads or leaves out an excluded set and what is only reachable through it when asked to. The split into atoms, heads and compound nodes partitions that sort in order. The forward graph, replayed from its atoms, rebuilds every listed subexpression and finally the identical expression.",
 ["inputs"],"every expression (any sharing, arity, nesting, compound heads, zero-argument calls) and every exclude set",
 "Tests check four small expressions against literal lists.",
 [T],mech(("depth-first sort",T+":topological_sort"),("split",T+":topological_split"),("graph",T+":forward_graph")),["returned lists and graph"])
prop("C06","Evaluation equals the recursive definition, once per distinct subexpression",
 "Evaluating an expression with any set of rules gives the value defined recursively: a value supplied for an atom wins over every rule, then the rule for the atom's kind or the operation's head, then the generic rule, and a missing rule raises the no-rule error; operands are passed in order. Each rule is applied exactly once per distinct subexpression, and an exception raised by a rule, of any kind, reaches the caller. The recursive and forward strategies agree.",
 ["inputs","programs"],"every expression, rule set (fixed-arity, variadic, per-atom-kind, generic, missing) and assignment of values to atoms, including falsy values",
 "Tests evaluate three expressions with one rule set; they use only truthy floats and few shared nodes.",
 [EV,S],mech(("forward evaluation",EV+":Evaluator.eval_forward"),("recursive evaluation",EV+":Evaluator.eval_recursive"),("rule lookup",EV+":eval_atom, eval_operation")),["result of the evaluator","log of rule invocations"])
prop("C07","Rule registration: last valid rule wins, rejected rules change nothing",
 "After any sequence of rule registrations, an evaluator behaves according to the most recent accepted rule for each head, atom kind and generic slot, and a registration takes effect for the very next evaluation. A malformed registration raises the bad-rule error and changes no behaviour. Rules of one evaluator never affect another.",
 ["histories"],"every interleaving of valid and malformed registrations on several evaluators with evaluations",
 "Tests register each rule once on a fresh evaluator and only check that malformed ones raise.",
 [S,EV],mech(("pattern matching of rules",S+":SymEvaluator.__setitem__"),("rule tables",EV+":Evaluator")),["evaluation results after each step","exceptions"],
 [("Evaluator.atoms/operations/generic_*","rule tables",EV)])
prop("C08","Substitution replaces every occurrence, all targets at once",
 "Substituting a set of distinct targets (atoms, heads or compound subexpressions, also nested in each other or equal to the whole expression) by any replacements gives exactly the expression in which every outermost occurrence of a target is replaced simultaneously and everything else is unchanged. A substitution function can be called any number of times with the same effect each time, and rejects a wrong number of replacements.",
 ["inputs","histories"],"every expression, list of distinct targets, and sequence of replacement tuples",
 "Tests try about ten hand-picked substitutions, none with several targets one of which is the whole expression.",
 [T,X],mech(("substitution program",T+":SubsFunc"),("as_function, xreplace",X+":Expr.as_function, Expr.xreplace")),["returned expression"])
prop("C09","Derivatives of built-in functions are mathematically correct",
 "For every expression made of integers, symbols, sums, products, powers with an exponent not involving the variable, sin and cos, the n-th derivative with respect to any symbol evaluates to the true n-th derivative wherever that is defined and the generated formula is. Repeating a first-order differentiation n times and asking for order n give the same expression. A power whose exponent involves the variable, or an operation without a rule, raises an error rather than giving a wrong derivative.",
 ["inputs"],"every such expression, symbol and order; every evaluation point in the domain",
 "Tests compare about ten derivatives literally and one value of a nested sine.",
 [D,X,S],mech(("forward accumulation",D+":diff_forward"),("product and chain rules",D+":product_rule_forward, chain_rule_forward"),("rules",X+":diff[...]")),["value of the returned expression"])
prop("C10","User differentiation rules apply per argument, exactly as written",
 "After registering rules for a user function, the derivative of any expression using it follows the chain rule with, for each argument, exactly the registered partial derivative with the actual arguments in place of the pattern variables; the most recent rule for an argument wins and takes effect at once. Differentiation distributes over functions registered as distributive. A malformed pattern is rejected with a TypeError and changes nothing, and differentiating through an argument with no rule raises.",
 ["inputs","histories"],"every sequence of rule registrations for functions of any arity, and every expression using them",
 "Tests register one-argument rules only and never override one.",
 [S,D,T],mech(("rule registration",S+":SymDifferentiator.__setitem__"),("chain rule",D+":chain_rule_forward"),("distributive",D+":diff_forward")),["value and structure of the derivative","exceptions"],
 [("DiffProperties.diff_rules","rules by head and argument position",D)])
prop("C11","eval_f64 returns the value of the expression to rounding error",
 "For every expression of integers, symbols, sums, products, powers, sin and cos and every assignment of floats to its symbols, double-precision evaluation returns the exact real value up to the rounding error those operations imply (a sum of any number of terms is one operation, rounded once). Where the value is undefined or a symbol has no value, it raises instead of returning a number.",
 ["inputs"],"every such expression and assignment",
 "Tests check eight values, all with x=1 or 2.",
 [F,EV,X],mech(("f64 rules",F+":eval_f64[...]")),["returned float","exceptions"])
prop("C12","Compiled functions compute the same values as the expression",
 "For every list of distinct argument symbols, whatever their names and order, and every supported expression in them, the compiled function applied to floats returns the value of the expression to rounding error, in agreement with direct evaluation. An expression with a symbol that is not an argument or with an unsupported operation is refused with an error, never compiled to something else.",
 ["inputs"],"every supported expression, argument list (any names, order, unused arguments, up to dozens) and argument values",
 "Tests compile two scalar expressions, at one point each, with the names x, y, z.",
 [L],mech(("IR generation",L+":_to_llvm_f64"),("JIT",L+":_compile_llvm, _lambdify_llvm")),["returned float","exceptions"])
prop("C13","Compiled matrices fill exactly the right entries",
 "A compiled matrix function returns a fresh float array of the matrix's shape whose (i, j) entry is the value of the matrix's (i, j) entry, zero entries included, whatever the shape, sparsity, sharing between entries and way the matrix was made. It writes nowhere outside that array, and arrays returned earlier are not changed by later calls.",
 ["inputs","histories"],"every matrix and argument list; every sequence of calls",
 "Tests compile five matrices of at most two rows, and never look at memory around the result.",
 [L,M],mech(("IR generation",L+":_to_llvm_f64_matrix"),("output array",L+":_lambdify_llvm_matrix")),["returned array","canaries around the output buffer"])
prop("C14","Compiled functions stay valid and independent for their whole life",
 "A compiled function keeps returning the same result for the same arguments for as long as it is referenced, no matter how many other functions are compiled, dropped or called in between, whether the expression it came from still exists, and from whichever thread it is called. No sequence of compilations and calls crashes the process.",
 ["histories","schedules"],"every history of compiling, calling, dropping and collecting compiled functions, in one or several threads",
 "Each test compiles one function and calls it at once.",
 [L],mech(("engines kept alive",L+":_exe_eng, _compile_llvm")),["returned values","process exit"],[("_exe_eng","keeps JIT engines alive",L)])
prop("C15","Emitted LLVM IR is a valid module computing the expression",
 "The IR text produced for an expression or matrix parses and verifies as an LLVM module defining one function whose parameters are the given symbols in order (preceded by the output pointer for a matrix). Compiled by any LLVM at any optimisation level it computes the value of the expression, with each distinct operation computed once, and the text is the same every time it is requested.",
 ["inputs"],"every supported expression or matrix and argument list",
 "Tests compare two literal texts.",
 [L,X,M],mech(("IR generation",L+":_to_llvm_f64, _to_llvm_f64_matrix")),["IR text, parsed, verified and executed independently"])
prop("C16","Conversion to and from SymPy preserves meaning",
 "Converting an expression or matrix to SymPy gives an object with the same symbols, functions and value; converting a SymPy expression or matrix built from supported pieces gives one with the same value and structure; and a SymPy object that came from either side survives the round trip unchanged. Anything unsupported raises an error instead of being converted to something else.",
 ["inputs"],"every expression or matrix (zero and rectangular ones included) on either side with plain symbols, integers, sums, products, powers, sin, cos, tuples and undefined functions, and unsupported SymPy objects",
 "Tests convert five scalars and one full 2x2 matrix.",
 [SC,M],mech(("to SymPy",SC+":eval_to_sympy, to_sympy_matrix"),("from SymPy",SC+":_from_sympy_cache, from_sympy_matrix")),["SymPy objects and expressions returned","exceptions"])
prop("C17","Printed forms are unambiguous",
 "The printed form of an expression, read with the usual precedence rules, denotes exactly that expression (up to the grouping of repeated sums and products), so expressions that differ print differently; str and repr agree. The LaTeX form is well-formed LaTeX and likewise denotes exactly the expression.",
 ["inputs"],"every expression of symbols, integers (negative ones included), sums and products of two or more terms, powers and function calls",
 "Tests compare about twenty printed forms literally, none with a power of a power or of a negative number.",
 [F,X],mech(("repr rules",F+":eval_repr[...]"),("latex rules",F+":eval_latex[...]")),["returned strings, parsed back"])
prop("C18","Matrices behave as the tables of entries they denote",
 "Indexing, shape, conversion to lists, printing, elementwise binary operations, addition and differentiation of matrices agree entry by entry with the same operations on the dense table of entries, for every shape and sparsity and after any sequence of operations. Bad indices, ragged input and mismatched shapes are rejected, and no operation changes its operands.",
 ["inputs","histories"],"every sequence of matrix operations over matrices of every shape and sparsity",
 "Tests use six small matrices and never chain operations.",
 [M],mech(("sparse entry map",M+":Matrix._new, binop, diff, tolist, __getitem__")),["entries of the resulting matrices"],[("entrymap","position of each stored entry",M)])
prop("C19","Cost grows with distinct subexpressions, not with tree size",
 "Building, counting, evaluating, substituting, differentiating (to a fixed order), expanding, converting (apart from SymPy's own work) and compiling an expression take a number of steps proportional to the number of its distinct subexpressions and their arguments (differentiation: for products of a bounded number of factors), and results share subexpressions, even when the expression written out as a tree is exponentially larger. The cost depends neither on how many other expressions exist nor on what was done before.",
 ["inputs"],"every expression with shared subexpressions",
 "Tests have a few shared expressions but check results only, on sizes where an extra factor does not show.",
 [T,EV,D,X,L],mech(("sharing through the forward graph",T+":forward_graph; "+EV+":eval_forward; "+D+":diff_forward; "+T+":SubsFunc")),["counted interpreter steps","rule invocations","distinct subexpressions of the result"])
prop("C20","Nesting depth is not limited by the interpreter's recursion limit",
 "Expressions nested tens of thousands of levels deep, in any argument position, can be built, sorted, counted, evaluated, substituted into, differentiated, expanded, printed, compiled and dropped without a recursion error or crash, giving the same results as for shallow ones.",
 ["inputs"],"every depth well beyond the recursion limit, in every argument position",
 "The deepest expression in the tests has about a hundred levels.",
 [T,EV,D,X],mech(("explicit stack",T+":topological_sort")),["results and exceptions on deep expressions"])
prop("C21","Results do not depend on hash seeds, memory layout or earlier work",
 "The same program gives the same structural results, orders, printed forms, derivatives and IR text in every process, whatever the hash seed, object addresses and expressions created earlier or garbage collected in between.",
 ["configurations","histories"],"every hash seed and prior history of the process",
 "Tests run once, with one hash seed, in one order.",
 [T,D,X,L],mech(("ordered traversal",T+":topological_sort"),("deterministic graph order",T+":forward_graph")),["digest of all results, compared across processes"])
prop("C22","Binary expansion and transformers rewrite only what they should",
 "Expanding associative operations turns every sum and product of several terms into left-nested binary ones in the same order, an empty one into its neutral element and a single-term one into that term, leaves everything else untouched, keeps the value, and is idempotent. A transformer with given rules rewrites exactly the operations and atoms it has rules for, innermost first, and returns everything else identical.",
 ["inputs","programs"],"every expression and every set of transformer rules",
 "Tests expand two expressions and run one one-rule transformer.",
 [X,EV],mech(("bin_expand",X+":bin_expand"),("Transformer",EV+":Transformer")),["structure of the result"])
prop("C23","Operation counts are exact",
 "The graph count of an expression is its number of distinct subexpressions and the tree count is its number of subexpressions with multiplicity (heads not counted), as exact integers of any size.",
 ["inputs"],"every expression, including ones whose tree count exceeds machine integers",
 "Tests use one family of expressions and five small ones.",
 [X],mech(("count_ops_graph",X+":Expr.count_ops_graph"),("count_ops_tree",X+":count_ops_tree")),["returned integers"])
prop("C24","Concurrent operations on shared expressions give the sequential results",
 "Evaluation, substitution, differentiation, printing, counting, expansion, conversion and matrix operations running at the same time in several threads on shared expressions, evaluators, substitution functions and differentiators each give the result they give alone.",
 ["schedules"],"every interleaving of two or more such operations",
 "The test suite is single threaded.",
 [T,EV,D,X,S],mech(("operations keep their state local",EV+":eval_forward; "+T+":topological_sort, SubsFunc.call; "+D+":diff_forward")),["results of each operation in each thread"])
prop("C25","A failed or interrupted operation leaves no trace",
 "If an operation fails (a rule raises, a rule is missing, an argument is bad) or is interrupted by an asynchronous exception at any point, all existing expressions, evaluators, differentiators and matrices are as before. Repeating the operation without the fault then gives the normal result, and equal expressions are still one object.",
 ["fault_sequences","crash_points"],"every operation and every point inside it at which an exception can surface",
 "Tests only check that some bad calls raise; none continues to use the objects afterwards.",
 [A,T,S,EV,D],mech(("objects are initialised before publication",A+":Atom.__new__; "+T+":Tree.__new__"),("local working state",EV+", "+D)),["results after the fault, compared with results without it","heap scan"])
prop("C26","No operation modifies an existing expression, rule or matrix",
 "Whatever sequence of operations is run, every expression, matrix, substitution function, evaluator and compiled function created earlier keeps its structure, value and behaviour, and containers passed to a call are not changed by it, and they and those returned by a call can be changed by the caller without affecting anything else. Copying an expression never yields an object that differs from or alters an existing one.",
 ["histories"],"every sequence of operations, with mutation of caller-owned containers and copying in between",
 "Tests never look at an expression again after using it.",
 [T,S,X,M],mech(("immutable tuples of children",T+":Tree"),("copies of element lists",M+":Matrix._new, binop"),("working stack copied per call",T+":SubsFunc.call")),["snapshots of earlier objects after every step"])
prop("C27","Operations started inside other operations behave as alone",
 "Any operation may start in the middle of another one in the same thread: in a rule of an evaluator or transformer (also using that same evaluator), in the hash or comparison of an atom's value, in a finaliser or weak-reference callback, in a signal handler. Both operations give the results they give alone, nothing blocks, and equal expressions built inside and outside are one and the same object. (While two atom values are compared, building an atom with a value equal to them is excepted.)",
 ["inputs","schedules"],"every pair of operations and every point of the outer one at which Python can run other code",
 "No test uses the library in a callback, a finaliser or a signal handler.",
 [A,T,S,EV,W],mech(("atomic store of expressions",W+":AtomicWeakDict.setdefault"),("working state is local to a call",EV+":eval_forward; "+T+":SubsFunc.call, topological_sort"),("no lock is held while other code runs, or a reentrant one",W+":AtomicWeakDict")),["results of the inner and outer operation","identity of expressions","heap scan"])
prop("C28","Forked processes go on working",
 "When a process is forked at any moment, by any of its threads and whatever the others are doing, all expressions, evaluators, substitution functions, differentiators, matrices and compiled functions work in the child and in the parent as before, new expressions can be made in both, and an operation in the middle of which the process was forked gives its usual result in both.",
 ["schedules"],"every moment of a fork, every operation before and after it",
 "No test forks.",
 [A,T,S,W],mech(("the lock of the stores is renewed in the child",W+":_new_lock"),("no other state is shared between threads",EV+", "+T+", "+S)),["results in the child and the parent","termination of the child"])
prop("C29","Optional packages are loaded only where they are needed",
 "Only conversions from and to SymPy import SymPy, only compilation imports llvmlite, and only the compilation and calling of matrices imports NumPy; importing the library imports none of them. Where a package is missing or cannot be loaded, the operations that need it raise an ImportError, every other operation gives the same result as where all packages exist, and once the package can be imported the refused operations work.",
 ["configurations","histories"],"every subset of the optional packages that is missing, every way in which a package can be missing, every operation, before and after refused ones",
 "The tests run where all packages are installed, or skip what needs them.",
 [X,M,L,SC],mech(("imports inside the functions that need them",X+":Expr.to_sympy, from_sympy; "+L+":_compile_llvm, _lambdify_llvm_matrix; "+M+":Matrix.to_sympy")),["outcome of each operation","packages asked for and loaded by each operation"])
prop("C30","The interpreter's global state is left alone and not relied on",
 "No import, operation, or failing operation changes the interpreter's global state (recursion limit, garbage collector, warnings, signals, hooks, streams, random, decimal and floating-point state, environment, current directory, descriptors, threads, patched names, settings of NumPy and SymPy), also as seen from rules it calls, or writes anything. Results are the same whatever that state is, in any thread, coroutine or interpreter mode (such as -O), and a program that uses the library ends without errors.",
 ["configurations","inputs"],"every operation under every global state, and what it leaves behind",
 "Tests run in one interpreter with the usual state and do not look at it.",
 [T,EV,D,S,X,L,SC],mech(("iterative traversal instead of a raised recursion limit",T+":topological_sort"),("no output, no global settings",EV+", "+D+", "+L)),["global state before, during and after each operation","results under unusual states","exit status and stderr of processes"])
prop("C31","Languages built on the core are independent of each other",
 "Any number of symbolic systems (subclasses of Sym, also of each other, with their own atom types, functions, operators, evaluators, transformers and differentiators, or several of these over the same terms) work side by side in one process exactly as each does alone, even if their classes, atoms and functions have the same names and some are changed or dropped. Terms of one are never equal to terms of another, and rules, values, replacements and derivatives of one never apply to another. An evaluator or differentiator goes by the term alone, whichever class wraps it.",
 ["histories"],"every set of languages, every interleaving of definitions and uses",
 "Tests use the predefined language; those of the core define at most one at a time.",
 [A,S,EV,D,T],mech(("atoms are keyed by their type object",A+":Atom.__new__"),("expressions are keyed by their class",S+":Sym.__new__"),("rules are keyed by trees and belong to one object",EV+":Evaluator; "+D+":DiffProperties")),["results of every language against a model of it","identity across languages"])
prop("C32","An installed replacement of the core is used throughout and gives the same results",
 "Where a package rust_protosym offering the core's classes and functions (atoms, trees, traversals, forward graphs, substitution functions, differentiation) can be imported, the library uses those throughout and makes no object of its own core, and every operation gives the same result, order and printed form as with its own core. Where that package is missing or cannot be loaded (an ImportError), or becomes importable only after the library was imported, the library works with its own core throughout.",
 ["configurations","inputs"],"every operation with and without the replacement",
 "The replacement is not installed where the tests run; the lines that use it are excluded from coverage.",
 [A,T,D,S,X],mech(("names of the core are replaced after they were defined",A+", "+T+", "+D+": end of the module")),["results of operations and programs with and without a replacement","objects of both cores that exist","calls of the replacement"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
