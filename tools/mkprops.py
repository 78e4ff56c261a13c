#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are stated)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PY="libpyclingo/clingo/"
LUA="libluaclingo/luaclingo.cc"; HH="libclingo/clingo.hh"

p("P01","Symbols survive construction, inspection, printing and parsing",
 "A symbol built through the Python, C++ or Lua interface (numbers over the full int range, strings with any characters, constants, signed functions, tuples, infimum and supremum, arbitrarily nested) reports exactly the type, sign, name, string, number and arguments it was built from. Printing it and parsing the text yields the equal symbol, every interface prints the same text, and asking a symbol for a property its type does not have raises an error instead of returning a value.",
 ["inputs"],"all symbols up to a nesting depth, including escapes, empty strings, extreme numbers, one-element tuples and negative signs, in all three interfaces",
 "The tests print about a dozen fixed symbols; the guarantee quantifies over all terms and over agreement between three independently written wrappers.",
 [PY+"symbol.py",HH,LUA,"libclingo/src/control.cc","libgringo/src/symbol.cc"],
 [("Symbol/Function/Number/String/Tuple_/parse_term",PY+"symbol.py"),("Clingo::Symbol",HH),("Term userdata",LUA),("string quoting and printing","libgringo/src/symbol.cc")],
 ["constructor arguments vs. accessors","str() and parse_term()"])

p("P02","Symbols are totally ordered consistently with equality and hash",
 "Over any set of symbols the comparison operators of every interface describe one and the same total order (numbers by value, constants before longer functions, infimum first, supremum last, then by type, sign, arity, name and arguments), and exactly one of less, equal, greater holds for each pair. Equal symbols have equal hashes, and sorting, set membership and dictionary lookup through any interface agree with that order and with the comparisons the language itself evaluates.",
 ["inputs"],"all pairs and triples of generated symbols of all types and all nestings",
 "Totality, transitivity and agreement between interfaces range over pairs and triples; the tests compare a few fixed pairs.",
 [PY+"symbol.py",HH,LUA,"libgringo/src/symbol.cc"],
 [("total_ordering over is_less_than/is_equal_to",PY+"symbol.py"),("operator< etc.",HH),("__eq/__lt/__le",LUA),("Symbol::less","libgringo/src/symbol.cc")],
 ["rich comparisons, hash, sorted()"])

p("P03","Parsing to a syntax tree, printing and re-parsing loses nothing",
 "For every syntactically valid program, parsing it into syntax trees, printing each tree and parsing the printed text yields equal trees, and every tree's locations lie inside the text it was parsed from and name the right file. Adding the trees (or trees rebuilt node by node from their attributes) to a program gives the same ground program and answer sets as adding the text.",
 ["programs"],"all programs over the whole input language: rules, all aggregates, conditional literals, pools, intervals, theory atoms and definitions, directives, scripts, comments",
 "The tests round-trip one fixed line per construct; combinations of operators, nesting, quoting and precedence are unbounded.",
 [PY+"ast.py",HH,"libclingo/src/astv2_parse.cc","libclingo/src/astv2_str.cc","libclingo/src/astv2_build.cc"],
 [("parse_string/parse_files/ProgramBuilder, node constructors",PY+"ast.py"),("AST::parse_string/Node/ProgramBuilder",HH),("ASTBuilder, ast printing","libclingo/src/astv2_*.cc")],
 ["trees delivered to the callback","str(tree)","answer sets after ProgramBuilder.add"])

p("P04","Syntax trees behave as values with list-like and attribute containers",
 "Setting an attribute of a syntax tree is visible in exactly that attribute of every reference to that tree and nowhere else; its sequences behave like mutable lists under any sequence of get, set, insert, delete, append, extend, clear, slicing and iteration, with the usual index errors. A shallow copy shares children, a deep copy shares nothing, both are equal to the original until changed; equality, ordering and hash agree with structure (locations ignored); a transformer that changes nothing returns the identical tree and one that changes a node changes only the path to it.",
 ["histories","inputs"],"all interleavings of edits, copies, comparisons and transformations on generated trees",
 "The tests perform single edits on fixed trees; aliasing and container laws are statements about arbitrary edit histories.",
 [PY+"ast.py",PY+"util.py",HH,"libclingo/src/astv2.cc"],
 [("ASTSequence/StrSequence/AST/Transformer",PY+"ast.py"),("SlicedSequence/SlicedMutableSequence",PY+"util.py"),("NodeVector/StringVector/NodeRef/StringRef",HH)],
 ["attribute reads after edits","sequence contents against a list model"])

p("P05","Solving delivers every answer set exactly once, in every mode and interface",
 "Enumerating a program delivers each of its answer sets exactly once and nothing else, whether models are consumed through a callback, by iterating a handle, step by step, asynchronously, or by stopping early; models are numbered consecutively, and stopping after k models delivers exactly k. Each model shows exactly the symbols selected (shown, atoms, terms, theory extensions and their complements), membership and literal queries agree with those symbols, and the final result's satisfiable/unsatisfiable/exhausted/unknown flags agree with what was delivered.",
 ["programs","histories"],"all small ground and non-ground programs, all solving modes, all stopping points, in Python, C++ and Lua",
 "The tests solve a handful of fixed programs; completeness and exactly-once delivery need an oracle that knows all answer sets of arbitrary programs.",
 [PY+"control.py",PY+"solving.py",HH,LUA,"libclingo/src/clingocontrol.cc"],
 [("Control.solve/SolveHandle/Model/_SolveEventHandler",PY+"control.py, solving.py"),("Control::solve/SolveHandle/ModelIterator/Model",HH),("SolveHandle/Model",LUA)],
 ["on_model, handle iteration, get(), Model accessors"])

p("P06","Optimisation, projection and consequence modes deliver what they promise",
 "With minimize statements the reported cost vector of every model equals the cost computed from its atoms, ordered by descending priority; each delivered model improves on the previous one, and the optimal models reported as proven are exactly the optimal answer sets. Brave and cautious reasoning end with exactly the union and intersection of all answer sets (with per-literal consequence status consistent with it), and projected enumeration delivers each distinct projection exactly once.",
 ["programs","configurations"],"all small programs with weighted, prioritised minimise statements, projections and the enumeration modes of the configuration",
 "Tests check one or two fixed optimisation programs; the guarantee is about arbitrary weights, priorities and model sets.",
 [PY+"solving.py",PY+"control.py",HH,LUA],
 [("Model.cost/priority/optimality_proven/type",PY+"solving.py"),("CostVector/ConsequenceType",HH),("Model index",LUA)],
 ["cost, optimality_proven, type, number, symbols","statistics costs"])

p("P07","Multi-shot histories behave as the accumulated program says",
 "After any history of adding and grounding program parts with parameters, assigning and releasing externals, adding rules through the backend, constraining enumeration and solving under assumptions given as literals or symbols, the answer sets are exactly those of the accumulated program under the current external values and the given assumptions; assumptions and early stopping leave no trace in later calls. When solving under assumptions is unsatisfiable, the reported core consists of assumed literals (or literals fixing external atoms) and is itself unsatisfiable.",
 ["histories","programs"],"all interleavings of ground, assign/release, backend additions and solve calls with random assumptions, in all interfaces",
 "The tests run a few fixed two- or three-step histories; state that leaks between steps needs long random histories and a reference model.",
 [PY+"control.py",HH,LUA,"libclingo/src/clingocontrol.cc","libgringo/gringo/output/output.hh"],
 [("assign_external/release_external/solve(assumptions)/core",PY+"control.py"),("Control::solve, SymbolicLiteralSpan",HH),("ControlWrap",LUA)],
 ["answer sets and cores after each step"],
 state=[("external value","free/true/false/released","Control.assign_external")])

p("P08","Failures in user callbacks surface exactly once and corrupt nothing",
 "If user code called back by the library (model, statistics and finish handlers, propagator and observer methods, external functions, loggers, syntax-tree callbacks, script functions, application hooks) fails at any of its invocations, the operation that was running stops and reports that very failure to its caller exactly once: never lost, never replaced by a stale earlier one, never a crash or hang (failing asynchronous searches in Python report a runtime error with the message of the failure; handlers that cannot report failures to the library, namely statistics, core and finish handlers, undo and loggers, end the process with the message of the failure by design, or, for C++ loggers, are ignored). Afterwards all objects can still be released, and a fresh control object (or the same one where documented) works normally.",
 ["fault_sequences","histories"],"every callback kind x every invocation index k at which it fails x subsequent operations, in Python, C++ and Lua",
 "Tests raise in a few callbacks on the first call; enumerating every callback and every invocation index is fault enumeration.",
 [PY+"_internal.py",PY+"control.py",PY+"propagator.py",PY+"backend.py",HH,LUA],
 [("_cb_error_handler/_handle_error/_Error",PY+"_internal.py"),("handle_error, AssignOnce exception_ptr",HH),("handle_lua_error",LUA)],
 ["exception object and traceback seen by the caller","exit status of the process","later operations"])

p("P09","Observers see, and backends add, exactly the ground program",
 "The sequence of calls an observer receives during grounding and solving describes exactly the ground program: replaying it through a backend (or evaluating it directly) yields the same answer sets, costs, projections and shown symbols, and step, output, external, assumption, heuristic, edge and theory calls carry the argument values of the program. Statements added through the backend reach the observer with the very same atoms, literals, weights, priorities and types, whatever their sizes.",
 ["programs","inputs"],"all small programs covering every statement type; all backend calls with random arguments",
 "Tests feed one example per statement type; argument order, truncation and conversion errors show only for particular values.",
 [PY+"backend.py",HH,LUA,"libgringo/gringo/backend.hh","libclingo/src/clingocontrol.cc"],
 [("Observer/Backend",PY+"backend.py"),("GroundProgramObserver/Backend",HH),("GroundProgramObserver/Backend",LUA)],
 ["recorded observer events vs. arguments given"])

p("P10","Propagators are notified faithfully and their constraints are respected",
 "A propagator receives every watched literal exactly once each time it becomes true and gets it back in undo when the assignment is retracted, per thread and in matching order; in every callback the assignment's values, levels, decisions and trail are mutually consistent, propagate calls never happen for unwatched literals, and total checks occur only on total assignments. Clauses, nogoods, weight constraints, minimize terms and literals it adds constrain the answer sets exactly as the equivalent rules in the program would, and a decide hook is only asked, and obeyed, for unassigned literals. (With several solver threads this holds for Python and C++; the Lua interpreter supports only serialised hooks.)",
 ["schedules","programs","histories"],"all small problems x watch sets x check modes x solver thread counts x clauses added at arbitrary points",
 "The tests run three fixed propagators; the protocol is a temporal property of arbitrarily many solver callbacks.",
 [PY+"propagator.py",HH,LUA,"libclingo/src/control.cc"],
 [("PropagateInit/PropagateControl/Assignment/Trail",PY+"propagator.py"),("PropagateInit/PropagateControl/Assignment/Trail",HH),("Propagator",LUA)],
 ["recorded callback trace","answer sets with the propagator vs. brute force"])

p("P11","The configuration tree reads back what was written",
 "Every option reachable in the configuration tree can be listed, described and read; writing a valid value is read back as the value last written and affects only that option, invalid keys and values raise an error and change nothing, and array entries (one per solver) are independent. All interfaces present the same keys, descriptions and values, and settings made there have the same effect on solving as the equivalent command-line option.",
 ["histories","configurations"],"all keys of the tree x write histories over generated values",
 "Tests write two or three keys; isolation between options is a statement about all pairs of keys and write orders.",
 [PY+"configuration.py",HH,LUA],
 [("Configuration",PY+"configuration.py"),("Clingo::Configuration",HH),("Configuration",LUA)],
 ["key lists, get/set results"])

p("P12","Statistics are readable, typed, and user statistics round-trip exactly",
 "Statistics read through any interface form a finite tree of maps, arrays and numbers in which all views agree (keys, values, items, length, indexing) and whose model, call and choice counters match what the run actually did. User statistics written in the statistics callback, of any nesting of maps, arrays and numbers with merges, overwrites and callables that update previous values, are read back exactly as written; the per-step and the accumulated tree are independent of each other.",
 ["histories","inputs"],"all nested user values and update histories across solve calls",
 "Tests write one fixed nested value; merging and updating over several calls is a history property.",
 [PY+"statistics.py",HH,LUA],
 [("_statistics/StatisticsMap/StatisticsArray/_mutable_statistics",PY+"statistics.py"),("Statistics/UserStatistics",HH),("newStatistics",LUA)],
 ["Control.statistics after solve"])

p("P13","Theory atoms are reported exactly as stated in the program",
 "Iterating the theory atoms of a grounded program yields exactly the theory atoms the program states: name term, elements with their tuples and conditions, guards, and literals, with terms of the right type, name, number and arguments, printing in their defined notation; all interfaces agree. Operator expressions are structured according to the priorities and associativities of the theory definition, an element's condition literal is equivalent to its conditions, and expressions using undefined operators or wrongly used theory atoms are rejected.",
 ["programs"],"all theory definitions (operators, priorities, associativity, arities) x all term expressions, elements and guards",
 "Tests ground four fixed theory atoms; structuring depends on all combinations of operators and priorities.",
 [PY+"theory_atoms.py",HH,LUA,"libgringo/src/input/theory.cc","libgringo/src/output/theory.cc"],
 [("TheoryAtom/TheoryElement/TheoryTerm",PY+"theory_atoms.py"),("TheoryAtoms",HH),("TheoryAtom",LUA),("TheoryOpDef, OpParser","libgringo/src/input/theory.cc")],
 ["theory_atoms iteration"])

p("P14","Symbolic atoms list exactly the derivable atoms of the grounding",
 "The symbolic atoms of a control object contain each possible atom of the current ground program exactly once; iteration, length, iteration by signature, lookup, membership and the list of signatures all agree, and facts and externals are flagged exactly when the program makes them so. Each atom's literal is unique to it (atoms that became underivable may carry no literal), and its truth in a model agrees with membership of the symbol in that model.",
 ["programs","histories"],"all programs with facts, choices, externals, negative signatures and several grounding steps",
 "The tests look at a five-atom program; agreement of all views over arbitrary domains is universally quantified.",
 [PY+"symbolic_atoms.py",HH,LUA],
 [("SymbolicAtoms",PY+"symbolic_atoms.py"),("SymbolicAtoms/SymbolicAtomIterator",HH),("SymbolicAtoms",LUA)],
 ["all views after each ground/solve"])

p("P15","Applications run user options, hooks and output as specified",
 "An application built on any interface receives exactly the arguments, options and flags given on its command line (parsed values in order, multiple values, defaults, help groups), calls its hooks in the documented order with the given files, and prints every model through its print hook exactly once. Invalid options or values, and failing registration or main code end in an error message and a nonzero exit code (failing validation in an error message without running main), while exit codes of successful runs equal those of the plain solver on the same input.",
 ["inputs","fault_sequences","configurations"],"all command lines over declared options, inputs from files and stdin, and hook failures",
 "Tests run two fixed command lines in-process; the whole option grammar and exit-code contract need many process runs.",
 [PY+"application.py",HH,"app/clingo/main.cc"],
 [("Application/ApplicationOptions/Flag/clingo_main",PY+"application.py"),("ClingoOptions/Application/clingo_main",HH),("main","app/clingo/main.cc")],
 ["process output, exit code, hook trace"])

p("P16","External functions and scripts receive and return terms unchanged",
 "When grounding calls an external function (from a context object, an embedded Python or Lua script, or a C++ callback), it is called with exactly the argument terms of each ground instance, and the rule is instantiated with exactly the returned term or terms, in any number, including none. Context methods take precedence over script functions, unknown functions and failing calls make grounding report the problem rather than invent terms, and a main function in a script replaces the default ground-and-solve loop.",
 ["inputs","programs"],"all argument terms and returned collections x calling positions x providers",
 "Tests call three fixed functions; conversion must hold for all terms and result sizes.",
 [PY+"control.py",PY+"script.py",HH,LUA,"libclingo/src/scripts.cc","app/clingo/main.cc"],
 [("_pyclingo_ground_callback",PY+"control.py"),("Script registration and Context lookup",PY+"script.py"),("luacall",LUA),("Control::ground callback",HH)],
 ["arguments seen by the function","resulting ground atoms"])

p("P17","Asynchronous solving, waiting and interruption are safe and truthful",
 "A search started asynchronously can be polled, waited for with or without a time limit, resumed, cancelled or interrupted from another thread at any moment without deadlock, crash or data race; its finish handler runs exactly once, no model handler runs after the search was reported finished or its handle closed, and the result says interrupted only if it was stopped. A search that was not stopped delivers the same models as a blocking one, with any number of solver threads, and the control object is fully usable afterwards.",
 ["schedules","histories"],"all timings of interrupt, cancel, wait and close relative to the search, including delays injected inside callbacks and parallel search",
 "Tests start one search and wait for it; the property quantifies over schedules.",
 [PY+"solving.py",PY+"control.py",HH,"libclingo/src/clingocontrol.cc"],
 [("SolveHandle wait/get/cancel/resume/__exit__",PY+"solving.py"),("SolveHandle/AsyncSolve",HH)],
 ["event log of handler calls and API calls ordered by a shared counter"])

p("P18","Language bindings use native resources correctly and memory-safely",
 "Any program written against the Python, C++ or Lua interface, including ones that drop references in arbitrary order, copy or move handles, index out of range or fail in the middle of an operation, within the lifetimes the documentation gives, performs no invalid memory access or undefined behaviour inside the bindings. Every native object created (controls, solve handles, syntax tree references, registered callbacks) is released exactly once and never used afterwards.",
 ["histories","fault_sequences"],"all object lifetimes and misuse histories of the public interfaces",
 "The tests pass without any memory checking and never drop objects in unusual orders; memory errors are invisible to value assertions.",
 [HH,LUA,PY+"_internal.py",PY+"ast.py","libpyclingo/_clingo.c","libpyclingo/pyclingo.c"],
 [("RAII in Clingo::Control/SolveHandle/AST::Node",HH),("gc metamethods, AnyWrap",LUA),("__del__, acquire/release",PY+"ast.py")],
 ["sanitizer reports","ledger of native create/acquire/release calls"])

p("P19","Diagnostics reach the user completely, classified, and within limits",
 "Every warning and error about a program is delivered to the given logger (or to stderr) with its code and a message naming the file, line and column range of the offending text, and a failing operation raises an error rather than continuing. No more messages than the message limit are delivered, a program without problems produces none, and a syntactically or semantically broken program is never silently accepted.",
 ["inputs","programs"],"all single and combined defects placed anywhere in multi-file programs, with all limits",
 "Tests trigger one message of a few kinds at fixed positions.",
 [PY+"core.py",HH,LUA,"libgringo/gringo/logger.hh","libgringo/src/input/nongroundparser.cc"],
 [("Logger/MessageCode",PY+"core.py"),("Logger callback",HH),("lua_logger_callback",LUA),("Logger","libgringo/gringo/logger.hh")],
 ["(code, message) pairs delivered and exceptions raised"])

p("P20","Theory extensions are driven through their life cycle in order",
 "A theory loaded through the theory interface is registered, configured, and asked to rewrite, prepare, report models and statistics exactly as the host program requests and with the values the host supplied; symbols and assignments it reports are read back unchanged for every type (symbol, integer, float). Every syntax tree the host passes in reaches the theory, every tree the theory emits reaches the host, and the theory is destroyed exactly once.",
 ["inputs","histories"],"all values, symbols, options and rewritten statements exchanged between host and a theory library",
 "There is no theory library in the tests at all, so this interface is untested.",
 [PY+"theory.py"],
 [("Theory",PY+"theory.py")],
 ["call log of a theory library written for the check"])

p("P21","Control state and values behave alike and as values in every interface",
 "In every interface, the constants, the conflicting state, the clean-up and enumeration-assumption switches, interrupts, results, and lower bounds of a control report exactly what the program, the options and the calls so far imply. Clauses and nogoods added during a search, in any encoding of their literals and including atoms that do not exist, hold for all later models and exclude no others. Sequences, slices, iterators, spans, tagged values, comparison operators and printing behave like those of plain lists and values, callbacks that are not overridden do nothing, and arguments that do not fit are refused with an error.",
 ["histories","inputs"],"all sequences of control calls, clause encodings, indices, slices and operand pairs",
 "Tests read a handful of these properties once with fixed values; slicing, iterator arithmetic, defaults and argument errors are hardly touched.",
 ["libclingo/clingo.hh",PY+"control.py",PY+"util.py",PY+"core.py",PY+"solving.py","libluaclingo/luaclingo.cc"],
 [("Slice, SlicedSequence",PY+"util.py"),("iterators, Span, Variant","libclingo/clingo.hh"),("ControlWrap, luaToLits, luaPushKwArg","libluaclingo/luaclingo.cc")],
 ["results of all operations vs. models of lists, switches, constants and clause sets"])

p("P30","Grounding preserves the answer sets of the input program",
 "For every safe program of the input language, the ground program produced has, restricted to the program's atoms, exactly the answer sets defined by the language semantics for the instantiated input program, including arithmetic, intervals, pools, comparisons, conditional literals, all aggregates in heads and bodies, disjunctions, strong negation, choice rules, externals, show, minimize and project statements. This holds independent of statement order, variable names and grounding-time simplifications.",
 ["programs"],"all safe programs over small domains; all statement permutations and renamings",
 "The test suites ground a fixed list of programs (and only in full builds); semantics preservation quantifies over all programs.",
 ["libgringo/src/ground/","libgringo/src/input/","libgringo/src/output/","libgringo/src/term.cc"],
 [("instantiation","libgringo/src/ground/instantiation.cc, statements.cc, literals.cc"),("rewriting and simplification","libgringo/src/input/*.cc"),("translation of aggregates","libgringo/src/output/*.cc")],
 ["answer sets of emitted ground programs vs. a reference evaluator"])

p("P31","All output formats describe the same ground program",
 "The ground program written as text, as intermediate format and as reified facts describes one and the same logic program: read back in, each has the same answer sets over the shown atoms, the same costs and the same directives as the others. The output is well formed for its format's readers for every symbol, string and number, and the same input always produces the same output.",
 ["programs","configurations"],"all programs x output formats x reify options",
 "Tests compare fixed expected strings for a few programs in one format each.",
 ["libgringo/gringo/output/","libgringo/src/output/","libreify/"],
 [("OutputBase/Backend","libgringo/src/output/output.cc"),("Reifier","libreify/reify/program.hh")],
 ["files written in each format, re-read by independent readers"])

p("P32","Arithmetic and term evaluation follow the language definition",
 "Every ground arithmetic expression over integers evaluates to the value given by two's complement 32-bit arithmetic (comparisons and matching are exact as long as no intermediate result overflows) with the language's operators (addition, subtraction, multiplication, division, modulo, powers, bitwise operators, absolute value, intervals and pools); undefined operations make just the affected instance disappear with an information message. Matching a variable term such as a linear expression against values binds exactly the solutions, and simplification and constant folding never change which instances exist.",
 ["inputs"],"all expressions up to a size over boundary and random integers, symbols and pools",
 "Tests evaluate a few dozen fixed expressions away from boundary values.",
 ["libgringo/src/term.cc","libgringo/gringo/term.hh"],
 [("UnOpTerm/BinOpTerm/LinearTerm/DotsTerm","libgringo/src/term.cc")],
 ["atoms derived for generated expressions vs. reference arithmetic"])

p("P33","No input text can crash the parsers or the grounder",
 "Whatever bytes are given as a program, term, file or script-free input, the engine either accepts it or reports an error through the logger and an error status; it never performs an invalid memory access, undefined behaviour, assertion failure, unbounded recursion on short inputs or leak. After an error the same process can parse and ground other inputs with unaffected results.",
 ["inputs","fault_sequences"],"all byte strings (mutated programs, truncated constructs, deep nesting, invalid numbers and encodings)",
 "Unit tests feed well-formed text and a few fixed syntax errors, without sanitizers.",
 ["libgringo/src/input/nongroundgrammar.yy","libgringo/src/input/nongroundlexer.xch","libgringo/src/input/groundtermparser.cc","libclingo/src/astv2_parse.cc"],
 [("NonGroundParser","libgringo/src/input/nongroundparser.cc"),("error recovery in the grammar","libgringo/src/input/nongroundgrammar.yy")],
 ["sanitizer reports, exit states"])

p("P34","Exactly the safe programs are accepted for grounding",
 "A program is grounded only if every variable of every statement is bound by a positive body occurrence (through predicates, solvable equations or intervals) in its scope, and otherwise rejected with an error naming precisely the unsafe variables and their locations. Acceptance does not depend on the order of literals, on variable names or on other statements.",
 ["programs"],"all rules over binding patterns, assignments, aggregates, conditional literals and nested scopes",
 "Tests list a few safe and unsafe rules.",
 ["libgringo/gringo/safetycheck.hh","libgringo/src/input/statement.cc","libgringo/src/ground/"],
 [("SafetyChecker","libgringo/gringo/safetycheck.hh"),("check levels","libgringo/src/input/statement.cc")],
 ["acceptance and reported variables vs. an independent safety checker"])

p("P35","Incremental grounding equals grounding everything at once",
 "Grounding program parts over several steps, with parameters and externals, gives at each step the same answer sets as grounding the union of the parts at once whenever the parts are modular; no instance is lost, repeated in conflicting form, or created for parts that were not requested. Externals and atoms defined in later steps keep one identity throughout.",
 ["histories","programs"],"all splits of modular programs into parameterised parts and grounding orders",
 "Tests ground a few fixed incremental examples.",
 ["libgringo/src/ground/program.cc","libgringo/gringo/domain.hh","libgringo/src/output/output.cc"],
 [("domain generations, incNext","libgringo/gringo/domain.hh"),("Program::ground","libgringo/src/ground/program.cc")],
 ["answer sets step by step vs. single-shot"])

p("P36","Reified output encodes the ground program faithfully",
 "The facts produced by reification encode exactly the ground program: decoding them yields the same rules, sums, minimize statements, outputs, externals, heuristics, edges, assumptions and theory data as the intermediate format, identical tuples share identifiers and distinct ones do not. With the component option exactly the non-trivial strongly connected components of the positive dependency graph are reported, and with the step option every fact carries the step in which it was introduced.",
 ["programs","configurations"],"all intermediate-format programs x reification options, including multi-step ones",
 "Tests compare a few fixed fact lists; sharing and components depend on arbitrary graphs.",
 ["libreify/reify/program.hh","libreify/src/program.cc","libgringo/gringo/graph.hh"],
 [("Reifier, tuple hashing, SCC computation","libreify/reify/program.hh")],
 ["facts decoded by an independent reader"])

p("P37","Unpooling and engine-side syntax trees preserve meaning",
 "Removing pools from a syntax tree yields trees without pools that together have the same answer sets as the original statement, and statements parsed to trees inside the engine and added back are grounded identically to direct parsing. Tree printing chooses parentheses and quoting such that the printed statement always parses back to the same tree.",
 ["programs"],"all statements with pools, nested operators and theory terms",
 "Tests unpool around twenty fixed statements.",
 ["libclingo/src/astv2_unpool.cc","libclingo/src/astv2_str.cc","libclingo/src/astv2_build.cc","libclingo/src/astv2_parse.cc"],
 [("unpool cross product","libclingo/src/astv2_unpool.cc"),("parse/build","libclingo/src/astv2_parse.cc, astv2_build.cc")],
 ["ground programs of original, unpooled and rebuilt statements"])

p("P38","The core data structures behave like their mathematical models",
 "The engine's interval sets, symbol and tuple hash sets, strongly-connected-component computation and unique-element containers give, under any sequence of operations, exactly the answers of the corresponding mathematical set, map or graph. Integer-equation bounds never exclude a solution and are reported for exactly the variables bounded by propagation. Symbol interning makes equal values identical even when used from several threads.",
 ["histories","inputs","schedules"],"all operation sequences over small key spaces and concurrent symbol creation",
 "Unit tests exercise short fixed operation sequences.",
 ["libgringo/gringo/intervals.hh","libgringo/gringo/hash_set.hh","libgringo/gringo/graph.hh","libgringo/src/symbol.cc","libgringo/gringo/domain.hh","libgringo/src/term.cc"],
 [("IntervalSet","libgringo/gringo/intervals.hh"),("Graph::tarjan","libgringo/gringo/graph.hh"),("IESolver","libgringo/src/term.cc"),("symbol tables","libgringo/src/symbol.cc")],
 ["operation results vs. models"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
