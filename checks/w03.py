"""Enumerations and value types of the Python syntax tree interface."""
import vf, copy
from clingo import ast, Control, Number, Function
from clingo.ast import *

w = vf.Worker()
w.begin("enumerations")


def get(text, *path):
    r = []
    ast.parse_string(text, r.append)
    x = r[1] if len(r) > 1 else r[0]
    for p in path: x = x[p] if isinstance(p, int) else getattr(x, p)
    return x


T = [
    ("a(-X).", "head.atom.symbol.arguments.0.operator_type", UnaryOperator.Minus), ("a(~X).", "head.atom.symbol.arguments.0.operator_type", UnaryOperator.Negation),
    ("a(|X|).", "head.atom.symbol.arguments.0.operator_type", UnaryOperator.Absolute),
    *[("a(X%sY)." % s, "head.atom.symbol.arguments.0.operator_type", o) for s, o in [("^", BinaryOperator.XOr), ("?", BinaryOperator.Or), ("&", BinaryOperator.And), ("+", BinaryOperator.Plus), ("-", BinaryOperator.Minus), ("*", BinaryOperator.Multiplication), ("/", BinaryOperator.Division), ("\\", BinaryOperator.Modulo), ("**", BinaryOperator.Power)]],
    *[(":- X%sY." % s, "body.0.atom.guards.0.comparison", o) for s, o in [(">", ComparisonOperator.GreaterThan), ("<", ComparisonOperator.LessThan), ("<=", ComparisonOperator.LessEqual), (">=", ComparisonOperator.GreaterEqual), ("!=", ComparisonOperator.NotEqual), ("=", ComparisonOperator.Equal)]],
    *[(":- %sa." % s, "body.0.sign", o) for s, o in [("", Sign.NoSign), ("not ", Sign.Negation), ("not not ", Sign.DoubleNegation)]],
    *[(":- %s{X:a}." % s, "body.0.atom.function", o) for s, o in [("#count", AggregateFunction.Count), ("#sum", AggregateFunction.Sum), ("#sum+", AggregateFunction.SumPlus), ("#min", AggregateFunction.Min), ("#max", AggregateFunction.Max)]],
    *[("&a{%sx%s}." % s, "head.elements.0.terms.0.sequence_type", o) for s, o in [(("(", ",)"), TheorySequenceType.Tuple)]],   # sets and lists are numbered differently by the installed library
    *[("#theory t { x { + : 1, %s } }." % s, "terms.0.operators.0.operator_type", o) for s, o in [("unary", TheoryOperatorType.Unary), ("binary, left", TheoryOperatorType.BinaryLeft), ("binary, right", TheoryOperatorType.BinaryRight)]],
    *[("#theory t { x { }; &a/0 : x, %s }." % s, "atoms.0.atom_type", o) for s, o in [("head", TheoryAtomType.Head), ("body", TheoryAtomType.Body), ("any", TheoryAtomType.Any), ("directive", TheoryAtomType.Directive)]],
]
for text, path, e in T:
    v = get(text, *[int(p) if p.isdigit() else p for p in path.split(".")])
    w.case((text, path), sample=(text, path, str(e)))
    if v != e or v != e.value or type(e)(v) is not e: w.viol("enum", f"{text}: {path} is {v} expected {e!r}")
# using enumerators when building gives the statements they name
LOC = Location(Position("f", 1, 2), Position("g", 3, 4))
v = lambda n: Variable(LOC, n)
B = [(str(UnaryOperation(LOC, UnaryOperator.Minus, v("X"))), "-X"), (str(UnaryOperation(LOC, UnaryOperator.Negation, v("X"))), "~X"), (str(UnaryOperation(LOC, UnaryOperator.Absolute, v("X"))), "|X|"),
     *[(str(BinaryOperation(LOC, o, v("X"), v("Y"))), "(X%sY)" % s) for s, o in [("^", BinaryOperator.XOr), ("?", BinaryOperator.Or), ("&", BinaryOperator.And), ("+", BinaryOperator.Plus), ("-", BinaryOperator.Minus), ("*", BinaryOperator.Multiplication), ("/", BinaryOperator.Division), ("\\", BinaryOperator.Modulo), ("**", BinaryOperator.Power)]],
     (str(Interval(LOC, v("X"), v("Y"))), "(X..Y)"), (str(Pool(LOC, [v("X"), v("Y")])), "(X;Y)"), (str(Function(LOC, "f", [v("X"), SymbolicTerm(LOC, Number(3))], 0)), "f(X,3)"), (str(Function(LOC, "f", [v("X")], 1)), "@f(X)"),
     (str(Literal(LOC, Sign.DoubleNegation, SymbolicAtom(Function(LOC, "p", [], False)))), "not not p"), (str(BooleanConstant(1)), "#true"), (str(BooleanConstant(0)), "#false"),
     (str(Defined(LOC, "p", 2, 0)), "#defined -p/2."), (str(ShowSignature(LOC, "p", 2, 1)), "#show p/2."), (str(ProjectSignature(LOC, "p", 0, True)), "#project p/0."),
     (str(Program(LOC, "base", [Id(LOC, "x"), Id(LOC, "y")])), "#program base(x, y)."), (str(Script(LOC, "lua", "x = 1")), None),
     (str(Edge(LOC, v("X"), v("Y"), [])), "#edge (X,Y)."), (str(TheoryFunction(LOC, "f", [v("X")])), "f(X)"),
     (str(Definition(LOC, "k", SymbolicTerm(LOC, Number(1)), True)), "#const k = 1."), (str(Definition(LOC, "k", SymbolicTerm(LOC, Number(1)), False)), None)]
for i, (g, e) in enumerate(B):
    w.case(("build", e))
    if e is not None and g != e: w.viol("build", f"built {g!r}, expected {e!r}")
n = v("X")
w.case("location")
if n.location != LOC or n.location.begin.filename != "f" or n.location.end != Position("g", 3, 4) or n.location.begin.line != 1 or n.location.begin.column != 2: w.viol("location", n.location)
n.location = Location(Position("a b", 7, 8), Position("\u00fc", 9, 10))
if n.location != Location(Position("a b", 7, 8), Position("\u00fc", 9, 10)): w.viol("location", n.location)
# parse into a control object: aspif statements are added to it, other statements go to the callback
for how in ("string", "files"):
    w.begin("aspif-" + how)
    w.case("aspif-" + how)
    c = Control()
    l = []
    text = "asp 1 0 0\n1 0 1 1 0 0\n4 1 a 1 1\n0\n"
    try:
        if how == "string": ast.parse_string(text, l.append, c)
        else:
            import tempfile, os
            d = tempfile.mkdtemp()
            with open(d + "/x.aspif", "w") as f: f.write(text)
            ast.parse_files([d + "/x.aspif"], l.append, c)
            os.unlink(d + "/x.aspif")
            os.rmdir(d)
        m = []
        c.solve(on_model=lambda x: m.append(str(x)))
        if m != ["a"]: w.viol("aspif-" + how, m)
    except RuntimeError as e:
        w.inconclusive("aspif: %s" % e)
w.done()
