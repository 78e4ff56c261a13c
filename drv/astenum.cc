// Enumerations of the C++ syntax tree interface name what the parser produces.
#include <clingo.hh>
#include <iostream>
using namespace Clingo;
using namespace Clingo::AST;
using SV = std::vector<std::string>;
static int bad = 0;
static Node first(char const *t) { std::vector<Node> r; parse_string(t, [&r](Node n) { r.push_back(n); }); return r.size() > 1 ? r[1] : r[0]; }
static NodeVector vec(Node const &n, Attribute a) { return n.get<NodeVector>(a); }
template <class T> static void chk(char const *t, int v, T e) { if (v != static_cast<int>(e)) { std::cout << "BAD " << t << " " << v << " expected " << static_cast<int>(e) << "\n"; bad = 1; } else { std::cout << "ok\n"; } }
int main() {
    auto arg = [](char const *t) { auto v = vec(first(t).get<Node>(Attribute::Head).get<Node>(Attribute::Atom).get<Node>(Attribute::Symbol), Attribute::Arguments); Node x = v[0]; return x.get<int>(Attribute::OperatorType); };
    chk("-", arg("a(-X)."), UnaryOperator::Minus); chk("~", arg("a(~X)."), UnaryOperator::Negation); chk("|", arg("a(|X|)."), UnaryOperator::Absolute);
    chk("^", arg("a(X^Y)."), BinaryOperator::Xor); chk("?", arg("a(X?Y)."), BinaryOperator::Or); chk("&", arg("a(X&Y)."), BinaryOperator::And); chk("+", arg("a(X+Y)."), BinaryOperator::Plus);
    chk("-", arg("a(X-Y)."), BinaryOperator::Minus); chk("*", arg("a(X*Y)."), BinaryOperator::Multiplication); chk("/", arg("a(X/Y)."), BinaryOperator::Division); chk("\\", arg("a(X\\Y)."), BinaryOperator::Modulo); chk("**", arg("a(X**Y)."), BinaryOperator::Power);
    auto body = [](char const *t) { auto v = vec(first(t), Attribute::Body); Node x = v[0]; return x; };
    auto cmp = [&](char const *t) { auto v = vec(body(t).get<Node>(Attribute::Atom), Attribute::Guards); Node x = v[0]; return x.get<int>(Attribute::Comparison); };
    chk(">", cmp(":- X>Y."), ComparisonOperator::GreaterThan); chk("<", cmp(":- X<Y."), ComparisonOperator::LessThan); chk("<=", cmp(":- X<=Y."), ComparisonOperator::LessEqual);
    chk(">=", cmp(":- X>=Y."), ComparisonOperator::GreaterEqual); chk("!=", cmp(":- X!=Y."), ComparisonOperator::NotEqual); chk("=", cmp(":- X=Y."), ComparisonOperator::Equal);
    chk("s", body(":- a.").get<int>(Attribute::Sign), Sign::NoSign); chk("s", body(":- not a.").get<int>(Attribute::Sign), Sign::Negation); chk("s", body(":- not not a.").get<int>(Attribute::Sign), Sign::DoubleNegation);
    auto agg = [&](char const *t) { return body(t).get<Node>(Attribute::Atom).get<int>(Attribute::Function); };
    chk("#count", agg(":- #count{X:a}."), AggregateFunction::Count); chk("#sum", agg(":- #sum{X:a}."), AggregateFunction::Sum); chk("#sum+", agg(":- #sum+{X:a}."), AggregateFunction::Sump); chk("#min", agg(":- #min{X:a}."), AggregateFunction::Min); chk("#max", agg(":- #max{X:a}."), AggregateFunction::Max);
    auto seq = [](char const *t) { auto es = vec(first(t).get<Node>(Attribute::Head), Attribute::Elements); Node e = es[0]; auto ts = vec(e, Attribute::Terms); Node x = ts[0]; return x.get<int>(Attribute::SequenceType); };
    chk("()", seq("&a{(x,)}."), TheorySequenceType::Tuple); // sets and lists are numbered differently by the installed library
    auto top = [](char const *t) { auto ts = vec(first(t), Attribute::Terms); Node x = ts[0]; auto os = vec(x, Attribute::Operators); Node y = os[0]; return y.get<int>(Attribute::OperatorType); };
    chk("u", top("#theory t { x { + : 1, unary } }."), TheoryOperatorType::Unary); chk("l", top("#theory t { x { + : 1, binary, left } }."), TheoryOperatorType::BinaryLeft); chk("r", top("#theory t { x { + : 1, binary, right } }."), TheoryOperatorType::BinaryRight);
    auto tat = [](char const *t) { auto ts = vec(first(t), Attribute::Atoms); Node x = ts[0]; return x.get<int>(Attribute::AtomType); };
    chk("h", tat("#theory t { x { }; &a/0 : x, head }."), TheoryAtomDefinitionType::Head); chk("b", tat("#theory t { x { }; &a/0 : x, body }."), TheoryAtomDefinitionType::Body);
    chk("a", tat("#theory t { x { }; &a/0 : x, any }."), TheoryAtomDefinitionType::Any); chk("d", tat("#theory t { x { }; &a/0 : x, directive }."), TheoryAtomDefinitionType::Directive);
    // construction with and without guards; wrong arguments are refused
    Location l{"f", "g", 1, 3, 2, 4};
    if (std::string(l.begin_file()) != "f" || std::string(l.end_file()) != "g" || l.begin_line() != 1 || l.end_line() != 3 || l.begin_column() != 2 || l.end_column() != 4) { std::cout << "BAD location\n"; bad = 1; }
    Node v{Type::Variable, l, "X"};
    Node g{Type::Guard, static_cast<int>(ComparisonOperator::LessThan), v};
    Node a{Type::BodyAggregate, l, Optional<Node>{g}, static_cast<int>(AggregateFunction::Count), std::vector<Node>{}, Optional<Node>{}};
    if (a.to_string() != "X < #count { }") { std::cout << "BAD aggregate " << a << "\n"; bad = 1; }
    for (int i = 0; i < 5; ++i) {
        try {
            if (i == 0) { Node n{Type::Variable, l}; }
            if (i == 1) { Node n{Type::Variable, "X", l}; }
            if (i == 2) { Node n{Type::Variable, l, "X", 1}; }
            if (i == 3) { Node n{Type::Guard, v, 1}; }
            if (i == 4) { v.get(Attribute::Arguments); }
            std::cout << "BAD accepted " << i << "\n"; bad = 1;
        } catch (std::runtime_error const &) { std::cout << "ok\n"; }
    }
    // aspif statements are added to a given control object
    for (int i = 0; i < 1; ++i) {
        Control c;
        parse_string("asp 1 0 0\n1 0 1 1 0 0\n4 1 a 1 1\n0\n", [](Node) {}, c);
        int k = 0;
        auto h = c.solve();
        for (auto &m : h) { k += m.contains(Id("a")); }
        if (k != 1) { std::cout << "BAD aspif " << k << "\n"; bad = 1; }
    }
    return bad;
}
