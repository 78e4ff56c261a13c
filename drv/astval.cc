// Syntax trees as values through the C++ interface: random histories against plain containers.
#include <clingo.hh>
#include <iostream>
#include <random>
#include <algorithm>
#include <set>
#include <unordered_set>
using namespace Clingo;
using namespace Clingo::AST;
using S = std::string;
static std::mt19937 rng;
static int rnd(int n) { return n <= 0 ? 0 : static_cast<int>(rng() % n); }
static long events = 0;
static std::set<S> seen;
static void bad(S const &k, S const &w) { if (seen.insert(k).second) { std::cout << "BAD " << k << " " << w << "\n"; } }
#define CHECK(c, k) do { ++events; if (!(c)) { bad(k, #c); } } while (false)
template <class F> static void throws(F f, char const *k) { ++events; try { f(); bad(k, "no error"); } catch (std::exception const &) { } }
static Location L{"a", "b", 1, 2, 3, 4};
static Node var(S const &n) { return Node{Type::Variable, L, n.c_str()}; }
static Node num(int n) { return Node{Type::SymbolicTerm, L, Number(n)}; }
static Node fun(S const &n, std::vector<Node> a) { return Node{Type::Function, L, n.c_str(), a, 0}; }
static Node rnode(int d) {
    switch (rnd(d > 0 ? 5 : 2)) {
        case 0: return var(S("X") + std::to_string(rnd(4)));
        case 1: return num(rnd(5));
        case 2: { std::vector<Node> a; for (int n = rnd(4); n > 0; --n) { a.push_back(rnode(d - 1)); } return fun("f", a); }
        case 3: return Node{Type::BinaryOperation, L, static_cast<int>(BinaryOperator::Plus), rnode(d - 1), rnode(d - 1)};
        default: return Node{Type::UnaryOperation, L, static_cast<int>(UnaryOperator::Minus), rnode(d - 1)};
    }
}

static void vectors() {
    Node owner = fun("g", {});
    auto v = owner.get<NodeVector>(Attribute::Arguments);
    auto other = owner.get<NodeVector>(Attribute::Arguments);   // a second view of the same sequence
    std::vector<Node> m;
    for (int step = 0; step < 60; ++step) {
        Node x = rnode(1);
        size_t n = m.size(), i = rnd(n);
        switch (rnd(13)) {
            case 0: v.push_back(x); m.push_back(x); break;
            case 1: { auto j = rnd(n + 1); auto it = v.insert(v.begin() + j, x); m.insert(m.begin() + j, x); CHECK((*it).get().to_c() == x.to_c(), "insert-iterator"); break; }
            case 2: if (n) { v[i] = x; m[i] = x; } break;
            case 3: if (n) { auto it = v.begin(); it += i; v.set(it, x); m[i] = x; } break;
            case 4: if (n) { auto it = v.erase(v.begin() + i); m.erase(m.begin() + i); CHECK(static_cast<size_t>(it - v.begin()) == i, "erase-iterator"); } break;
            case 5: if (n) { v.pop_back(); m.pop_back(); } break;
            case 6: if (rnd(5) == 0) { v.clear(); m.clear(); } break;
            case 7: { auto it = v.begin(); for (size_t k = 0; k < n; ++k, ++it) { if (rnd(3) == 0) { *it = x; m[k] = x; } } break; }
            case 8: throws([&]() { static_cast<NodeVector const &>(v)[n]; }, "oob-get"); break;
            case 10: { Node o = fun("h", m); owner.set(Attribute::Arguments, o.get(Attribute::Arguments)); break; }
            case 11: { owner.set(Attribute::Arguments, owner.get(Attribute::Arguments)); break; }
            default: if (n) { v.push_back(v[i]); m.push_back(m[i]); }
        }
        CHECK(v.size() == m.size() && other.size() == m.size() && v.empty() == m.empty(), "vec-size");
        auto const &cv = v;
        size_t k = 0;
        for (Node y : cv) { CHECK(k < m.size() && y.to_c() == m[k].to_c(), "vec-iterate"); ++k; }
        CHECK(k == m.size(), "vec-iterate-count");
        k = 0;
        for (auto y : v) { CHECK(k < m.size() && y.get().to_c() == m[k].to_c(), "vec-iterate-ref"); ++k; }
        for (k = 0; k < m.size(); ++k) { CHECK(cv[k].to_c() == m[k].to_c() && cv.at(k)->to_c() == m[k].to_c() && v.at(k)->get().to_c() == m[k].to_c() && static_cast<Node>(v[k]) == m[k], "vec-index"); }
        auto b = cv.begin(), e = cv.end();
        CHECK(static_cast<size_t>(e - b) == m.size() && (b == e) == m.empty() && (b != e) == !m.empty() && (b < e) == !m.empty() && b <= e && e >= b && (e > b) == !m.empty(), "iterators");
        if (!m.empty()) {
            auto it = e; --it; CHECK((*it).to_c() == m.back().to_c(), "iterator--");
            CHECK((*(b + rnd(1))).to_c() == m[0].to_c() && (*b).to_c() == m[0].to_c() && it->to_c() == m.back().to_c(), "iterator+");
            auto p = it--; CHECK((*p).to_c() == m.back().to_c() && p - it == 1, "iterator post--"); auto q = it++; CHECK(it == p && q != p, "iterator post++");
            it -= (m.size() - 1); CHECK(it == b && (1 + it) - it == 1 && (it + 1) - 1 == it, "iterator-="); swap(p, it); CHECK(p == b, "iterator swap");
            auto f = std::find_if(b, e, [&](Node y) { return y.to_c() == m.back().to_c(); }); CHECK(f != e, "find_if");
        }
        CHECK(owner == fun("g", m) && owner.to_string() == fun("g", m).to_string(), "owner");
        CHECK(v.ast().to_c() == owner.to_c(), "vec-ast");
    }
}

static void strings() {
    Node owner{Type::TheoryUnparsedTermElement, std::vector<char const *>{"+", "-"}, var("X")};
    auto v = owner.get<StringVector>(Attribute::Operators);
    std::vector<S> m{"+", "-"};
    char const *pool[] = {"*", "<=", "", "a b", "\xc3\xbc", "??"};
    for (int step = 0; step < 60; ++step) {
        char const *x = pool[rnd(6)];
        size_t n = m.size(), i = rnd(n);
        switch (rnd(11)) {
            case 0: case 1: v.push_back(x); m.push_back(x); break;
            case 2: { auto j = rnd(n + 1); v.insert(v.begin() + j, x); m.insert(m.begin() + j, x); break; }
            case 3: if (n) { v[i] = x; m[i] = x; } break;
            case 4: if (n) { v.set(v.begin() + i, x); m[i] = x; } break;
            case 5: if (n) { v.erase(v.begin() + i); m.erase(m.begin() + i); } break;
            case 6: if (n) { v.pop_back(); m.pop_back(); } break;
            case 7: if (rnd(5) == 0) { v.clear(); m.clear(); } break;
            case 8: { std::vector<char const *> c; for (auto &y : m) { c.push_back(y.c_str()); } Node o{Type::TheoryUnparsedTermElement, c, var("X")}; owner.set(Attribute::Operators, o.get(Attribute::Operators)); CHECK(o == owner, "str-rebuild"); break; }
            case 9: throws([&]() { static_cast<StringVector const &>(v)[n]; }, "str-oob-get"); break;
            default: if (n) { v[0] = v[i].get(); m[0] = S(m[i]); }
        }
        auto const &cv = v;
        CHECK(v.size() == m.size() && v.empty() == m.empty() && cv.end() - cv.begin() == static_cast<ptrdiff_t>(m.size()), "str-size");
        size_t k = 0;
        for (char const *y : cv) { CHECK(k < m.size() && m[k] == y, "str-iterate"); ++k; }
        for (k = 0; k < m.size(); ++k) { CHECK(m[k] == cv[k] && m[k] == *cv.at(k) && m[k] == v[k].get() && m[k] == static_cast<char const *>(v[k]), "str-index"); }
    }
}

static void attributes() {
    Node n = var("X");
    n.set(Attribute::Name, static_cast<char const *>("Y")); CHECK(S(n.get<char const *>(Attribute::Name)) == "Y", "set-string");
    Location l{"p", "q", 11, 12, 13, 14};
    n.set(Attribute::Location, l);
    auto g = n.get<Location>(Attribute::Location);
    CHECK(S(g.begin_file()) == "p" && S(g.end_file()) == "q" && g.begin_line() == 11 && g.end_line() == 12 && g.begin_column() == 13 && g.end_column() == 14, "set-location");
    Node s = num(1); s.set(Attribute::Symbol, Function("f", {Number(2)})); CHECK(s.get<Symbol>(Attribute::Symbol) == Function("f", {Number(2)}) && s.to_string() == "f(2)", "set-symbol");
    Node u{Type::UnaryOperation, L, static_cast<int>(UnaryOperator::Minus), var("X")};
    u.set(Attribute::OperatorType, static_cast<int>(UnaryOperator::Negation)); CHECK(u.to_string() == "~X" && u.get<int>(Attribute::OperatorType) == static_cast<int>(UnaryOperator::Negation), "set-number");
    u.set(Attribute::Argument, n); CHECK(u.get<Node>(Attribute::Argument).to_c() == n.to_c() && u.to_string() == "~Y", "set-node");
    n.set(Attribute::Name, static_cast<char const *>("Z")); CHECK(u.to_string() == "~Z", "shared-child");
    Node gd{Type::Guard, static_cast<int>(ComparisonOperator::LessThan), num(3)};
    Node a{Type::Aggregate, L, Optional<Node>{}, std::vector<Node>{}, Optional<Node>{}};
    a.set(Attribute::LeftGuard, Optional<Node>{gd}); CHECK(a.get<Optional<Node>>(Attribute::LeftGuard).get() && a.get<Optional<Node>>(Attribute::LeftGuard).get()->to_c() == gd.to_c() && !a.get<Optional<Node>>(Attribute::RightGuard), "set-optional");
    a.set(Attribute::LeftGuard, Optional<Node>{}); CHECK(!a.get<Optional<Node>>(Attribute::LeftGuard), "clear-optional");
    Node e{Type::BodyAggregateElement, std::vector<Node>{var("A"), var("B")}, std::vector<Node>{}};
    e.set(Attribute::Condition, e.get(Attribute::Terms)); CHECK(e.get<NodeVector>(Attribute::Condition).size() == 2 && e.get<NodeVector>(Attribute::Terms).size() == 2, "set-sequence-same-node");
    throws([&]() { n.get(Attribute::Arguments); }, "get-unknown"); throws([&]() { n.set(Attribute::Arguments, 1); }, "set-unknown"); throws([&]() { n.set(Attribute::Name, 1); }, "set-type");
    Optional<Node> o{n}; o = static_cast<Optional<Node> const &>(o); CHECK(o && o->to_c() == n.to_c(), "optional-self");
    Optional<Node> p{o}; CHECK(p && p->to_c() == n.to_c() && o, "optional-copy"); Optional<Node> q{std::move(p)}; CHECK(q && !p, "optional-move"); p = q; CHECK(p && q && *p == *q, "optional-assign"); p.clear(); CHECK(!p && q, "optional-clear"); p = std::move(q); CHECK(p && !q, "optional-moveassign");
}

static Node rename(Node const &n, bool all) {
    if (n.type() == Type::Variable) {
        S s = n.get<char const *>(Attribute::Name);
        if (all || s == "X1") { Node c = n.copy(); c.set(Attribute::Name, (s + "r").c_str()); return c; }
        return n;
    }
    return n.transform_ast([all](Node const &c) { return rename(c, all); });
}
static S mrename(S s, bool all) {
    S r;
    for (size_t i = 0; i < s.size(); ++i) { r += s[i]; if (s[i] == 'X' && i + 1 < s.size()) { char d = s[++i]; r += d; if (all || d == '1') { r += 'r'; } } }
    return r;
}
static bool has(Node const &n) { bool r = false; n.visit_ast([&r](Node const &c) { if (c.type() == Type::Variable && S(c.get<char const *>(Attribute::Name)) == "X1") { r = true; } return !r; }); return r; }
static void shared(Node const &a, Node const &b) {
    // unchanged children are shared with the original, changed ones are not
    a.visit_attribute([&](Attribute at, NodeValue v) {
        auto cmp = [](Node const &x, Node const &y) { if (has(x)) { CHECK(x.to_c() != y.to_c(), "transform-changed"); shared(x, y); } else { CHECK(x.to_c() == y.to_c(), "transform-shared"); } };
        if (v.is<Node>()) { cmp(v.get<Node>(), b.get<Node>(at)); }
        else if (v.is<Optional<Node>>()) { auto w = b.get<Optional<Node>>(at); CHECK(!v.get<Optional<Node>>() == !w, "transform-optional"); if (w && v.get<Optional<Node>>()) { cmp(*v.get<Optional<Node>>(), *w); } }
        else if (v.is<NodeVector>()) { auto const &x = v.get<NodeVector>(); auto const y = b.get<NodeVector>(at); CHECK(x.size() == y.size(), "transform-size"); for (size_t i = 0; i < x.size() && i < y.size(); ++i) { cmp(x[i], y[i]); } }
    });
}
static void transforms() {
    Node n = rnode(4);
    if (rnd(2)) {
        Node g{Type::Guard, static_cast<int>(ComparisonOperator::LessEqual), rnode(2)}, h{Type::Guard, static_cast<int>(ComparisonOperator::LessEqual), rnode(2)};
        Node e{Type::BodyAggregateElement, std::vector<Node>{rnode(2), rnode(2)}, std::vector<Node>{}};
        n = Node{Type::BodyAggregate, L, rnd(2) ? Optional<Node>{g} : Optional<Node>{}, static_cast<int>(AggregateFunction::Sum), std::vector<Node>{e, e.deep_copy()}, rnd(2) ? Optional<Node>{h} : Optional<Node>{}};
    }
    S before = n.to_string();
    Node d = n.deep_copy();
    Node r = rename(n, false);
    CHECK(n.to_string() == before && n == d, "transform-original");
    CHECK(r.to_string() == mrename(before, false), "transform-result");
    CHECK((r.to_c() == n.to_c()) == !has(n), "transform-identity");
    if (has(n) && n.type() != Type::Variable) { shared(n, r); }
    CHECK(rename(n, true).to_string() == mrename(before, true), "transform-all");
    int count = 0; n.visit_ast([&count](Node const &) { ++count; return true; });
    int c2 = 0; struct R { static void go(Node const &x, int &c) { ++c; x.transform_ast([&c](Node const &y) { go(y, c); return y; }); } }; R::go(n, c2);
    CHECK(count == c2, "visit-count");
}
static void copies() {
    Node c = rnode(2), n = fun("f", {c, rnode(2)});
    Node s = n.copy(), d = n.deep_copy();
    CHECK(s == n && d == n && s.hash() == n.hash() && d.hash() == n.hash() && s.to_c() != n.to_c() && d.to_c() != n.to_c() && s.to_c() != d.to_c(), "copy-equal");
    auto sv = s.get<NodeVector>(Attribute::Arguments), dv = d.get<NodeVector>(Attribute::Arguments);
    CHECK(static_cast<Node>(sv[0]).to_c() == c.to_c() && static_cast<Node>(dv[0]).to_c() != c.to_c(), "copy-sharing");
    sv.push_back(var("N")); CHECK(n.get<NodeVector>(Attribute::Arguments).size() == 2 && s != n && d == n, "copy-independent");
    s.set(Attribute::Name, static_cast<char const *>("g")); CHECK(S(n.get<char const *>(Attribute::Name)) == "f", "copy-attribute");
    Node a = n; CHECK(a.to_c() == n.to_c(), "handle-copy"); Node b = std::move(a); CHECK(b.to_c() == n.to_c(), "handle-move"); a = b; CHECK(a.to_c() == n.to_c() && b.to_c() == n.to_c(), "handle-assign"); a = static_cast<Node const &>(a); CHECK(a.to_c() == n.to_c(), "handle-self"); Node z = d; z = std::move(b); CHECK(z.to_c() == n.to_c(), "handle-moveassign");
    // containers
    std::vector<Node> v; for (int i = 0; i < 12; ++i) { v.push_back(rnode(1)); }
    std::set<Node> o(v.begin(), v.end()); std::unordered_set<Node> h(v.begin(), v.end()); std::set<S> t; for (auto &x : v) { t.insert(std::to_string(static_cast<int>(x.type())) + x.to_string()); }
    CHECK(o.size() == t.size() && h.size() == t.size(), "containers");
    for (auto &x : v) { for (auto &y : v) { CHECK((x == y) == (x.type() == y.type() && x.to_string() == y.to_string()) && (x < y) + (y < x) + (x == y) == 1 && (x <= y) == !(y < x) && (x > y) == (y < x) && (x >= y) == !(x < y) && (x != y) == !(x == y), "relations"); } }
    Node l1{Type::Variable, L, "X"}, l2{Type::Variable, Location{"zz", "zz", 9, 9, 9, 9}, "X"}; CHECK(l1 == l2 && l1.hash() == l2.hash() && !(l1 < l2) && !(l2 < l1), "locations-ignored");
}
int main(int argc, char **argv) {
    rng.seed(atoi(argv[1]));
    int n = atoi(argv[2]);
    for (int i = 0; i < n; ++i) { vectors(); strings(); attributes(); transforms(); transforms(); transforms(); copies(); }
    std::cout << "events " << events << "\n";
    return seen.empty() ? 0 : 1;
}
