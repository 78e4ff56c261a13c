// Random object lifetimes over the C++ interface: copies, moves, self-assignments, early destruction, failing constructors, exceptions
// in the middle of operations. Values are compared with shadows, memory is watched by the sanitizers, native objects by the ledger.
#include <clingo.hh>
#include <iostream>
#include <memory>
#include <random>
#include <set>
using namespace Clingo;
using S = std::string;
static std::mt19937_64 rng;
static long g_events = 0;
static int R(int n) { return n <= 0 ? 0 : int(rng() % n); }
static void bad(S const &k, S const &t) { std::cout << "BAD " << k << " " << t << "\n"; }
template <class F> static void throws(char const *k, F f) {
    try { f(); } catch (std::exception const &) { ++g_events; return; }
    bad(k, "no exception");
}

// ---------------------------------------------------------------- syntax trees
using AST::Node;
struct Slot { Node n; bool has; S s; };
static std::vector<Node> children(Node const &n) {
    std::vector<Node> r;
    n.visit_attribute([&](AST::Attribute, AST::NodeValue v) {
        if (v.is<Node>()) { r.emplace_back(v.get<Node>()); }
        else if (v.is<Optional<Node>>()) { if (auto *p = v.get<Optional<Node>>().get()) { r.emplace_back(*p); } }
        else if (v.is<AST::NodeVector>()) { for (Node x : v.get<AST::NodeVector>()) { r.emplace_back(x); } }
    });
    return r;
}
static char const *g_texts[] = {"a :- b(1,X), not c(X+1).", "{ a(X;Y) : q(X,Y), not not r } <= 3 :- s(|X|..7).", "#show t(X) : p(X).", "&sum { x : y; 1,z } <= 5 :- a.", "#minimize { W@P,X : w(X,W,P) }.",
    "#external e(X) : d(X). [true]", "#theory t { tt { - : 1, unary; + : 2, binary, left }; &a/0 : tt, {<=}, tt, head }.", "a(1..3;f(g)) ; b : c.", "#program p(x,y).", "#const n = 3.", "x :- #count { X,Y : p(X,Y), q ; 1 : r } = N."};
static void asts(int steps) {
    std::vector<Slot> v;
    auto parse = [&]() {
        char const *t = g_texts[R(sizeof(g_texts) / sizeof(*g_texts))];
        AST::parse_string(t, [&](Node x) { if (x.type() != AST::Type::Program || R(4) == 0) { S s = x.to_string(); v.push_back({std::move(x), true, s}); } });
    };
    auto check = [&](Slot &s, char const *w) {
        ++g_events;
        if (s.has && s.n.to_c() == nullptr) { bad(S("ast-lost-") + w, s.s); s.has = false; }
        if (s.has && s.n.to_string() != s.s) { bad(S("ast-value-") + w, s.s + " / " + s.n.to_string()); s.s = s.n.to_string(); }
    };
    auto sync = [](Slot &s) { s.has = s.n.to_c() != nullptr; };
    while (v.empty()) { parse(); }
    for (int k = 0; k < steps; ++k) {
        if (v.size() > 14) { v.erase(v.begin() + R(int(v.size()))); }
        while (v.size() < 2) { parse(); }
        Slot &a = v[R(int(v.size()))], &b = v[R(int(v.size()))];
        switch (R(16)) {
            case 0: parse(); break;
            case 1: { Slot c{a.n, a.has, a.s}; check(c, "copy"); check(a, "copied"); v.push_back(c); break; }
            case 2: { Slot c{std::move(a.n), a.has, a.s}; check(c, "move"); if (a.n.to_c()) { bad("ast-move-source", a.s); } a.has = false; v.push_back(std::move(c)); break; }
            case 3: { a.n = b.n; a.has = b.has; a.s = b.s; check(a, "assign"); check(b, "assigned"); break; }
            case 4: { bool h = b.has; S s = b.s; a.n = std::move(b.n); a.has = h; a.s = s; check(a, "moveassign"); if (&a != &b) { sync(b); if (b.has && b.n.to_c() != a.n.to_c()) { b.s = b.n.to_string(); } } break; }
            case 5: { std::swap(a.n, b.n); std::swap(a.has, b.has); std::swap(a.s, b.s); check(a, "swap"); check(b, "swap"); break; }
            case 6: { if (!a.has) { break; }
                auto c = children(a.n);
                if (c.empty()) { break; }
                Node *p = &c[R(int(c.size()))];
                S s = p->to_string();
                if (R(2)) { a.n = *p; } else { a.n = std::move(*p); }
                a.s = s; check(a, "child"); break; }
            case 7: { if (!a.has || !b.has) { break; }
                bool eq = a.n == b.n;
                if (eq && a.n.hash() != b.n.hash()) { bad("ast-hash", a.s); }
                if (a.n.to_c() == b.n.to_c() && !eq) { bad("ast-eq-self", a.s); }
                if (eq && (a.s != b.s || a.n < b.n || b.n < a.n)) { bad("ast-eq", a.s + " / " + b.s); }
                if (!eq && (a.n < b.n) == (b.n < a.n)) { bad("ast-order", a.s + " / " + b.s); }
                check(a, "cmp"); break; }
            case 8: { std::vector<Node> w; for (auto &x : v) { w.push_back(x.n); } std::rotate(w.begin(), w.begin() + R(int(w.size())), w.end()); w.erase(w.begin() + R(int(w.size())), w.end()); w.insert(w.begin(), w.begin(), w.begin()); std::vector<Node> u = w; u.insert(u.end(), w.begin(), w.end()); for (auto &x : v) { check(x, "vector"); } break; }
            case 9: { if (!a.has) { break; }
                Node c = a.n.copy(), d = a.n.deep_copy();
                if (c != a.n || d != a.n || c.to_c() == a.n.to_c() || d.to_c() == a.n.to_c()) { bad("ast-copies", a.s); }
                Slot t{R(2) ? c : d, true, a.s};
                check(t, "copies"); v.push_back(t); break; }
            case 10: { if (!a.has) { break; }
                Optional<Node> o(a.n), e, f(e);
                o = *o; o = Optional<Node>(o); o = std::move(*o); o = o; f = o; e = std::move(f); o.emplace(*e); f.emplace(a.n); f.clear();
                if (f || !e || !o || o->to_string() != a.s || (*e) != a.n) { bad("optional", a.s); }
                Optional<Optional<S>> oo;
                Optional<S> os(a.s); os = *os; S &r = *os; os = r; os = S(a.s); S q = *os; os.emplace(q.c_str());
                if (*os != a.s) { bad("optional-string", a.s + " / " + *os); }
                check(a, "optional"); break; }
            case 11: { if (!a.has) { break; }
                AST::NodeValue x(a.n), y(1), z(x);
                y = x; x = x; y = y.get<Node>();
                if (!y.is<Node>() || y.get<Node>().to_string() != a.s) { bad("variant", a.s); }
                z = AST::NodeValue(y); z.swap(y); y = std::move(z); x = static_cast<char const *>("x"); x = 7;
                auto *self = &y; y = std::move(*self);
                if (!x.is<int>() || x.get<int>() != 7 || !y.is<Node>() || y.get<Node>() != a.n) { bad("variant2", a.s); }
                throws("variant-cast", [&] { y.get<int>(); });
                throws("variant-cast2", [&] { x.get<Node>(); });
                x.emplace<Node>(y.get<Node>());
                auto c = children(a.n);
                for (auto &i : c) { y = i; x = Optional<Node>(i); }
                while (y.is<Node>() && !children(y.get<Node>()).empty()) { y = children(y.get<Node>())[0]; }
                check(a, "variant"); break; }
            case 12: { if (!a.has) { break; }
                size_t n = 0, m = 0;
                a.n.visit_ast([&](Node const &x) { ++n; (void)x.type(); return true; });
                Node t = a.n.transform_ast([&](Node const &x) { ++m; return x; });
                if (t.to_c() != a.n.to_c()) { bad("transform-identity", a.s); }
                Node u = a.n.transform_ast([&](Node const &x) { return x.deep_copy(); });
                if (u != a.n || m != children(a.n).size() || n < m + 1) { bad("transform-copy", a.s); }
                v.push_back({u, true, v[0].has ? a.s : a.s}); break; }
            case 13: { if (!a.has) { break; } S s = a.s; try { for (auto &x : a.n.unpool()) { v.push_back({x, true, x.to_string()}); } } catch (std::exception const &) { } break; }
            case 14: { if (!a.has) { break; }
                Node d = a.n.deep_copy();
                throws("set-type", [&] { d.set(AST::Attribute::Location, 1); });
                throws("set-unknown", [&] { d.set(AST::Attribute::Code, AST::NodeValue(1)); d.set(AST::Attribute::SequenceType, AST::NodeValue(1)); });
                throws("get-unknown", [&] { d.get(AST::Attribute::Code); d.get(AST::Attribute::SequenceType); });
                throws("build", [&] { Node(AST::Type::Variable, 1, 2, 3); });
                throws("build2", [&] { Node(AST::Type::Variable, d.get<Location>(AST::Attribute::Location), d); });
                if (d.to_string() != a.s) { bad("ast-after-errors", a.s); }
                break; }
            default: { if (!a.has) { break; }
                Node d = a.n.deep_copy();
                d.visit_attribute([&](AST::Attribute at, AST::NodeValue val) {
                    if (!val.is<AST::NodeVector>()) { return; }
                    auto &w = val.get<AST::NodeVector>();
                    size_t n = w.size();
                    throws("vec-range", [&] { AST::NodeVector const &cw = w; (void)cw[n]; });
                    if (n) {
                        Node f = w[0];
                        w.push_back(w[0]); w.insert(w.begin(), w.at(n - 1)->get()); w[0] = w[n]; w.set(w.begin() + 1, f);
                        if (w.size() != n + 2) { bad("vec-size", a.s); }
                        w.erase(w.begin()); w.pop_back();
                        AST::NodeVector w2 = w;
                        d.set(at, w);       // its own vector
                        if (w2.size() != n) { bad("vec-self", a.s); }
                        std::vector<Node> all(w.begin(), w.end());
                        w.clear();
                        if (!w.empty()) { bad("vec-clear", a.s); }
                        for (auto &x : all) { w.push_back(x); }
                        if (!(w[0].get() == f)) { bad("vec-first", a.s); }
                    }
                });
                check(a, "deepcopy");
                break; }
        }
    }
    for (auto &s : v) { check(s, "end"); }
}

// ---------------------------------------------------------------- controls
struct Counter : Propagator { std::shared_ptr<int> n; std::shared_ptr<int> alive; void check(PropagateControl &) override { ++*n; } };
struct Handler : SolveEventHandler {
    int models = 0, finish = 0;
    bool on_model(Model &) override { ++models; return true; }
    void on_finish(SolveResult) override { ++finish; }
};
struct Ctl {
    Ctl(Control c, std::weak_ptr<int> w) : c(std::move(c)), logger(w) {}
    Control c;
    std::weak_ptr<int> logger;
    std::vector<std::unique_ptr<Counter>> props;
    int atoms = 0;
    bool ground = false;
};
struct Boom : std::exception { char const *what() const noexcept override { return "boom"; } };
static std::unique_ptr<Ctl> fresh() {
    auto tok = std::make_shared<int>(1);
    std::weak_ptr<int> w = tok;
    Logger log = [tok](WarningCode, char const *) { ++*tok; };
    tok.reset();
    Control c{{"0"}, std::move(log), 20};
    log = nullptr;
    auto r = std::unique_ptr<Ctl>(new Ctl(std::move(c), w));
    if (w.expired()) { bad("logger-gone", "after construction"); }
    return r;
}
static void models(Ctl &x, S const &w, long expect) {
    Handler h;
    int n = 0;
    bool async = R(3) == 0;
    switch (R(9)) {
        case 0: { auto s = x.c.solve(LiteralSpan{}, nullptr, async, true); for (auto &m : s) { (void)m.symbols(); ++n; } break; }
        case 1: { SolveHandle s; s = x.c.solve(LiteralSpan{}, nullptr, async, true); SolveHandle t(std::move(s)); while (t.next()) { ++n; } s = std::move(t); if (!s.get().is_exhausted()) { bad("exhausted", w); } s.close(); s.close(); break; }
        case 2: { auto s = x.c.solve(LiteralSpan{}, &h, async, false); SolveHandle t; t = std::move(s); t.wait(); t.get(); t.close(); n = h.models; if (h.finish != 1) { bad("finish", w); } break; }
        case 3: { try { auto s = x.c.solve(LiteralSpan{}, nullptr, async, true); for (auto &m : s) { (void)m.number(); throw Boom(); } } catch (Boom const &) {} return; }
        case 4: { auto s = x.c.solve(LiteralSpan{}, nullptr, async, true); s.next(); return; }
        case 5: { auto s = x.c.solve(LiteralSpan{}, nullptr, async, true); s.next(); s.cancel(); s.get(); s.cancel(); return; }
        case 6: { x.c.solve(LiteralSpan{}, &h, async, true); if (h.finish != 1) { bad("finish-dropped", w + std::to_string(h.finish)); } return; }
        case 7: { auto s = x.c.solve(LiteralSpan{}, nullptr, async, true); int k = 0; while (s.model()) { s.resume(); ++k; } n = k; SolveHandle &self = s; s = std::move(self); s.get(); break; }
        default: { auto s = x.c.solve(LiteralSpan{}, &h, true, true); while (!s.wait(0.001)) { } for (auto &m : s) { (void)m.cost(); while (!s.wait(0)) { } ++n; } if (h.models != n || s.wait(0) != true) { bad("handler-models", w); } break; }
    }
    if (n != expect) { bad("models-" + w, std::to_string(n) + " instead of " + std::to_string(expect)); }
    ++g_events;
}
static void controls(int steps) {
    std::vector<std::unique_ptr<Ctl>> v;
    std::vector<std::weak_ptr<int>> loggers;
    auto count = std::make_shared<int>(0);
    for (int k = 0; k < steps; ++k) {
        if (v.empty() || v.size() < 4 && R(4) == 0) { v.push_back(fresh()); v.back()->c.add("base", {}, "{a0}. a(X) :- X = 1..2, undefined(X)."); v.back()->c.ground({{"base", {}}}); v.back()->atoms = 1; continue; }
        auto &x = *v[R(int(v.size()))];
        auto &y = *v[R(int(v.size()))];
        long expect = 1L << x.atoms;
        switch (R(13)) {
            case 0: { if (x.atoms > 5) { break; } S n = "p" + std::to_string(x.atoms); x.c.add(n.c_str(), {}, ("{a" + std::to_string(x.atoms) + "}.").c_str()); x.c.ground({{n.c_str(), {}}}); ++x.atoms; break; }
            case 1: { Control c(std::move(x.c)); x.c = std::move(c); models(x, "moved", expect); break; }
            case 2: { if (&x != &y) { std::swap(x.c, y.c); std::swap(x.atoms, y.atoms); std::swap(x.logger, y.logger); std::swap(x.props, y.props); } break; }
            case 3: { auto w = x.logger; if (w.expired()) { bad("logger-early", "gone"); } size_t i = R(int(v.size())); w = v[i]->logger; v.erase(v.begin() + i); if (!w.expired()) { bad("logger-leak", "alive after the control"); } break; }
            case 4: { auto tok = std::make_shared<int>(0); std::weak_ptr<int> w = tok; throws("bad-args", [&] { Control c{{"--no-such-option"}, [tok](WarningCode, char const *) {}, 20}; }); tok.reset(); if (!w.expired()) { bad("ctor-leak", "logger of a failed construction is alive"); } break; }
            case 5: { if (x.atoms > 5) { break; }
                auto b = x.c.backend(); Backend c(std::move(b)); atom_t a = c.add_atom(Function(("a" + std::to_string(x.atoms)).c_str(), {})); c.rule(true, {a}, {});
                if (R(2)) { b = std::move(c); b.close(); b.close(); } else if (R(2)) { c.close(); }
                ++x.atoms; break; }
            case 6: { if (x.atoms > 5) { break; }
                AST::ProgramBuilder b(x.c); AST::ProgramBuilder c(std::move(b));
                S t = "#program q" + std::to_string(x.atoms) + ". {a" + std::to_string(x.atoms) + "}.";
                AST::parse_string(t.c_str(), [&](Node const &n) { c.add(n); });
                c.close(); c.close();
                x.c.ground({{("q" + std::to_string(x.atoms)).c_str(), {}}});
                ++x.atoms; break; }
            case 7: { x.props.emplace_back(new Counter); x.props.back()->n = count; x.c.register_propagator(*x.props.back()); int c0 = *count; models(x, "prop", expect); break; }
            case 8: { try { x.c.with_backend([&](Backend &) { throw Boom(); }); bad("with_backend", "no exception"); } catch (Boom const &) {} models(x, "backend-throw", expect); break; }
            case 9: { std::vector<SymbolicAtom> as; for (auto a : x.c.symbolic_atoms()) { as.push_back(a); } if (long(as.size()) != x.atoms) { bad("atoms", std::to_string(as.size())); } auto it = x.c.symbolic_atoms().begin(); auto jt = it++; if (x.atoms > 1 && it == jt) { bad("iterator", "postfix"); } break; }
            case 10: { auto conf = x.c.configuration(); Configuration c2 = conf["solve"]; std::set<S> keys; for (auto key : c2.keys()) { keys.insert(key); } if (!keys.count("models")) { bad("conf", "keys"); } throws("conf-key", [&] { conf["nope"]; }); throws("conf-range", [&] { conf["solver"][1 << 20]; }); break; }
            case 11: { auto st = x.c.statistics(); throws("stat-key", [&] { st["nope"]; }); throws("stat-range", [&] { st[1 << 20]; }); break; }
            default: models(x, "plain", expect);
        }
        ++g_events;
    }
}

int main(int, char **argv) {
    rng.seed(std::stoull(argv[1]));
    for (int i = 0; i < std::atoi(argv[2]); ++i) { asts(200); controls(40); std::cout << "CASE " << argv[1] << "-" << i << "\n"; }
    try {
        Symbol s = parse_term("ledger:live");
        S t = s.type() == SymbolType::String ? s.string() : "";
        if (t.compare(0, 47, "controls=0 handles=0 references=0 backends=0 cr") != 0) { bad("leak", t); }
        else { std::cout << "COUNT balanced_ledgers 1\n"; }
    } catch (std::exception const &) { std::cout << "COUNT without_ledger 1\n"; }
    std::cout << "events " << g_events << "\n";
    std::cout.flush();
}
