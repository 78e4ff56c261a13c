// Value types, views and iterators of the C++ interface against plain models: usage: hhapi SECTION SEED N
#include <clingo.hh>
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace Clingo;
static std::mt19937_64 rng;
static long events = 0, bads = 0;
static int R(int n) { return int(rng() % unsigned(n)); }
static void bad(std::string const &key, std::string what) {
    for (auto &c : what) if (c == '\n') c = ' ';
    if (++bads <= 20) printf("BAD %s %s\n", key.c_str(), what.c_str());
}
#define CHECK(c, key, what) do { ++events; if (!(c)) { std::ostringstream o_; o_ << what; bad(key, o_.str()); } } while (0)
template <class T> std::string str(T const &x) { std::ostringstream o; o << x; return o.str(); }
static void kase(std::string k) { for (auto &c : k) if (c == '\n') c = ' '; printf("CASE %s\n", k.c_str()); }

static std::string const alphabet[] = {"a", "b", "c", "f", "g", "p", "long_name_of_a_function", "z9"};
static std::string name() { return alphabet[R(8)]; }
static Symbol sym(int d) {
    int k = R(d > 0 ? 9 : 6);
    if (k < 2) return Number(R(3) ? R(7) - 3 : int(rng()));
    if (k == 2) return String((R(2) ? "" : "x\"\n\\y") );
    if (k == 3) return R(2) ? Infimum() : Supremum();
    if (k < 6) return Id(name().c_str(), R(4) != 0);
    SymbolVector v; for (int i = R(4); i > 0; --i) v.push_back(sym(d - 1));
    if (k == 8) return Function("", v);
    return Function(name().c_str(), v, R(5) != 0);
}

// {{{ iterators: every operation against an index into the sequence of expected values
template <class It, class F> void random_access(std::string const &key, It b, It e, size_t n, F const &same, int rounds = 40) {
    using D = typename It::difference_type;
    CHECK((e - b) == D(n), key + "-distance", "distance " << (long)(e - b) << " of a sequence of " << n);
    CHECK((b - e) == -D(n), key + "-distance", "distance backwards " << (long)(b - e) << " of a sequence of " << n);
    CHECK(std::distance(b, e) == D(n), key + "-distance", "std::distance of a sequence of " << n);
    size_t i = 0;
    for (It it = b; it != e; ++it, ++i) { if (i >= n) { bad(key + "-walk", "too long"); return; } CHECK(same(*it, i), key + "-walk", "element " << i << " of " << n); }
    CHECK(i == n, key + "-walk", "ended after " << i << " of " << n);
    It it = b; size_t p = 0;
    for (int r = 0; r < rounds; ++r) {
        size_t q = size_t(R(int(n) + 1)); D d = D(q) - D(p);
        It o = it;
        switch (R(10)) {
            case 0: it += d; p = q; break;
            case 1: it -= -d; p = q; break;
            case 2: it = it + d; p = q; break;
            case 3: it = d + it; p = q; break;
            case 4: it = it - (-d); p = q; break;
            case 5: if (p < n) { It x = it++; CHECK(x == o && it != o, key + "-postinc", "position " << p); ++p; } break;
            case 6: if (p > 0) { It x = it--; CHECK(x == o && it != o, key + "-postdec", "position " << p); --p; } break;
            case 7: if (p < n) { It &x = ++it; CHECK(&x == &it, key + "-preinc", "not itself"); ++p; } break;
            case 8: if (p > 0) { It &x = --it; CHECK(&x == &it, key + "-predec", "not itself"); --p; } break;
            case 9: { It x = b + D(q); swap(x, it); CHECK(x == o, key + "-swap", "position " << p); p = q; break; }
        }
        CHECK(it - b == D(p), key + "-position", "at " << (long)(it - b) << " instead of " << p);
        CHECK(e - it == D(n - p), key + "-position", "before the end: " << (long)(e - it) << " instead of " << n - p);
        if (p < n) CHECK(same(*it, p), key + "-element", "element at " << p);
        size_t t = size_t(R(int(n) + 1)); It x = b + D(t);
        CHECK((it == x) == (p == t) && (it != x) == (p != t) && (it < x) == (p < t) && (it > x) == (p > t) && (it <= x) == (p <= t) && (it >= x) == (p >= t), key + "-compare", "positions " << p << " and " << t);
        CHECK(it - x == D(p) - D(t), key + "-difference", "positions " << p << " and " << t << ": " << (long)(it - x));
    }
}
// }}}
static void iterators(int n) {
    for (int i = 0; i < n; ++i) {
        int m = R(9), k = 1 + R(5);
        std::ostringstream p;
        p << "#theory t { u { - : 2, unary; + : 1, binary, left; ** : 3, binary, right }; &a/1 : u, {<=, =}, u, any; &b/0 : u, any }.\n";
        p << "{x(1..3)}.\n";
        std::vector<std::string> atoms; // by number of tuples
        for (int j = 0; j < m; ++j) {
            p << "&a(" << j << ") { ";
            for (int t = 0; t < k; ++t) { p << (t ? "; " : ""); for (int s = 0; s <= t; ++s) p << (s ? "," : "") << "f(" << j << "," << t << "," << s << ")"; p << " : x(1)"; }
            p << " }" << (j % 2 ? " <= " + std::to_string(j) : "") << ".\n";
        }
        Control ctl; ctl.add("base", {}, p.str().c_str()); ctl.ground({{"base", {}}});
        TheoryAtoms ta = ctl.theory_atoms();
        kase("theory " + std::to_string(m) + " " + std::to_string(k));
        CHECK(ta.size() == size_t(m), "theory-size", ta.size() << " theory atoms of " << m);
        std::vector<id_t> ids; std::vector<std::string> txt;
        for (auto a : ta) { ids.push_back(a.to_c()); txt.push_back(a.to_string()); CHECK(str(a) == a.to_string(), "theory-print", str(a)); }
        random_access("theory-atoms", ta.begin(), ta.end(), ids.size(), [&](TheoryAtom const &a, size_t j) { return a.to_c() == ids[j] && a.to_string() == txt[j]; });
        if (ids.size() > 0) { auto it = ta.begin(); CHECK(it->to_c() == ids[0], "theory-arrow", "first atom"); }
        std::set<std::string> seen;
        for (auto a : ta) {
            int j = a.term().arguments().front().number();
            CHECK(a.term().arguments().size() == 1, "theory-term", a.term().to_string());
            CHECK(a.has_guard() == (j % 2 == 1), "theory-guard", a.to_string());
            if (a.has_guard()) CHECK(std::string(a.guard().first) == "<=" && a.guard().second.number() == j, "theory-guard", a.to_string());
            auto es = a.elements();
            CHECK(int(es.size()) == k && es.empty() == false, "theory-elements", a.to_string());
            std::vector<std::string> et; std::vector<id_t> eid; for (auto x : es) { et.push_back(x.to_string()); eid.push_back(x.to_c()); CHECK(str(x) == x.to_string(), "theory-print", str(x)); }
            random_access("theory-element", es.begin(), es.end(), et.size(), [&](TheoryElement const &x, size_t q) { return x.to_string() == et[q] && x.to_c() == eid[q]; }, 15);
            CHECK(es.begin()->to_c() == eid[0] && es[k - 1].to_c() == eid[size_t(k) - 1] && es.front().to_c() == eid[0] && es.back().to_c() == eid.back(), "theory-element-access", a.to_string());
            for (auto x : es) {
                auto tp = x.tuple(); std::vector<std::string> tt;
                int want = -1;
                for (auto y : tp) { tt.push_back(y.to_string()); CHECK(str(y) == y.to_string(), "theory-print", str(y)); }
                for (auto y : tp) {
                    auto ar = y.arguments();
                    CHECK(y.type() == TheoryTermType::Function && std::string(y.name()) == "f" && ar.size() == 3 && ar[0].number() == j, "theory-tuple", y.to_string());
                    int t = ar[1].number(); if (want < 0) want = t;
                    CHECK(t == want && int(tp.size()) == t + 1, "theory-tuple", y.to_string());
                    std::ostringstream o; o << "f(" << j << "," << t << "," << ar[2].number() << ")";
                    CHECK(y.to_string() == o.str(), "theory-print", y.to_string() << " instead of " << o.str());
                }
                random_access("theory-tuple", tp.begin(), tp.end(), tt.size(), [&](TheoryTerm const &y, size_t q) { return y.to_string() == tt[q]; }, 10);
                seen.insert(x.to_string());
            }
        }
        // configuration and statistics
        std::ostringstream th; th << 1 + R(4);
        Configuration conf = ctl.configuration();
        conf["solve"]["parallel_mode"] = th.str().c_str();
        auto solvers = conf["solver"];
        std::vector<std::string> keys; for (auto key : conf.keys()) keys.push_back(key);
        auto kr = conf.keys();
        CHECK(kr.size() == ptrdiff_t(keys.size()) && !kr.empty(), "config-keys", "number of keys");
        random_access("config-keys", kr.begin(), kr.end(), keys.size(), [&](char const *s, size_t q) { return keys[q] == s; });
        for (size_t q = 0; q < keys.size(); ++q) CHECK(keys[q] == kr[ptrdiff_t(q)], "config-keys", "key " << q);
        if (!keys.empty()) CHECK(keys[0] == *kr.begin().operator->(), "config-keys", "arrow");
        std::vector<std::string> h = {"Vsids", "Berkmin", "Vmtf", "None"};
        std::vector<std::string> set;
        for (size_t q = 0; q < solvers.size(); ++q) { solvers[q]["heuristic"] = h[(q + size_t(i)) % 4].c_str(); set.push_back(solvers[q]["heuristic"].value()); }
        random_access("config-array", solvers.begin(), solvers.end(), set.size(), [&](Configuration c, size_t q) { return c["heuristic"].value() == set[q]; });
        if (!set.empty()) CHECK(solvers.begin()->get("heuristic").value() == set[0], "config-arrow", "first solver");
        ctl.configuration()["stats"] = "2";
        ctl.solve(LiteralSpan{}).get();
        auto st = ctl.statistics();
        auto sv = st["solving"]["solvers"];
        std::vector<std::string> sk; auto skr = sv.keys(); for (auto key : skr) sk.push_back(key);
        random_access("stats-keys", skr.begin(), skr.end(), sk.size(), [&](char const *s, size_t q) { return sk[q] == s; });
    }
}

struct Prop : Propagator {
    int rounds = 0; bool init_only;
    void init(PropagateInit &init) override {
        look(init.assignment());
        for (auto a : init.symbolic_atoms()) init.add_watch(init.solver_literal(a.literal()));
        CHECK(init.to_c() != nullptr, "init-to_c", "");
        init.set_check_mode(PropagatorCheckMode::Both);
    }
    static void look(Assignment const &a) {
        std::vector<literal_t> all; for (size_t i = 0; i < a.size(); ++i) all.push_back(a.at(i));
        random_access("assignment", a.begin(), a.end(), all.size(), [&](literal_t l, size_t q) { return l == all[q] && a[q] == l; }, 12);
        auto t = a.trail();
        std::vector<literal_t> tr; for (uint32_t i = 0; i < t.size(); ++i) tr.push_back(t.at(i));
        random_access("trail", t.begin(), t.end(), tr.size(), [&](literal_t l, size_t q) { return l == tr[q] && a.is_true(l) && t[uint32_t(q)] == l; }, 12);
        size_t sum = 0;
        for (uint32_t l = 0; l <= a.decision_level(); ++l) {
            CHECK(t.begin(l) - t.begin() == int(t.begin_offset(l)) && t.end(l) - t.begin() == int(t.end_offset(l)), "trail-level", "level " << l);
            for (auto it = t.begin(l); it != t.end(l); ++it) CHECK(a.level(*it) == l, "trail-level", "literal " << *it << " of level " << a.level(*it) << " listed for " << l);
            sum += size_t(t.end(l) - t.begin(l));
        }
        CHECK(sum == tr.size(), "trail-levels", sum << " of " << tr.size());
        for (auto l : all) {
            auto v = a.truth_value(l);
            CHECK((v == TruthValue::True) == a.is_true(l) && (v == TruthValue::False) == a.is_false(l), "truth", "literal " << l);
            CHECK(str(v) == (v == TruthValue::True ? "True" : v == TruthValue::False ? "False" : "Free"), "truth-print", str(v));
        }
    }
    void check(PropagateControl &ctl) override { if (++rounds < 40) look(ctl.assignment()); CHECK(ctl.to_c() != nullptr, "control-to_c", ""); }
};
struct Idle : Propagator {}; // nothing overridden
struct IdleH : Heuristic { int calls = 0; literal_t decide(id_t t, Assignment const &a, literal_t fb) override { ++calls; CHECK(Heuristic::decide(t, a, fb) == 0, "heuristic-default", "decides"); return fb; } };
struct IdleO : GroundProgramObserver {};
struct IdleE : SolveEventHandler {};

static std::vector<std::string> models(Control &ctl, SolveEventHandler *h = nullptr) {
    std::vector<std::string> r;
    for (auto &m : ctl.solve(LiteralSpan{}, h)) { auto v = m.symbols(); std::sort(v.begin(), v.end()); r.push_back(str(SymbolSpan(v))); }
    std::sort(r.begin(), r.end()); return r;
}
// callbacks that are not overridden change nothing
static void defaults(int n) {
    char const *prgs[] = {"{a;b;c}. d:-a,not b.", "{p(1..3)}:-not q. q:-not p(1). #minimize{X:p(X)}. #project p/1. #external e. #heuristic p(X):p(X). [1,true]", "1{a;b}1. :-a,b. x:-2{a;b;c}. {c}. #edge(1,2):a. #edge(2,1):c.",
                          "#theory t{u{+ : 1,binary,left};&k/0:u,{<},u,head}. &k{1+f(2),(a,b):x}<3:-x. {x}.", "a:-not b. b:-not a. :-a,b. #show. #show t:a. #show s(X):X=1..2,b."};
    for (int i = 0; i < n; ++i) {
        char const *p = prgs[R(5)]; int k = 1 + R(15);
        std::vector<std::string> want;
        { Control c; c.configuration()["solve"]["models"] = "0"; c.configuration()["solve"]["opt_mode"] = "ignore"; c.add("base", {}, p); c.ground({{"base", {}}}); want = models(c); }
        IdleO o; Idle pr; IdleH h; IdleE e; Prop look;
        Control c; c.configuration()["solve"]["models"] = "0"; c.configuration()["solve"]["opt_mode"] = "ignore";
        if (k & 1) c.register_observer(o);
        if (k & 2) c.register_propagator(pr);
        if (k & 4) c.register_propagator(h);
        if (R(2)) c.register_propagator(look);
        c.add("base", {}, p); c.ground({{"base", {}}});
        auto got = models(c, (k & 8) ? &e : nullptr);
        CHECK(got == want, "defaults", "with idle callbacks " << k << ": " << got.size() << " models instead of " << want.size() << " of " << p);
        kase(std::to_string(k) + p);
    }
}

// {{{ values
template <class T, class Key> void ordered(std::string const &name, std::vector<T> const &xs, Key const &cmp) { // cmp: -1/0/1
    for (auto const &a : xs) for (auto const &b : xs) {
        int c = cmp(a, b);
        CHECK((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), name + "-order", str(a) << " and " << str(b) << " expected " << c);
    }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void values(int n) {
    for (int i = 0; i < n; ++i) {
        // signatures: order by sign, arity, name (as documented for the C interface)
        std::vector<Signature> sg; std::vector<std::tuple<bool, unsigned, std::string>> ks;
        for (int j = 0; j < 7; ++j) {
            std::string nm = name(); unsigned ar = unsigned(R(3)) ? unsigned(R(4)) : unsigned(R(70000)); bool pos = R(3) != 0;
            Signature s(nm.c_str(), ar, pos); sg.push_back(s);
            CHECK(s.name() == nm && s.arity() == ar && s.positive() == pos && s.negative() != pos, "signature", str(s));
            CHECK(str(s) == (pos ? "" : "-") + nm + "/" + std::to_string(ar), "signature-print", str(s));
            CHECK(Signature(s.to_c()) == s && std::hash<Signature>()(s) == s.hash(), "signature-c", str(s));
            Signature s2(nm.c_str(), ar, pos); CHECK(s2 == s && s2.hash() == s.hash(), "signature-equal", str(s));
        }
        ordered("signature", sg, [](Signature a, Signature b) { if (clingo_signature_is_equal_to(a.to_c(), b.to_c())) return 0; return clingo_signature_is_less_than(a.to_c(), b.to_c()) ? -1 : 1; });
        std::vector<Symbol> ss; for (int j = 0; j < 7; ++j) ss.push_back(sym(2));
        ss.push_back(ss[0]);
        auto scmp = [](Symbol a, Symbol b) { if (clingo_symbol_is_equal_to(a.to_c(), b.to_c())) return 0; return clingo_symbol_is_less_than(a.to_c(), b.to_c()) ? -1 : 1; };
        ordered("symbol", ss, scmp);
        std::vector<SymbolicLiteral> ls; for (auto s : ss) ls.emplace_back(s, R(2) == 0);
        ordered("symbolic-literal", ls, [&](SymbolicLiteral a, SymbolicLiteral b) { if (a.is_negative() != b.is_negative()) return a.is_negative() ? 1 : -1; return scmp(a.symbol(), b.symbol()); });
        for (size_t j = 0; j < ss.size(); ++j) {
            auto l = ls[j];
            CHECK(l.symbol() == ss[j] && l.is_positive() != l.is_negative() && str(l) == (l.is_negative() ? "~" : "") + ss[j].to_string(), "symbolic-literal", str(l));
            CHECK(str(ss[j]) == ss[j].to_string() && std::hash<Symbol>()(ss[j]) == ss[j].hash(), "symbol-print", str(ss[j]));
        }
        // spans
        std::vector<int> v; for (int j = R(6); j > 0; --j) v.push_back(R(100));
        Span<int> sp(v); std::ostringstream ex; ex << "{";
        for (size_t j = 0; j < v.size(); ++j) ex << (j ? ", " : " ") << v[j];
        ex << " }";
        CHECK(str(sp) == ex.str(), "span-print", str(sp) << " instead of " << ex.str());
        CHECK(sp.size() == v.size() && sp.empty() == v.empty() && std::equal(sp.begin(), sp.end(), v.begin()) && (v.empty() || (sp.data() == v.data() && sp.front() == v.front() && sp.back() == v.back())), "span", ex.str());
        for (size_t j = 0; j < v.size(); ++j) CHECK(sp[j] == v[j], "span-index", ex.str());
        std::vector<int> w = v; if (!w.empty() && R(2)) w[size_t(R(int(w.size())))] ^= R(2); else if (R(2)) w.push_back(1);
        CHECK((sp == Span<int>(w)) == (v == w) && (Span<int>(w.data(), w.size()) == sp) == (v == w) && equal_range(sp, w) == (v == w), "span-equal", ex.str());
        CHECK(make_span(v.data(), v.size()).size() == v.size() && Span<int>(v.data(), v.data() + v.size()).size() == v.size() && Span<int>{}.empty(), "span-make", ex.str());
        { auto f = [](Span<int> s) { int r = 0; for (int x : s) r = r * 10 + x; return r; }; CHECK(f({1, 2, 3}) == 123 && f({}) == 0, "span-list", "initializer list"); }
        WeightedLiteral wl(R(9) - 4, R(100) - 50); CHECK(WeightedLiteral(wl.to_c()).literal() == wl.literal() && WeightedLiteral(wl.to_c()).weight() == wl.weight() && wl.to_c().literal == wl.literal() && wl.to_c().weight == wl.weight(), "weighted", "literal");
        // results
        for (unsigned b = 0; b < 16; ++b) {
            if ((b & 3) == 3) continue;
            SolveResult r(b);
            CHECK(r.is_satisfiable() == ((b & 1) != 0) && r.is_unsatisfiable() == ((b & 2) != 0) && r.is_unknown() == ((b & 3) == 0) && r.is_exhausted() == ((b & 4) != 0) && r.is_interrupted() == ((b & 8) != 0), "result", b);
            std::string e = (b & 1) ? ((b & 4) ? "SATISFIABLE" : "SATISFIABLE+") : (b & 2) ? "UNSATISFIABLE" : "UNKNOWN";
            if (b & 8) e += "/INTERRUPTED";
            CHECK(str(r) == e, "result-print", str(r) << " instead of " << e);
            SolveResult q(unsigned(R(16))); CHECK((r == q) == (r.to_c() == q.to_c()) && (r != q) == (r.to_c() != q.to_c()), "result-equal", b);
        }
        CHECK(SolveResult().is_unknown(), "result-default", "");
        // locations
        char const *files[] = {"a.lp", "b.lp", "<string>"};
        size_t l1 = 1 + size_t(R(3)), l2 = 1 + size_t(R(3)), c1 = 1 + size_t(R(3)), c2 = 1 + size_t(R(3));
        std::string f1 = files[R(3)], f2 = R(2) ? f1 : files[R(3)];
        Location loc(f1.c_str(), f2.c_str(), l1, l2, c1, c2);
        CHECK(loc.begin_file() == f1 && loc.end_file() == f2 && loc.begin_line() == l1 && loc.end_line() == l2 && loc.begin_column() == c1 && loc.end_column() == c2, "location", "fields");
        std::string e = f1 + ":" + std::to_string(l1) + ":" + std::to_string(c1);
        if (f1 != f2) e += "-" + f2 + ":" + std::to_string(l2) + ":" + std::to_string(c2);
        else if (l1 != l2) e += "-" + std::to_string(l2) + ":" + std::to_string(c2);
        else if (c1 != c2) e += "-" + std::to_string(c2);
        CHECK(str(loc) == e, "location-print", str(loc) << " instead of " << e);
        // parts
        SymbolVector ps; for (int j = R(3); j > 0; --j) ps.push_back(sym(1));
        std::string pn = name(); Part part(pn.c_str(), ps); Part p2(part.to_c());
        CHECK(pn == part.name() && part.params() == SymbolSpan(ps) && pn == p2.name() && p2.params() == SymbolSpan(ps) && part.to_c().size == ps.size(), "part", pn);
        std::string text = name() + std::to_string(R(1000)); char const *a1 = add_string(text.c_str()), *a2 = add_string(std::string(text).c_str());
        CHECK(text == a1 && a1 == a2, "add-string", text);
        kase(ex.str() + e + str(SymbolSpan(ss)));
    }
    int a, b, c; clingo_version(&a, &b, &c);
    CHECK(version() == std::make_tuple(a, b, c), "version", "");
    for (int i = 0; i <= 4; ++i) CHECK(str(ErrorCode(i)) == (clingo_error_string(i) ? clingo_error_string(i) : ""), "error-print", i);
    for (int i = 1; i <= 7; ++i) CHECK(str(WarningCode(i)) == clingo_warning_string(i), "warning-print", i);
    CHECK(str(ClauseType::Learnt) == "Learnt" && str(ClauseType::Static) == "Static" && str(ClauseType::Volatile) == "Volatile" && str(ClauseType::VolatileStatic) == "VolatileStatic", "clause-print", "");
    CHECK(str(ExternalType::Free) == "Free" && str(ExternalType::True) == "True" && str(ExternalType::False) == "False" && str(ExternalType::Release) == "Release", "external-print", "");
}

// optional values and variants, with live counts
struct Tok { static long live; int v; explicit Tok(int v_ = 0) : v(v_) { ++live; } Tok(Tok const &o) : v(o.v) { ++live; } Tok(Tok &&o) noexcept : v(o.v) { o.v = -1; ++live; } Tok &operator=(Tok const &) = default; ~Tok() { --live; } };
long Tok::live = 0;
static std::ostream &operator<<(std::ostream &o, Tok const &t) { return o << "T" << t.v; }
struct Visit { int visit(int &x) { return x; } int visit(int const &x) { return 1000 + x; } int visit(std::string &x) { return -int(x.size()); } int visit(std::string const &x) { return -1000 - int(x.size()); } int visit(Tok &x) { return 5000 + x.v; } int visit(Tok const &x) { return 6000 + x.v; } };
using Var = Variant<int, std::string, Tok>;
struct Mod { int k; std::string s; int v; std::string text() const { return k == 0 ? std::to_string(v) : k == 1 ? s : "T" + std::to_string(v); } };
static Var mk(Mod const &m) { if (m.k == 0) return Var(m.v); if (m.k == 1) return Var(m.s); return R(2) ? Var(Tok(m.v)) : Var::make<Tok>(m.v); }
static Mod rm() { Mod m; m.k = R(3); m.v = R(50); m.s = std::string(size_t(R(40)), 'x'); return m; }
static void sync(Var &x, Mod const &m) {
    Var const &c = x;
    CHECK(x.is<int>() == (m.k == 0) && x.is<std::string>() == (m.k == 1) && x.is<Tok>() == (m.k == 2), "variant-type", m.k);
    CHECK(str(x) == m.text(), "variant-print", str(x) << " instead of " << m.text());
    bool i = false, s = false, t = false;
    try { i = x.get<int>() == m.v; c.get<int>(); } catch (std::bad_cast const &) {}
    try { s = x.get<std::string>() == m.s && c.get<std::string>() == m.s; } catch (std::bad_cast const &) {}
    try { t = x.get<Tok>().v == m.v && c.get<Tok>().v == m.v; } catch (std::bad_cast const &) {}
    CHECK(i == (m.k == 0) && s == (m.k == 1) && t == (m.k == 2), "variant-get", m.text());
    int a = m.k == 0 ? m.v : m.k == 1 ? -int(m.s.size()) : 5000 + m.v, b = m.k == 0 ? 1000 + m.v : m.k == 1 ? -1000 - int(m.s.size()) : 6000 + m.v;
    CHECK(x.accept(Visit()) == a && c.accept(Visit()) == b, "variant-visit", m.text());
}
static void variants(int n) {
    long base = Tok::live;
    for (int i = 0; i < n; ++i) {
        {
            Mod m[3] = {rm(), rm(), rm()}; Var x[3] = {mk(m[0]), mk(m[1]), mk(m[2])};
            Optional<Tok> o[2]; int ov[2] = {-1, -1}; bool oe[2] = {false, false};
            for (int r = 0; r < 30; ++r) {
                int a = R(3), b = R(3);
                switch (R(10)) {
                    case 0: x[a] = x[b]; m[a] = m[b]; break;
                    case 1: if (a != b) { Mod k = m[b]; x[a] = std::move(x[b]); m[a] = k; m[b] = rm(); x[b] = mk(m[b]); } break;
                    case 2: { Mod k = rm(); if (k.k == 0) x[a] = k.v; else if (k.k == 1) x[a] = k.s; else x[a] = Tok(k.v); m[a] = k; break; }
                    case 3: x[a].swap(x[b]); std::swap(m[a], m[b]); break;
                    case 4: { Mod k = rm(); if (k.k == 0) x[a].emplace<int>(k.v); else if (k.k == 1) x[a].emplace<std::string>(k.s); else x[a].emplace<Tok>(k.v); m[a] = k; break; }
                    case 5: { Var y(x[a]); sync(y, m[a]); Var z(std::move(y)); sync(z, m[a]); break; }
                    case 6: if (m[a].k == 0) { x[a].get<int>() = m[a].v = R(9); } break;
                    case 7: { Mod k = rm(); x[a] = mk(k); m[a] = k; break; }
                    case 8: { int p = R(2); switch (R(5)) { case 0: o[p] = Tok(r); ov[p] = r; oe[p] = true; break; case 1: o[p].clear(); oe[p] = false; break; case 2: { Tok t(r + 100); o[p] = t; ov[p] = r + 100; oe[p] = true; break; }
                              case 3: o[p].emplace(r + 200); ov[p] = r + 200; oe[p] = true; break; case 4: { Optional<Tok> const &cc = o[1 - p]; o[p] = cc; ov[p] = ov[1 - p]; oe[p] = oe[1 - p]; break; } } break; }
                    case 9: { int p = R(2); Optional<Tok> c1(o[p]); Optional<Tok> const &co = o[p]; Optional<Tok> c2(co); Optional<Tok> c3(std::move(c1));
                              CHECK(bool(c2) == oe[p] && bool(c3) == oe[p] && !c1 && (!oe[p] || (c2->v == ov[p] && (*c3).v == ov[p] && c2.get() != o[p].get())), "optional-copy", p); break; }
                }
                for (int j = 0; j < 3; ++j) sync(x[j], m[j]);
                for (int p = 0; p < 2; ++p) { Optional<Tok> const &c = o[p]; CHECK(bool(o[p]) == oe[p] && (c.get() != nullptr) == oe[p], "optional", p); if (oe[p]) CHECK(o[p]->v == ov[p] && (*c).v == ov[p] && c->v == ov[p], "optional-value", p); }
            }
            kase(m[0].text() + m[1].text() + std::to_string(ov[0]));
        }
        CHECK(Tok::live == base, "variant-leak", Tok::live - base << " values are left");
    }
}

// arrays of syntax trees and of strings
static void arrays(int n) {
    using namespace AST;
    for (int i = 0; i < n; ++i) {
        Location loc("<s>", "<s>", 1, 1, 1, 1);
        std::vector<Node> nodes; for (int j = 0; j < 6; ++j) nodes.emplace_back(Type::SymbolicTerm, loc, Number(j));
        std::vector<Node> model; int k = R(6); for (int j = 0; j < k; ++j) model.push_back(nodes[size_t(R(6))]);
        Node fun(Type::Function, loc, "f", model, 0);
        NodeVector vec = fun.get<NodeVector>(Attribute::Arguments);
        for (int r = 0; r < 12; ++r) {
            Node x = nodes[size_t(R(6))]; size_t p = model.empty() ? 0 : size_t(R(int(model.size())));
            switch (R(7)) {
                case 0: vec.push_back(x); model.push_back(x); break;
                case 1: if (!model.empty()) { vec.pop_back(); model.pop_back(); } break;
                case 2: { size_t q = size_t(R(int(model.size()) + 1)); auto it = vec.insert(vec.begin() + ptrdiff_t(q), x); model.insert(model.begin() + long(q), x); CHECK(it - vec.begin() == ptrdiff_t(q), "nodes-insert", "returned " << it - vec.begin()); break; }
                case 3: if (!model.empty()) { auto it = vec.erase(vec.begin() + ptrdiff_t(p)); model.erase(model.begin() + long(p)); CHECK(it - vec.begin() == ptrdiff_t(p), "nodes-erase", "returned " << it - vec.begin()); } break;
                case 4: if (!model.empty()) { vec[p] = x; model[p] = x; } break;
                case 5: if (!model.empty()) { vec.set(vec.begin() + ptrdiff_t(p), x); model[p] = x; } break;
                case 6: if (!R(4)) { vec.clear(); model.clear(); } break;
            }
            NodeVector const &cv = vec;
            CHECK(vec.size() == model.size() && vec.empty() == model.empty(), "nodes-size", vec.size());
            random_access("nodes", vec.begin(), vec.end(), model.size(), [&](NodeRef const &y, size_t q) { return y.get() == model[q]; }, 8);
            random_access("nodes-const", cv.begin(), cv.end(), model.size(), [&](Node const &y, size_t q) { return y == model[q]; }, 8);
            for (size_t q = 0; q < model.size(); ++q) CHECK(Node(vec[q]) == model[q] && cv[q] == model[q] && vec.at(q)->get() == model[q] && *cv.at(q) == model[q] && cv.at(q)->to_string() == model[q].to_string(), "nodes-access", q);
            if (!model.empty()) CHECK(cv.begin()->to_string() == model[0].to_string() && vec.begin()->get() == model[0], "nodes-arrow", "");
            CHECK(vec.ast() == fun && cv.ast() == fun, "nodes-owner", str(cv.ast()));
        }
        std::vector<std::string> sm; for (int j = R(4); j > 0; --j) sm.push_back(name());
        std::vector<char const *> cs; for (auto &s : sm) cs.push_back(s.c_str());
        Node guard(Type::TheoryGuardDefinition, cs, "t");
        StringVector sv = guard.get<StringVector>(Attribute::Operators);
        for (int r = 0; r < 12; ++r) {
            std::string x = name(); size_t p = sm.empty() ? 0 : size_t(R(int(sm.size())));
            switch (R(7)) {
                case 0: sv.push_back(x.c_str()); sm.push_back(x); break;
                case 1: if (!sm.empty()) { sv.pop_back(); sm.pop_back(); } break;
                case 2: { size_t q = size_t(R(int(sm.size()) + 1)); auto it = sv.insert(sv.begin() + ptrdiff_t(q), x.c_str()); sm.insert(sm.begin() + long(q), x); CHECK(it - sv.begin() == ptrdiff_t(q), "strings-insert", "returned " << it - sv.begin()); break; }
                case 3: if (!sm.empty()) { auto it = sv.erase(sv.begin() + ptrdiff_t(p)); sm.erase(sm.begin() + long(p)); CHECK(it - sv.begin() == ptrdiff_t(p), "strings-erase", "returned " << it - sv.begin()); } break;
                case 4: if (!sm.empty()) { sv[p] = x.c_str(); sm[p] = x; } break;
                case 5: if (!sm.empty()) { sv.set(sv.begin() + ptrdiff_t(p), x.c_str()); sm[p] = x; } break;
                case 6: if (!R(4)) { sv.clear(); sm.clear(); } break;
            }
            StringVector const &cv = sv;
            CHECK(sv.size() == sm.size() && sv.empty() == sm.empty(), "strings-size", sv.size());
            random_access("strings", sv.begin(), sv.end(), sm.size(), [&](StringRef const &y, size_t q) { return sm[q] == y.get(); }, 8);
            random_access("strings-const", cv.begin(), cv.end(), sm.size(), [&](char const *y, size_t q) { return sm[q] == y; }, 8);
            for (size_t q = 0; q < sm.size(); ++q) CHECK(sm[q] == sv[q].get() && sm[q] == cv[q] && sm[q] == sv.at(q)->get() && sm[q] == *cv.at(q), "strings-access", q);
            CHECK(sv.ast() == guard && cv.ast() == guard, "strings-owner", str(cv.ast()));
        }
        kase(str(fun) + str(guard));
    }
}
// }}}
// {{{ state of controls
static void controls(int n) {
    for (int i = 0; i < n; ++i) {
        // constants: overridden on the command line before defined in the program
        std::map<std::string, std::string> want; std::vector<std::string> args; std::ostringstream p;
        for (auto nm : {"c1", "c2", "c3", "c4"}) {
            int k = R(4); std::string v = std::to_string(R(9)), w = R(2) ? "f(" + std::to_string(R(5)) + ")" : "x";
            if (k & 1) { p << "#const " << nm << "=" << v << ".\n"; want[nm] = v; }
            if (k & 2) { args.push_back("-c"); args.push_back(std::string(nm) + "=" + w); want[nm] = w; }
        }
        std::vector<char const *> cargs; for (auto &a : args) cargs.push_back(a.c_str());
        bool conflict = R(3) == 0;
        p << "v(c1,c2,c3,c4). {a;b}.\n" << (conflict ? "a. :- a.\n" : "");
        Control ctl(cargs); ctl.add("base", {}, p.str().c_str());
        std::string tuple;
        for (std::string nm : {"c1", "c2", "c3", "c4"}) {
            CHECK(ctl.has_const(nm.c_str()) == (want.count(nm) > 0), "const", nm << " in " << p.str());
            if (want.count(nm)) CHECK(ctl.get_const(nm.c_str()).to_string() == want[nm], "const-value", nm << " is " << ctl.get_const(nm.c_str()) << " instead of " << want[nm]);
            tuple += (tuple.empty() ? "" : ",") + (want.count(nm) ? want[nm] : nm);
        }
        CHECK(!ctl.has_const("c5") && !ctl.has_const("a"), "const", "undefined");
        CHECK(!ctl.is_conflicting(), "conflicting", "before grounding");
        // the switches are independent and read back
        bool ec = true, ee = true;
        CHECK(ctl.enable_cleanup() && ctl.enable_enumeration_assumption(), "switch-default", "");
        for (int r = 0; r < 6; ++r) {
            if (R(2)) { ec = R(2) != 0; ctl.enable_cleanup(ec); } else { ee = R(2) != 0; ctl.enable_enumeration_assumption(ee); }
            CHECK(ctl.enable_cleanup() == ec && ctl.enable_enumeration_assumption() == ee, "switch", ec << ee);
        }
        ctl.enable_cleanup(true); ctl.enable_enumeration_assumption(true);
        ctl.ground({{"base", {}}});
        auto r = ctl.solve(LiteralSpan{}).get();
        CHECK(r.is_satisfiable() == !conflict && ctl.is_conflicting() == conflict, "conflicting", "after solving " << conflict << ctl.is_conflicting());
        int k = 0; for (auto it = ctl.symbolic_atoms().begin(Signature("v", 4)); it; it++) { ++k; CHECK(it->symbol().to_string() == "v(" + tuple + ")", "const-ground", it->symbol()); }
        CHECK(k == 1, "const-ground", k << " atoms");
        CHECK(ctl.to_c() != nullptr && ctl.claspFacade() != nullptr, "control-c", "");
        // moved controls keep their state
        Control c2(std::move(ctl)); CHECK(c2.is_conflicting() == conflict && c2.has_const("c1") == (want.count("c1") > 0), "control-move", "");
        Control c3; c3 = std::move(c2); CHECK(c3.is_conflicting() == conflict && c3.has_const("c1") == (want.count("c1") > 0), "control-move", "");
        if (!conflict) {
            // interrupting a search: the result says so
            auto h = c3.solve(LiteralSpan{}, nullptr, false, true); c3.configuration()["solve"]["models"] = "0";
            (void)h.get();
        }
        // iterators over models
        if (!conflict) {
            c3.configuration()["solve"]["models"] = "0"; std::set<std::string> ms; int cnt = 0;
            auto h = c3.solve(LiteralSpan{}, nullptr, false, true);
            for (ModelIterator it = begin(h), ie = end(h); it != ie; ++it) { ++cnt; ms.insert(str(*it)); CHECK(it->number() == uint64_t(cnt), "model-iterator", it->number()); if (cnt > 20) break; }
            CHECK(cnt == 4 && ms.size() == 4, "model-iterator", cnt << " models, " << ms.size() << " distinct");
        }
        kase(p.str() + (args.empty() ? "" : args.back()));
    }
}
// }}}

int main(int argc, char **argv) {
    std::string s = argv[1]; rng.seed(strtoull(argv[2], nullptr, 10)); int n = atoi(argv[3]); (void)argc;
    try {
        if (s == "iterators") iterators(n);
        else if (s == "defaults") defaults(n);
        else if (s == "values") values(n);
        else if (s == "variants") variants(n);
        else if (s == "arrays") arrays(n);
        else if (s == "controls") controls(n);
        else return 2;
    } catch (std::exception const &e) { bad("exception", e.what()); }
    printf("events %ld\n", events);
    return bads ? 1 : 0;
}
