// Functions of the C interface the installed engine lacks: what clingo.hh passes on and returns (see shim/missing.c).
#include <clingo.hh>
#include <cstring>
#include <iostream>
#include <random>
#include <sstream>
using namespace Clingo;
extern "C" char const *verif_mock_log(void);
extern "C" void verif_mock_fail(int k);
static size_t events, bad;
static void check(bool ok, char const *key, std::string const &what = "") { ++events; if (!ok) { ++bad; std::cout << "BAD " << key << " " << what << std::endl; } }
static void expect(std::string const &e, char const *key) { std::string g = verif_mock_log(); check(g == e, key, "expected " + e + " got " + g); }
template <class F> void fails(F f, char const *key) {
    verif_mock_fail(1);
    try { f(); check(false, key, "failure lost"); } catch (std::runtime_error const &e) { check(std::strstr(e.what(), "mock failure") != nullptr, key, e.what()); }
    verif_mock_log();
}
static void start(Control &c, char const *p) { c.add("base", {}, p); c.ground({{"base", {}}}); verif_mock_log(); }
static std::string str(Model const &m) { std::ostringstream s; s << m; return s.str(); }
int main(int argc, char **argv) {
    std::string sec = argv[1];
    std::mt19937 rng(std::atoi(argv[2]));
    auto has = [&](char const *s) { return sec.find(s) != std::string::npos; };
    if (has("minimize")) {
        for (int n = 0; n < 5; ++n) {
            Control c{{"0"}};
            std::string p = "{a;b;c}. ";
            for (int i = 0; i < n; ++i) { p += "#minimize { 1@" + std::to_string(i * 3 - 4) + " : a }. "; }
            start(c, p.c_str());
            for (auto &m : c.solve()) {
                auto pr = m.priorities();
                check(pr.size() == size_t(n) && m.cost().size() == size_t(n), "priorities-size");
                for (int i = 0; i < int(pr.size()); ++i) { check(pr[i] == 100 - 7 * i * i, "priorities"); }
                expect("priority 1 " + std::to_string(n) + "\n", "priorities-call");
                fails([&]() { m.priorities(); }, "priorities-fail");
            }
        }
    }
    if (has("consequence")) {
        Control c{{"0"}};
        start(c, "{a;b;c}.");
        for (auto &m : c.solve()) {
            for (int i = 0; i < 20; ++i) {
                literal_t l = static_cast<literal_t>(rng() >> (i % 31)) | 1;
                auto r = m.is_consequence(l);
                int k = ((l % 3) + 3) % 3;
                check(r == (k == 0 ? ConsequenceType::False : k == 1 ? ConsequenceType::True : ConsequenceType::Unknown), "is_consequence");
                expect("is_consequence 1 " + std::to_string(l) + "\n", "is_consequence-call");
            }
            fails([&]() { m.is_consequence(1); }, "is_consequence-fail");
        }
    }
    if (has("last")) {
        Control c{{"0"}};
        start(c, "{a;b;c}.");
        auto h = c.solve();
        size_t n = 0;
        while (true) {
            auto &m = h.next();
            if (!m) { break; }
            auto num = m.number();
            auto s = str(m);
            verif_mock_log();
            auto *x = h.last();
            expect("last\n", "last-call");
            check(x != nullptr && x->number() == num && str(*x) == s, "last-model");
            ++n;
        }
        check(n == 8, "last-count");
        check(h.last() == nullptr, "last-none");
        fails([&]() { h.last(); }, "last-fail");
    }
    if (has("undo")) {
        for (auto v : {PropagatorUndoMode::Default, PropagatorUndoMode::Always}) {
            struct P : Propagator {
                PropagatorUndoMode v;
                void init(PropagateInit &i) override {
                    verif_mock_log();
                    i.set_undo_mode(v);
                    expect(std::string("set_undo_mode ") + (v == PropagatorUndoMode::Default ? "0\n" : "1\n"), "set_undo_mode");
                    ::check(i.get_undo_mode() == v, "undo_mode");
                    expect("get_undo_mode\n", "get_undo_mode");
                }
            } p;
            p.v = v;
            Control c;
            c.register_propagator(p);
            c.ground({{"base", {}}});
            c.solve(LiteralSpan{}).get();
        }
    }
    std::cout << "events " << events << std::endl;
    return bad ? 1 : 0;
}
