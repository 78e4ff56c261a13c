// Stand-in for libpotassco's aspif.h: writer and reader for the aspif format.
#pragma once
#include <potassco/basic_types.h>
#include <potassco/theory_data.h>
#include <istream>
#include <ostream>
#include <string>
namespace Potassco {
class AspifOutput : public AbstractProgram {
  public:
    AspifOutput(std::ostream &os) : os_(os) {}
    AspifOutput(AspifOutput const &) = delete;
    void initProgram(bool incremental) override {
        os_ << "asp 1 0 0";
        if (incremental) { os_ << " incremental"; }
        os_ << '\n';
    }
    void beginStep() override {}
    void rule(Head_t ht, const AtomSpan &head, const LitSpan &body) override {
        os_ << 1; u(ht); ids(head); u(0); lits(body); nl();
    }
    void rule(Head_t ht, const AtomSpan &head, Weight_t bound, const WeightLitSpan &body) override {
        os_ << 1; u(ht); ids(head); u(1); i(bound); wlits(body); nl();
    }
    void minimize(Weight_t prio, const WeightLitSpan &l) override { os_ << 2; i(prio); wlits(l); nl(); }
    void project(const AtomSpan &a) override { os_ << 3; ids(a); nl(); }
    void output(const StringSpan &str, const LitSpan &cond) override { os_ << 4; s(str); lits(cond); nl(); }
    void external(Atom_t a, Value_t v) override { os_ << 5; u(a); u(v); nl(); }
    void assume(const LitSpan &l) override { os_ << 6; lits(l); nl(); }
    void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, const LitSpan &cond) override {
        os_ << 7; u(t); u(a); i(bias); u(prio); lits(cond); nl();
    }
    void acycEdge(int a, int b, const LitSpan &cond) override { os_ << 8; i(a); i(b); lits(cond); nl(); }
    void theoryTerm(Id_t id, int number) override { os_ << 9; u(0); u(id); i(number); nl(); }
    void theoryTerm(Id_t id, const StringSpan &name) override { os_ << 9; u(1); u(id); s(name); nl(); }
    void theoryTerm(Id_t id, int cId, const IdSpan &args) override { os_ << 9; u(2); u(id); i(cId); ids(args); nl(); }
    void theoryElement(Id_t id, const IdSpan &terms, const LitSpan &cond) override {
        os_ << 9; u(4); u(id); ids(terms); lits(cond); nl();
    }
    void theoryAtom(Id_t a, Id_t t, const IdSpan &e) override { os_ << 9; u(5); u(a); u(t); ids(e); nl(); }
    void theoryAtom(Id_t a, Id_t t, const IdSpan &e, Id_t op, Id_t rhs) override {
        os_ << 9; u(6); u(a); u(t); ids(e); u(op); u(rhs); nl();
    }
    void endStep() override { os_ << "0\n"; }
  private:
    void u(unsigned x) { os_ << ' ' << x; }
    void i(int x) { os_ << ' ' << x; }
    void nl() { os_ << '\n'; }
    void s(StringSpan const &x) { u(static_cast<unsigned>(x.size)); os_ << ' '; os_.write(x.first, static_cast<std::streamsize>(x.size)); }
    template <class T> void ids(Span<T> const &x) { u(static_cast<unsigned>(x.size)); for (auto &e : x) { os_ << ' ' << e; } }
    void lits(LitSpan const &x) { ids(x); }
    void wlits(WeightLitSpan const &x) { u(static_cast<unsigned>(x.size)); for (auto &e : x) { os_ << ' ' << e.lit << ' ' << e.weight; } }
    std::ostream &os_;
};

inline int readAspif(std::istream &in, AbstractProgram &out) {
    auto fail = [](char const *m) { throw std::runtime_error(std::string("parse error: ") + m); };
    auto num = [&]() { long long x = 0; if (!(in >> x)) { fail("number expected"); } return x; };
    auto ids = [&]() { std::vector<Id_t> r(static_cast<std::size_t>(num())); for (auto &x : r) { x = static_cast<Id_t>(num()); } return r; };
    auto lits = [&]() { std::vector<Lit_t> r(static_cast<std::size_t>(num())); for (auto &x : r) { x = static_cast<Lit_t>(num()); } return r; };
    auto wlits = [&]() { std::vector<WeightLit_t> r(static_cast<std::size_t>(num())); for (auto &x : r) { x.lit = static_cast<Lit_t>(num()); x.weight = static_cast<Weight_t>(num()); } return r; };
    auto str = [&]() { std::string s(static_cast<std::size_t>(num()), '\0'); in.get(); in.read(&s[0], static_cast<std::streamsize>(s.size())); return s; };
    std::string tok, line;
    if (!(in >> tok) || tok != "asp") { fail("asp header expected"); }
    std::getline(in, line);
    bool inc = line.find("incremental") != std::string::npos;
    out.initProgram(inc);
    for (bool first = true;; first = false) {
        if (!first && !(in >> std::ws && in.peek() != EOF)) { break; }
        out.beginStep();
        for (;;) {
            long long d = num();
            if (d == 0) { break; }
            switch (d) {
                case 1: {
                    auto ht = Head_t(static_cast<unsigned>(num()));
                    auto h = ids();
                    if (num() == 0) { auto b = lits(); out.rule(ht, toSpan(h), toSpan(b)); }
                    else { auto bound = static_cast<Weight_t>(num()); auto b = wlits(); out.rule(ht, toSpan(h), bound, toSpan(b)); }
                    break;
                }
                case 2: { auto p = static_cast<Weight_t>(num()); auto b = wlits(); out.minimize(p, toSpan(b)); break; }
                case 3: { auto a = ids(); out.project(toSpan(a)); break; }
                case 4: { auto s = str(); auto c = lits(); out.output(toSpan(s.c_str(), s.size()), toSpan(c)); break; }
                case 5: { auto a = static_cast<Atom_t>(num()); out.external(a, Value_t(static_cast<unsigned>(num()))); break; }
                case 6: { auto a = lits(); out.assume(toSpan(a)); break; }
                case 7: {
                    auto t = Heuristic_t(static_cast<unsigned>(num())); auto a = static_cast<Atom_t>(num());
                    auto bias = static_cast<int>(num()); auto prio = static_cast<unsigned>(num()); auto c = lits();
                    out.heuristic(a, t, bias, prio, toSpan(c)); break;
                }
                case 8: { auto s = static_cast<int>(num()); auto t = static_cast<int>(num()); auto c = lits(); out.acycEdge(s, t, toSpan(c)); break; }
                case 9: {
                    auto t = num(); auto id = static_cast<Id_t>(num());
                    switch (t) {
                        case 0: out.theoryTerm(id, static_cast<int>(num())); break;
                        case 1: { auto s = str(); out.theoryTerm(id, toSpan(s.c_str(), s.size())); break; }
                        case 2: { auto c = static_cast<int>(num()); auto a = ids(); out.theoryTerm(id, c, toSpan(a)); break; }
                        case 4: { auto a = ids(); auto c = lits(); out.theoryElement(id, toSpan(a), toSpan(c)); break; }
                        case 5: { auto n = static_cast<Id_t>(num()); auto e = ids(); out.theoryAtom(id, n, toSpan(e)); break; }
                        case 6: { auto n = static_cast<Id_t>(num()); auto e = ids(); auto op = static_cast<Id_t>(num()); auto r = static_cast<Id_t>(num()); out.theoryAtom(id, n, toSpan(e), op, r); break; }
                        default: fail("unknown theory directive");
                    }
                    break;
                }
                case 10: std::getline(in, line); break;
                default: fail("unknown directive");
            }
        }
        out.endStep();
        if (!inc) { break; }
    }
    return 0;
}
} // namespace Potassco
