// Interpreter of the operation language over the C++ interface (counterpart of drv.py).
#include <clingo.hh>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <cstring>
#include <sstream>
using namespace Clingo;
using S = std::string;
using SV = std::vector<S>;
#ifdef DRV_TREE
static bool const tree = true;
#else
static bool const tree = false;
#endif
static std::ostringstream *g_out;
struct Injected : std::runtime_error { using std::runtime_error::runtime_error; };
static struct { bool on = false; S prefix; int k = 0, exc = 0, n = 0; } g_inj;
static void o(S const &s) {
    *g_out << s << "\n";
    if (g_inj.on && s.compare(0, g_inj.prefix.size(), g_inj.prefix) == 0 && ++g_inj.n == g_inj.k) {
        *g_out << "!injected\n";
        S m = "injected-" + std::to_string(g_inj.n);
        switch (g_inj.exc % 6) {
            case 0: { throw Injected(m); }
            case 1: { throw std::logic_error(m); }
            case 2: { throw std::runtime_error(m); }
            case 3: { throw std::bad_alloc(); }
            case 4: { throw m; }
            default: { throw std::out_of_range(m); }
        }
    }
}
static S enc(S const &s) {
    static char const *ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'";
    if (s.empty()) { return "%"; }
    S r;
    for (unsigned char c : s) {
        if (c && strchr(ok, c)) { r += c; }
        else { char b[8]; snprintf(b, 8, "%%%02X", c); r += b; }
    }
    return r;
}
static S dec(S const &s) {
    if (s == "%") { return ""; }
    S r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else { r += s[i]; }
    }
    return r;
}
static SV split(S const &s, char c) {
    SV r; S x;
    for (char d : s) { if (d == c) { r.push_back(x); x.clear(); } else { x += d; } }
    r.push_back(x);
    return r;
}
static SV lst(S const &s, char c = ';') { return s.empty() ? SV{} : split(s, c); }
static Symbol build(SV const &t, size_t &i) {
    auto k = split(t.at(i++), ':');
    if (k[0] == "n") { return Number(std::stoi(k[1])); }
    if (k[0] == "s") { return String(dec(k[1]).c_str()); }
    if (k[0] == "i") { return Infimum(); }
    if (k[0] == "p") { return Supremum(); }
    std::vector<Symbol> a;
    if (k[0] == "f") {
        int n = std::stoi(k[3]);
        for (int j = 0; j < n; ++j) { a.push_back(build(t, i)); }
        if (n == 0 && k[2] == "-") { return Id(dec(k[1]).c_str(), false); }
        return Function(dec(k[1]).c_str(), a, k[2] == "+");
    }
    if (k[0] == "t") {
        int n = std::stoi(k[1]);
        for (int j = 0; j < n; ++j) { a.push_back(build(t, i)); }
        return Function("", a);
    }
    throw std::runtime_error("bad symbol");
}
static Symbol E(S const &s) { size_t i = 0; auto t = split(s, ' '); return build(t, i); }
static S ser(Symbol s) {
    std::ostringstream r;
    switch (s.type()) {
        case SymbolType::Number: { r << "n:" << s.number(); break; }
        case SymbolType::String: { r << "s:" << enc(s.string()); break; }
        case SymbolType::Infimum: { r << "i"; break; }
        case SymbolType::Supremum: { r << "p"; break; }
        case SymbolType::Function: {
            if (s.is_positive() == s.is_negative()) { return "badsign"; }
            if (S(s.name()).empty() && s.is_positive()) { r << "t:" << s.arguments().size(); }
            else { r << "f:" << enc(s.name()) << ":" << (s.is_positive() ? "+" : "-") << ":" << s.arguments().size(); }
            for (auto x : s.arguments()) { r << " " << ser(x); }
        }
    }
    return r.str();
}
static S B(bool x) { return x ? "1" : "0"; }
template <class T> static S ints(T const &xs) { S r; for (auto x : xs) { r += (r.empty() ? "" : ",") + std::to_string(x); } return r.empty() ? "-" : r; }
static S wl(WeightedLiteralSpan xs) { S r; for (auto x : xs) { r += (r.empty() ? "" : ",") + std::to_string(x.literal()) + "=" + std::to_string(x.weight()); } return r.empty() ? "-" : r; }
template <class T> static S str(T const &x) { std::ostringstream s; s << x; return s.str(); }
static bool isint(S const &s) { size_t b = s.size() > 1 && (s[0] == '-' || s[0] == '+') ? 1 : 0; return s.size() > b && s.find_first_not_of("0123456789", b) == S::npos; }

struct Obs : GroundProgramObserver {
    void init_program(bool i) override { o("O init " + B(i)); }
    void begin_step() override { o("O begin"); }
    void end_step() override { o("O end"); }
    void rule(bool c, AtomSpan h, LiteralSpan b) override { o("O rule " + B(c) + " " + ints(h) + " " + ints(b)); }
    void weight_rule(bool c, AtomSpan h, weight_t l, WeightedLiteralSpan b) override { o("O wrule " + B(c) + " " + ints(h) + " " + std::to_string(l) + " " + wl(b)); }
    void minimize(weight_t p, WeightedLiteralSpan l) override { o("O min " + std::to_string(p) + " " + wl(l)); }
    void project(AtomSpan a) override { o("O project " + ints(a)); }
    void output_atom(Symbol s, atom_t a) override { o("O outatom " + enc(s.to_string()) + " " + std::to_string(a)); }
    void output_term(Symbol s, LiteralSpan c) override { o("O outterm " + enc(s.to_string()) + " " + ints(c)); }
    void external(atom_t a, ExternalType t) override { o("O ext " + std::to_string(a) + " " + (t == ExternalType::Release ? S("Release") : str(t) == "Free" ? S("Free") : str(t) == "True" ? S("True_") : S("False_"))); }
    void assume(LiteralSpan l) override { o("O assume " + ints(l)); }
    void heuristic(atom_t a, HeuristicType t, int b, unsigned p, LiteralSpan c) override { o("O heu " + std::to_string(a) + " " + str(t) + " " + std::to_string(b) + " " + std::to_string(p) + " " + ints(c)); }
    void acyc_edge(int u, int v, LiteralSpan c) override { o("O edge " + std::to_string(u) + " " + std::to_string(v) + " " + ints(c)); }
    void theory_term_number(id_t i, int n) override { o("O tnum " + std::to_string(i) + " " + std::to_string(n)); }
    void theory_term_string(id_t i, char const *n) override { o("O tstr " + std::to_string(i) + " " + enc(n)); }
    void theory_term_compound(id_t i, int n, IdSpan a) override { o("O tcomp " + std::to_string(i) + " " + std::to_string(n) + " " + ints(a)); }
    void theory_element(id_t i, IdSpan t, LiteralSpan c) override { o("O telem " + std::to_string(i) + " " + ints(t) + " " + ints(c)); }
    void theory_atom(id_t a, id_t t, IdSpan e) override { o("O tatom " + std::to_string(a) + " " + std::to_string(t) + " " + ints(e)); }
    void theory_atom_with_guard(id_t a, id_t t, IdSpan e, id_t op, id_t r) override { o("O tatomg " + std::to_string(a) + " " + std::to_string(t) + " " + ints(e) + " " + std::to_string(op) + " " + std::to_string(r)); }
};

// Scripted propagator, counterpart of Prop in drv.py.
static S modename(PropagatorCheckMode m) { return m == PropagatorCheckMode::None ? "Off" : m == PropagatorCheckMode::Total ? "Total" : m == PropagatorCheckMode::Partial ? "Fixpoint" : "Both"; }
struct Script {
    S tag;
    std::vector<SV> items, pcs, ccs;
    std::map<int, std::vector<SV>> ats;
    SV const *dec_ = nullptr;
    bool quiet = false;
    int calls = 0;
    std::vector<literal_t> fresh;
    std::map<S, literal_t> map;
    std::set<literal_t> track;
    Script(SV const &a) : tag(a.at(1)) {
        for (size_t i = 2; i < a.size(); ++i) { items.push_back(split(a[i], ' ')); }
        for (auto &x : items) {
            if (x[0] == "quiet") { quiet = true; }
            if (x[0] == "pc") { pcs.push_back(x); }
            if (x[0] == "at") { ats[std::stoi(x[1])].push_back(SV(x.begin() + 2, x.end())); }
            if (x[0] == "decide") { dec_ = &x; }
        }
        ccs = pcs;
        for (auto &x : items) { if (x[0] == "cc") { ccs.push_back(x); } }
    }
    void o(S const &s) { if (!quiet) { ::o(tag + s); } }
    literal_t lit(S const &x) {
        literal_t sg = x[0] == '-' ? -1 : 1;
        S n = x.substr(1);
        if (n == "!") { return sg; }
        if (n[0] == '#') { return sg * fresh.at(std::stoul(n.substr(1))); }
        return sg * map.at(n);
    }
    std::vector<literal_t> lits(S const &s) { std::vector<literal_t> r; if (s != "-") { for (auto &x : split(s, ',')) { r.push_back(lit(x)); } } return r; }
    void init_(PropagateInit &i) {
        fresh.clear(); map.clear(); track.clear(); calls = 0;
        for (auto &&a : i.symbolic_atoms()) { map[enc(a.symbol().to_string())] = i.solver_literal(a.literal()); }
        S m;
        for (auto &k : map) { m += (m.empty() ? "" : " ") + k.first + "=" + std::to_string(k.second); }
        int ths = 0;
        for (auto &&t : i.theory_atoms()) { (void)t; ++ths; }
        auto cm = static_cast<PropagatorCheckMode>(clingo_propagate_init_get_check_mode(i.to_c()));
        o("init " + std::to_string(i.number_of_threads()) + " " + std::to_string(ths) + " " + modename(cm) + " " + m);
        for (auto &x : items) {
            auto &n = x[0];
            if (n == "mode") {
                i.set_check_mode(x[1] == "none" ? PropagatorCheckMode::None : x[1] == "total" ? PropagatorCheckMode::Total : x[1] == "fix" ? PropagatorCheckMode::Partial : PropagatorCheckMode::Both);
                cm = static_cast<PropagatorCheckMode>(clingo_propagate_init_get_check_mode(i.to_c()));
#ifndef DRV_REF
                if (cm != i.get_check_mode()) { o("BAD check mode"); }
#endif
                o("mode " + modename(cm));
            }
            else if (n == "watch") { if (x[2] == "-") { i.add_watch(lit(x[1])); } else { i.add_watch(lit(x[1]), id_t(std::stoi(x[2]))); } }
            else if (n == "unwatch") { if (x[2] == "-") { i.remove_watch(lit(x[1])); } else { i.remove_watch(lit(x[1]), id_t(std::stoi(x[2]))); } }
            else if (n == "freeze") { i.freeze_literal(lit(x[1])); }
            else if (n == "fresh") { fresh.push_back(x[1] == "-" ? i.add_literal() : i.add_literal(x[1] == "1")); o("fresh " + std::to_string(fresh.back())); }
            else if (n == "ic") { auto l = lits(x[1]); o("ic " + B(i.add_clause(l))); }
            else if (n == "iw") {
                std::vector<WeightedLiteral> w;
                if (x[5] != "-") { for (auto &y : split(x[5], ',')) { auto p = split(y, '='); w.emplace_back(lit(p[0]), std::stoi(p[1])); } }
                auto t = static_cast<WeightConstraintType>(std::stoi(x[3]));
                o("iw " + B(x[4] == "1" ? i.add_weight_constraint(lit(x[1]), w, std::stoi(x[2]), t, true) : i.add_weight_constraint(lit(x[1]), w, std::stoi(x[2]), t)));
            }
            else if (n == "im") { if (x[3] == "-") { i.add_minimize(lit(x[1]), std::stoi(x[2])); } else { i.add_minimize(lit(x[1]), std::stoi(x[2]), std::stoi(x[3])); } }
            else if (n == "ip") { o("ip " + B(i.propagate())); }
        }
        for (auto &k : map) { track.insert(std::abs(k.second)); }
        for (auto l : fresh) { track.insert(std::abs(l)); }
        if (!quiet) { dump("initend", i.assignment()); }
    }
    void dump(S const &what, Assignment const &a) {
        S vs;
        for (auto t : track) {
            for (auto l : {t, -t}) {
                auto v = a.truth_value(l);
                vs += (vs.empty() ? "" : " ") + std::to_string(l) + (v == TruthValue::True ? ":t:" : v == TruthValue::False ? ":f:" : ":u:") + (v == TruthValue::Free ? S("-") : std::to_string(a.level(l))) + ":" +
                      B(a.is_fixed(l)) + B(a.is_true(l)) + B(a.is_false(l)) + B(a.has_literal(l));
            }
        }
        if (vs.empty()) { vs = "-"; }
        uint32_t n = a.decision_level();
        std::vector<literal_t> tr, ds, al;
        S off;
        for (uint32_t k = 0; k <= n; ++k) { ds.push_back(a.decision(k)); }
#ifdef DRV_REF
        uint32_t sz = 0;
        clingo_assignment_trail_size(a.to_c(), &sz);
        for (uint32_t k = 0; k < sz; ++k) { literal_t l; clingo_assignment_trail_at(a.to_c(), k, &l); tr.push_back(l); }
        for (uint32_t k = 0; k <= n; ++k) {
            uint32_t b, e;
            clingo_assignment_trail_begin(a.to_c(), k, &b);
            clingo_assignment_trail_end(a.to_c(), k, &e);
            off += (off.empty() ? "" : " ") + std::to_string(b) + "-" + std::to_string(e);
        }
#else
        auto t = a.trail();
        for (auto l : t) { tr.push_back(l); }
        for (uint32_t k = 0; k < t.size(); ++k) { if (tr.at(k) != t.at(k) || t[k] != t.at(k)) { o("BAD trail"); } }
        if (tr.size() != t.size()) { o("BAD trail size"); }
        for (uint32_t k = 0; k <= n; ++k) {
            off += (off.empty() ? "" : " ") + std::to_string(t.begin_offset(k)) + "-" + std::to_string(t.end_offset(k));
            std::vector<literal_t> part(t.begin(k), t.end(k));
            if (part != std::vector<literal_t>(tr.begin() + t.begin_offset(k), tr.begin() + t.end_offset(k))) { o("BAD trail range"); }
        }
        for (auto l : a) { al.push_back(l); }
        if (al.size() != a.size() || al.size() != size_t(a.end() - a.begin())) { o("BAD assignment size"); }
        for (size_t k = 0; k < al.size(); ++k) { if (al[k] != a.at(k) || a[k] != al[k] || *(a.begin() + k) != al[k]) { o("BAD assignment"); } }
#endif
        S bad = "0";
        try { a.level(1 << 28); } catch (std::exception const &) { bad = "1"; }
        o(what + " | " + std::to_string(n) + " " + std::to_string(a.root_level()) + " " + B(a.has_conflict()) + " " + B(a.is_total()) + " " + std::to_string(a.size()) + " " + bad + B(a.has_literal(1 << 28)) + " | " + vs + " | " +
          ints(ds) + " | " + ints(tr) + " | " + off);
    }
    void enforce(PropagateControl &c, std::vector<SV> const &cs) {
        auto a = c.assignment();
        for (auto &x : cs) {
            auto cl = lits(x[4]);
            if (x[3] == "1") { for (auto &l : cl) { l = -l; } }
            bool sat = false;
            int fr = 0;
            for (auto l : cl) { sat = sat || a.is_true(l); fr += a.truth_value(l) == TruthValue::Free; }
            if (sat || fr > 1) { continue; }
            auto t = x[1] == "1" ? (x[2] == "1" ? ClauseType::VolatileStatic : ClauseType::Volatile) : (x[2] == "1" ? ClauseType::Static : ClauseType::Learnt);
            bool r = x[1] == "0" && x[2] == "0" ? c.add_clause(cl) : c.add_clause(cl, t);
            o("add " + x[4] + " " + B(r));
            if (!r) { return; }
            r = c.propagate();
            o("pp " + B(r));
            if (!r) { return; }
        }
    }
    void propagate_(PropagateControl &c, LiteralSpan changes) {
        if (!quiet) { dump("prop " + std::to_string(c.thread_id()) + " " + ints(changes), c.assignment()); }
        ++calls;
        auto it = ats.find(calls);
        if (it != ats.end()) {
            for (auto &x : it->second) {
                if (x[0] == "watch") { c.add_watch(lit(x[1])); }
                else if (x[0] == "unwatch") { c.remove_watch(lit(x[1])); }
                else if (x[0] == "fresh") { fresh.push_back(c.add_literal()); o("fresh " + std::to_string(fresh.back())); continue; }
                o("at " + x[0] + " " + x[1] + " " + B(c.has_watch(lit(x[1]))));
            }
        }
        enforce(c, pcs);
    }
    void check_(PropagateControl &c) {
        if (!quiet) { dump("check " + std::to_string(c.thread_id()), c.assignment()); }
        enforce(c, ccs);
    }
    void undo_(PropagateControl const &c, LiteralSpan changes) {
        if (!quiet) { dump("undo " + std::to_string(c.thread_id()) + " " + ints(changes), c.assignment()); }
    }
    literal_t decide_(id_t id, Assignment const &a, literal_t fallback) {
        literal_t r = (*dec_)[1] == "0" ? 0 : fallback;
        for (auto l : lits((*dec_)[2])) { if (a.truth_value(l) == TruthValue::Free) { r = l; break; } }
        if (!quiet) { dump("decide " + std::to_string(id) + " " + std::to_string(fallback) + " " + std::to_string(r), a); }
        return r;
    }
};
S joined(SV const &v) { S r; for (auto &x : v) { r += (r.empty() ? "" : " ") + x; } return r; }
S join(SV v, char const *sep = "|") { std::sort(v.begin(), v.end()); S r; bool f = true; for (auto &x : v) { if (!f) { r += sep; } f = false; r += x; } return r; }
S satom(SymbolicAtom const &x) { return enc(x.symbol().to_string()) + " " + std::to_string(x.literal()) + " " + B(x.is_fact()) + B(x.is_external()); }
void dump_satoms(SymbolicAtoms sa) {
    SV v;
    for (auto &&x : sa) {
        v.push_back(satom(x));
        auto y = sa.find(x.symbol());
        if (!y || y->symbol() != x.symbol() || y->literal() != x.literal() || sa[x.symbol()].literal() != x.literal()) { o("BAD lookup " + x.symbol().to_string()); }
        if (!x.match(x.symbol().name(), unsigned(x.symbol().arguments().size()))) { o("BAD match " + x.symbol().to_string()); }
    }
    o("satoms " + std::to_string(sa.length()) + " " + join(v));
    auto sig = [](Signature s) { return enc(s.name()) + "/" + std::to_string(s.arity()) + "/" + B(s.positive()); };
    SV sg; for (auto &s : sa.signatures()) { sg.push_back(sig(s)); if (s.positive() == s.negative()) { o("BAD sigsign"); } if (Signature(s.name(), s.arity(), s.positive()) != s || Signature(s.name(), s.arity(), s.positive()).hash() != s.hash()) { o("BAD sig"); } }
    o("sigs " + join(sg));
    for (auto &s : sa.signatures()) { SV w; for (auto it = sa.begin(s), ie = sa.end(); it != ie; ++it) { w.push_back(enc(it->symbol().to_string())); } o("sig " + sig(s) + " " + join(w)); }
    {   // iterators are values
        auto it = sa.begin(), ie = sa.end();
        size_t n = 0;
        for (; it != ie; ++n) {
            auto jt = it;
            if (!(jt == it) || jt->symbol() != it->symbol()) { o("BAD itcopy"); }
            auto kt = it++;
            if (kt != jt || it == jt) { o("BAD itpost"); }
            auto lt = ++jt;
            if (lt != it || jt != it) { o("BAD itpre"); }
        }
        if (n != sa.length() || it) { o("BAD itlen"); }
    }
}
struct IProp : Propagator { void init(PropagateInit &i) override { dump_satoms(i.symbolic_atoms()); } };
struct TProp : Propagator {
    std::vector<std::pair<S, literal_t>> sy;
    std::vector<std::pair<literal_t, std::vector<std::pair<literal_t, std::vector<literal_t>>>>> th;
    void init(PropagateInit &i) override {
        sy.clear(); th.clear();
        for (auto &&x : i.symbolic_atoms()) { sy.emplace_back(x.symbol().to_string(), i.solver_literal(x.literal())); }
        for (auto &&t : i.theory_atoms()) {
            th.emplace_back();
            th.back().first = i.solver_literal(t.literal());
            for (auto &&e : t.elements()) {
                th.back().second.emplace_back(i.solver_literal(e.condition_id()), std::vector<literal_t>());
                for (auto &&c : e.condition()) { th.back().second.back().second.push_back(i.solver_literal(c)); }
            }
        }
        o("ti " + std::to_string(th.size()));
    }
    void check(PropagateControl &c) override {
        auto a = c.assignment();
        if (!a.is_total()) { return; }
        SV r;
        for (auto &x : sy) { if (a.is_true(x.second)) { r.push_back(enc(x.first)); } }
        std::sort(r.begin(), r.end());
        o("ta " + (r.empty() ? S("-") : joined(r)));
        for (size_t k = 0; k < th.size(); ++k) {
            S v;
            for (auto &e : th[k].second) {
                bool all = true;
                for (auto x : e.second) { all = all && a.is_true(x); }
                if (a.is_true(e.first) != all || a.is_true(e.first) == a.is_false(e.first)) { o("BAD condition_id " + std::to_string(k)); }
                v += B(a.is_true(e.first));
            }
            o("tt " + std::to_string(k) + " " + B(a.is_true(th[k].first)) + " " + (v.empty() ? S("-") : v));
        }
    }
};
struct PropP : Propagator {
    Script s;
    PropP(SV const &a) : s(a) {}
    void init(PropagateInit &i) override { s.init_(i); }
    void propagate(PropagateControl &c, LiteralSpan l) override { s.propagate_(c, l); }
    void undo(PropagateControl const &c, LiteralSpan l) noexcept override { s.undo_(c, l); }
    void check(PropagateControl &c) override { s.check_(c); }
};
struct PropH : Heuristic {
    Script s;
    PropH(SV const &a) : s(a) {}
    void init(PropagateInit &i) override { s.init_(i); }
    void propagate(PropagateControl &c, LiteralSpan l) override { s.propagate_(c, l); }
    void undo(PropagateControl const &c, LiteralSpan l) noexcept override { s.undo_(c, l); }
    void check(PropagateControl &c) override { s.check_(c); }
    literal_t decide(id_t id, Assignment const &a, literal_t f) override { return s.decide_(id, a, f); }
};

struct Driver {
    std::vector<std::unique_ptr<Propagator>> props, tprops;
    std::vector<std::unique_ptr<Obs>> obs;
    std::map<int, std::unique_ptr<Control>> c;
    int cur = 0;
    std::map<S, S> funs;
    int nerr = 0;
    Control &ctl() { auto it = c.find(cur); if (it == c.end()) { throw std::runtime_error("no control"); } return *it->second; }

    struct Ass { std::vector<literal_t> lits; std::vector<SymbolicLiteral> syms; bool sym = false; };
    // "=+sym" and "=-sym": the program literal of the symbol
    static literal_t direct(S const &x, SymbolicAtoms atoms) {
        auto it = atoms.find(parse_term(dec(x.substr(2)).c_str()));
        if (!it) { throw std::runtime_error("no such atom"); }
        return x[1] == '+' ? it->literal() : -it->literal();
    }
    std::vector<literal_t> mixed(S const &s, SymbolicAtoms atoms) {
        std::vector<literal_t> r;
        for (auto &x : lst(s)) {
            if ((x[0] == '+' || x[0] == '-') && !isint(x)) {
                auto it = atoms.find(parse_term(dec(x.substr(1)).c_str()));
                literal_t l = it ? it->literal() : -1;
                r.push_back(x[0] == '+' ? l : -l);
            }
            else if (x[0] == '=') { r.push_back(direct(x, atoms)); }
            else { r.push_back(std::stoi(x)); }
        }
        return r;
    }
    Ass ass(S const &s) {
        Ass r;
        for (auto &x : lst(s)) {
            if ((x[0] == '+' || x[0] == '-') && !isint(x)) { r.sym = true; r.syms.emplace_back(parse_term(dec(x.substr(1)).c_str()), x[0] == '+'); }
            else if (x[0] == '=') { r.lits.push_back(direct(x, ctl().symbolic_atoms())); }
            else { r.lits.push_back(std::stoi(x)); }
        }
        if (!r.lits.empty() && r.sym) { r.sym = false; r.lits = mixed(s, ctl().symbolic_atoms()); }
        return r;
    }
    static S syms(Model const &m, clingo_show_type_bitset_t t) { S r; for (auto &x : m.symbols(t)) { r += (r.empty() ? "" : " ") + enc(x.to_string()); } return r.empty() ? "-" : r; }
    static S mtype(ModelType t) { return t == ModelType::StableModel ? "StableModel" : t == ModelType::BraveConsequences ? "BraveConsequences" : "CautiousConsequences"; }
    void model(Model const &m) {
        S prio = "?";
#ifndef DRV_REF
        if (tree) { prio = ints(m.priorities()); }
#endif
        o("M\t" + std::to_string(m.number()) + "\t" + mtype(m.type()) + "\t" + ints(m.cost()) + "\t" + B(m.optimality_proven()) + "\t" + std::to_string(m.thread_id()) + "\t" + syms(m, ShowType::Shown) + "\t" +
          syms(m, ShowType::Atoms) + "\t" + syms(m, ShowType::Terms) + "\t" + syms(m, ShowType::Atoms | ShowType::Complement) + "\t" + prio);
        auto av = m.symbols(ShowType::Atoms);
        std::set<Symbol> ats(av.begin(), av.end());
        for (auto &&sa : m.context().symbolic_atoms()) {
            bool in = ats.count(sa.symbol()) > 0;
            if (m.contains(sa.symbol()) != in) { o("BAD contains " + sa.symbol().to_string()); }
            if (sa.literal() == 0) { if (in) { o("BAD zero " + sa.symbol().to_string()); } }
            else if (m.type() == ModelType::StableModel && (m.is_true(sa.literal()) != in || m.is_true(-sa.literal()) == in)) { o("BAD is_true " + sa.symbol().to_string()); }
        }
    }
    void act(Model &m, S const &onm) {
        for (auto &a : lst(onm, '|')) {
            char k = a[0];
            S v = a.substr(2);
            if (k == 'x') {
                std::vector<Symbol> xs;
                for (auto &x : lst(v)) { xs.push_back(E(x)); }
                m.extend(xs);
                o("X " + syms(m, ShowType::Theory));
            }
            else if (k == 'c' || k == 'n') {
                auto ctx = m.context();
                bool allsym = true;
                for (auto &x : lst(v)) { allsym = allsym && !isint(x) && x[0] != '='; }
                if (allsym) {
                    std::vector<SymbolicLiteral> l;
                    for (auto &x : lst(v)) { l.emplace_back(parse_term(dec(x.substr(1)).c_str()), (x[0] == '+') == (k == 'c')); }
                    ctx.add_clause(SymbolicLiteralSpan{l});
                }
                else {
                    auto l = mixed(v, ctx.symbolic_atoms());
                    if (k == 'n') { for (auto &x : l) { x = -x; } }
                    ctx.add_clause(LiteralSpan{l});
                }
            }
            else if (k == 'S') { dump_satoms(m.context().symbolic_atoms()); }
            else if (k == 'b') {
                std::vector<SymbolicLiteral> l;
                for (auto &x : lst(v)) { auto s = parse_term(dec(x).c_str()); l.emplace_back(s, !m.contains(s)); }
                m.context().add_clause(SymbolicLiteralSpan{l});
            }
        }
    }
    void res(SolveResult r) { o("R " + B(r.is_satisfiable()) + B(r.is_unsatisfiable()) + B(r.is_unknown()) + B(r.is_exhausted()) + B(r.is_interrupted())); }
    struct EH : SolveEventHandler {
        Driver *d; int limit, cnt = 0; S onm; bool models;
        bool on_model(Model &m) override { if (!models) { return true; } ++cnt; d->model(m); d->act(m, onm); return cnt != limit; }
        void on_unsat(Span<int64_t> l) override { if (models) { o("U " + ints(l)); } }
        void on_finish(SolveResult r) override { o("F " + B(r.is_satisfiable()) + B(r.is_unsatisfiable()) + B(r.is_exhausted()) + B(r.is_interrupted())); }
    };
    SolveHandle start(Ass &a, EH *eh, bool as, bool yield) {
        if (a.sym) { return ctl().solve(SymbolicLiteralSpan{a.syms}, eh, as, yield); }
        return ctl().solve(LiteralSpan{a.lits}, eh, as, yield);
    }
    void solve(S const &mode, S const &as, int limit, S const &onm) {
        Ass a = ass(as);
        EH eh;
        eh.d = this; eh.limit = limit; eh.onm = onm; eh.models = mode == "cb" || mode == "async";
        if (eh.models) {
            auto h = start(a, &eh, mode == "async", false);
            if (mode == "async") { h.wait(); }
            auto r = h.get();
            if (r.is_unsatisfiable()) { o("core " + ints(h.core())); }
            res(r);
            return;
        }
        auto h = start(a, &eh, mode == "ayield", true);
        bool stopped = false;
        int cnt = 0;
        if (mode == "step") {
            while (auto &m = h.next()) { // NOLINT
                ++cnt;
                model(m);
                act(const_cast<Model &>(m), onm);
                if (cnt == limit) { stopped = true; break; }
            }
        }
        else {
            for (auto &m : h) {
                ++cnt;
                model(m);
                act(const_cast<Model &>(m), onm);
                if (cnt == limit) { stopped = true; break; }
            }
        }
        if (stopped) { h.cancel(); }
        auto r = h.get();
        if (r.is_unsatisfiable()) { o("core " + ints(h.core())); }
        res(r);
    }
    S tterm(TheoryTerm t) {
        auto args = [&]() { S r; for (auto x : t.arguments()) { r += (r.empty() ? "" : " ") + tterm(x); } return r; };
        switch (t.type()) {
            case TheoryTermType::Number: return "n" + std::to_string(t.number());
            case TheoryTermType::Symbol: return "y" + enc(t.name());
            case TheoryTermType::Function: return "f" + enc(t.name()) + "(" + args() + ")";
            case TheoryTermType::Tuple: return "t(" + args() + ")";
            case TheoryTermType::List: return "l(" + args() + ")";
            case TheoryTermType::Set: return "s(" + args() + ")";
        }
        return "?";
    }
    Configuration cfg(S const &path) {
        auto r = ctl().configuration();
        for (auto &p : lst(path, '.')) { if (isint(p) && size_t(std::stoi(p)) >= r.size()) { throw std::runtime_error("index"); } r = isint(p) ? Configuration(r[size_t(std::stoi(p))]) : Configuration(r[p.c_str()]); }
        return r;
    }
    void conftree(S const &path, S const &pre, Configuration c) {
        SV k; bool arr = c.is_array(), map = c.is_map();
        if (map) { for (auto y : c.keys()) { k.push_back(y); } }
        std::sort(k.begin(), k.end());
        size_t n = arr ? c.size() : 0;
        o("c " + (pre.empty() ? S("/") : pre) + " " + B(arr) + B(map) + " " + std::to_string(n) + " " + join(k, ","));
        if (arr && c.empty() != (n == 0)) { o("BAD empty"); }
        size_t i = 0;
        if (arr) { for (auto x : c) { conftree(path, pre + "/" + std::to_string(i), i % 2 ? c.at(i) : x); ++i; } }
        if (i != n) { o("BAD iteration"); }
        for (auto &y : k) {
            auto v = c.get(y.c_str());
            o("d " + pre + "/" + y + " " + enc(v.decription()));
            if (v.is_value()) { o("v " + pre + "/" + y + (v.is_assigned() ? " =" + enc(v.value()) : S(" none"))); if (v.is_assigned() && S(v) != v.value()) { o("BAD value"); } }
            else if (n == 0 || !path.empty()) { conftree(path, pre + "/" + y, v); }
        }
    }
    static S dbl17(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
    void statfull(S const &pre, Statistics s) {
        S p = pre.empty() ? "/" : pre;
        if (s.type() == StatisticsType::Map) {
            SV k; for (auto x : s.keys()) { k.push_back(x); }
            std::sort(k.begin(), k.end());
            o("s " + p + " {" + std::to_string(k.size()) + "}");
            for (auto &x : k) { if (!s.has_subkey(x.c_str())) { o("BAD subkey"); } statfull(pre + "/" + enc(x), k.size() % 2 ? s[x.c_str()] : s.at(x.c_str())); }
            if (s.has_subkey("no such key")) { o("BAD nokey"); }
        }
        else if (s.type() == StatisticsType::Array) {
            o("s " + p + " [" + std::to_string(s.size()) + "]");
            size_t i = 0;
            for (auto x : s) { statfull(pre + "/" + std::to_string(i), i % 2 ? x : i % 4 ? s[i] : s.at(i)); ++i; }
            if (i != s.size()) { o("BAD iteration"); }
        }
        else { o("s " + p + " " + dbl17(s.value())); if (double(s) != s.value()) { o("BAD value"); } }
    }
    // user statistics: numbers, +n (update), [..], {k=..}; written into an existing (type-consistent) or new node
    static StatisticsType utype(S const &s, size_t p) { return s[p] == '[' ? StatisticsType::Array : s[p] == '{' ? StatisticsType::Map : StatisticsType::Value; }
    static void uput(UserStatistics st, S const &s, size_t &p, bool fresh) {
        if (s[p] == '[') {
            ++p; size_t i = 0, n = st.size();
            while (s[p] != ']') {
                if (i < n) { uput(st[i], s, p, false); } else { uput(st.push(utype(s, p)), s, p, true); }
                ++i; if (s[p] == ',') { ++p; }
            }
            ++p;
        }
        else if (s[p] == '{') {
            ++p;
            while (s[p] != '}') {
                size_t e = s.find('=', p); S k = dec(s.substr(p, e - p)); p = e + 1;
                if (st.has_subkey(k.c_str())) { uput(st[k.c_str()], s, p, false); } else { uput(st.add_subkey(k.c_str(), utype(s, p)), s, p, true); }
                if (s[p] == ',') { ++p; }
            }
            ++p;
        }
        else {
            size_t e = p; while (e < s.size() && !strchr(",]}", s[e])) { ++e; }
            S t = s.substr(p, e - p); p = e;
            if (t[0] == '+') { st.set_value(std::stod(t.substr(1)) + (fresh ? 0 : double(st.value()))); }
            else { st.set_value(std::stod(t)); }
        }
    }
    struct UHandler : SolveEventHandler {
        SV const &items;
        UHandler(SV const &i) : items(i) {}
        void on_statistics(UserStatistics step, UserStatistics accu) override {
            o("ustats");
            for (size_t i = 1; i < items.size(); ++i) { size_t p = 2; uput(items[i][0] == 'S' ? step : accu, items[i], p, false); }
        }
    };
    static S dbl(double d) { char b[64]; snprintf(b, 64, "%g", d); return b; }
    S stree(Statistics s) {
        if (s.type() == StatisticsType::Map) {
            SV k; for (auto x : s.keys()) { k.push_back(x); }
            std::sort(k.begin(), k.end());
            S r; for (auto &x : k) { r += (r.empty() ? "" : " ") + enc(x) + "=" + stree(s[x.c_str()]); }
            return "{" + r + "}";
        }
        if (s.type() == StatisticsType::Array) { S r; for (auto x : s) { r += (r.empty() ? "" : " ") + stree(x); } return "[" + r + "]"; }
        return dbl(s);
    }
    TruthValue tv(S const &v) { return v == "t" ? TruthValue::True : v == "f" ? TruthValue::False : TruthValue::Free; }

    void backend(SV const &a) {
        auto b = ctl().backend();
        std::map<S, int64_t> env;
        auto one = [&](S const &x) -> int64_t { if (env.count(x)) { return env[x]; } if (x[0] == '-' && env.count(x.substr(1))) { return -env[x.substr(1)]; } return std::stoll(x); };
        auto il = [&](S const &s) { std::vector<int> r; if (s != "-") { for (auto &x : split(s, ',')) { r.push_back(int(one(x))); } } return r; };
        auto al = [&](S const &s) { std::vector<atom_t> r; if (s != "-") { for (auto &x : split(s, ',')) { r.push_back(atom_t(one(x))); } } return r; };
        auto awl = [&](S const &s) { std::vector<WeightedLiteral> r; if (s != "-") { for (auto &x : split(s, ',')) { auto p = split(x, '='); r.emplace_back(int(one(p[0])), std::stoi(p[1])); } } return r; };
        for (size_t i = 1; i < a.size(); ++i) {
            auto k = split(a[i], ' ');
            auto &n = k[0];
            if (n == "atom") { env[k[1]] = k[2] == "-" ? b.add_atom() : b.add_atom(parse_term(dec(k[2]).c_str())); }
            else if (n == "rule") { auto h = al(k[2]); auto bd = il(k[3]); b.rule(k[1] == "1", h, bd); }
            else if (n == "wrule") { auto h = al(k[2]); auto bd = awl(k[4]); b.weight_rule(k[1] == "1", h, std::stoi(k[3]), bd); }
            else if (n == "min") { auto bd = awl(k[2]); b.minimize(std::stoi(k[1]), bd); }
            else if (n == "project") { auto h = al(k[1]); b.project(h); }
            else if (n == "ext") { b.external(atom_t(one(k[1])), k[2] == "Release" ? ExternalType::Release : k[2] == "Free" ? ExternalType::Free : k[2] == "True_" ? ExternalType::True : ExternalType::False); }
            else if (n == "assume") { auto l = il(k[1]); b.assume(l); }
            else if (n == "heu") {
                std::map<S, HeuristicType> hm{{"Level", HeuristicType::Level}, {"Sign", HeuristicType::Sign}, {"Factor", HeuristicType::Factor}, {"Init", HeuristicType::Init}, {"True_", HeuristicType::True}, {"False_", HeuristicType::False}};
                auto l = il(k[5]); b.heuristic(atom_t(one(k[1])), hm.at(k[2]), std::stoi(k[3]), unsigned(std::stoul(k[4])), l);
            }
            else if (n == "edge") { auto l = il(k[3]); b.acyc_edge(std::stoi(k[1]), std::stoi(k[2]), l); }
            else if (n == "tnum") { env[k[1]] = b.add_theory_term_number(std::stoi(k[2])); }
            else if (n == "tstr") { env[k[1]] = b.add_theory_term_string(dec(k[2]).c_str()); }
            else if (n == "tfun") { auto l = al(k[3]); env[k[1]] = b.add_theory_term_function(dec(k[2]).c_str(), l); }
            else if (n == "tseq") { auto l = al(k[3]); env[k[1]] = b.add_theory_term_sequence(k[2] == "Tuple" ? TheorySequenceType::Tuple : k[2] == "List" ? TheorySequenceType::List : TheorySequenceType::Set, l); }
            else if (n == "tsym") { env[k[1]] = b.add_theory_term_symbol(E(dec(k[2]))); }
            else if (n == "telem") { auto t = al(k[2]); auto l = il(k[3]); env[k[1]] = b.add_theory_element(t, l); }
            else if (n == "tatom") {
                auto l = al(k[4]);
#ifdef DRV_REF
                id_t at = k[2] == "-" ? b.add_atom() : id_t(one(k[2]));
                if (k[5] == "-") { b.theory_atom(at, id_t(one(k[3])), l); } else { b.theory_atom(at, id_t(one(k[3])), l, dec(k[5]).c_str(), id_t(one(k[6]))); }
                env[k[1]] = at;
#else
                if (k[2] == "-") { env[k[1]] = k[5] == "-" ? b.theory_atom(id_t(one(k[3])), l) : b.theory_atom(id_t(one(k[3])), l, dec(k[5]).c_str(), id_t(one(k[6]))); }
                else { env[k[1]] = k[5] == "-" ? b.theory_atom(id_t(one(k[2])), id_t(one(k[3])), l) : b.theory_atom(id_t(one(k[2])), id_t(one(k[3])), l, dec(k[5]).c_str(), id_t(one(k[6]))); }
#endif
            }
            else { throw std::runtime_error("bad backend op " + n); }
        }
        S r;
        for (auto &x : env) { r += (r.empty() ? "" : " ") + x.first + "=" + std::to_string(x.second); }
        o("ids " + r);
#ifndef DRV_REF
        b.close();
#endif
    }
    void op(SV a) {
        auto const &n = a[0];
        auto A = [&](size_t i) -> S { return i < a.size() ? a[i] : S(); };
        if (n == "sym") {
            auto s = E(A(1)); auto t = s.to_string(); auto q = parse_term(t.c_str());
            o("sym | " + ser(s) + " | " + enc(t) + " | " + ser(q) + " | " + B(s == q && s.hash() == q.hash() && !(s != q) && str(s) == t));
        }
        else if (n == "symerr") {
            auto s = E(A(1)); auto p = A(2); S r;
            if (p == "number") { r = std::to_string(s.number()); }
            else if (p == "string") { r = enc(s.string()); }
            else if (p == "name") { r = enc(s.name()); }
            else if (p == "positive") { r = B(s.is_positive()); }
            else if (p == "negative") { r = B(s.is_negative()); }
            else { bool f = true; for (auto x : s.arguments()) { r += (f ? "" : ";") + ser(x); f = false; } }
            o("val " + r);
        }
        else if (n == "match") { o("match " + B(E(A(1)).match(dec(A(2)).c_str(), unsigned(std::stoi(A(3)))))); }
        else if (n == "cmp") {
            auto x = E(A(1)), y = E(A(2));
            o("cmp " + B(x < y) + B(x <= y) + B(x == y) + B(x != y) + B(x >= y) + B(x > y) + " " + B(x.hash() == y.hash() && std::hash<Symbol>()(x) == x.hash()));
        }
        else if (n == "order") {
            std::vector<Symbol> v; for (auto &x : lst(A(1))) { v.push_back(E(x)); }
            std::sort(v.begin(), v.end());
            S r; for (auto &x : v) { r += (r.empty() ? "" : ";") + ser(x); }
            o("order " + r);
        }
        else if (n == "parse") { o("parse " + ser(parse_term(dec(A(1)).c_str(), [](WarningCode, char const *) {}))); }
        else if (n == "new") {
            cur = std::stoi(A(1));
            SV args; for (auto &x : lst(A(2))) { args.push_back(dec(x)); }
            std::vector<char const *> ca; for (auto &x : args) { ca.push_back(x.c_str()); }
            c[cur].reset();
            c[cur].reset(new Control(ca, [](WarningCode code, char const *m) {
                static char const *names[] = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"};
                o(S("log ") + names[static_cast<int>(code)] + " " + enc(m));
            }));
        }
        else if (n == "use") { cur = std::stoi(A(1)); }
        else if (n == "del") { c.erase(std::stoi(A(1))); }
        else if (n == "add") {
            SV ps; for (auto &x : lst(A(2))) { ps.push_back(dec(x)); }
            std::vector<char const *> cp; for (auto &x : ps) { cp.push_back(x.c_str()); }
            ctl().add(dec(A(1)).c_str(), cp, dec(A(3)).c_str());
        }
        else if (n == "load") { ctl().load(dec(A(1)).c_str()); }
        else if (n == "extfun") { funs[A(1)] = A(2); }
        else if (n == "ground") {
            std::vector<std::pair<S, std::vector<Symbol>>> ps;
            for (auto &p : split(A(1), '|')) { auto q = split(p, ';'); std::vector<Symbol> v; for (size_t i = 1; i < q.size(); ++i) { v.push_back(E(q[i])); } ps.emplace_back(dec(q[0]), v); }
            std::vector<Part> parts; for (auto &p : ps) { parts.emplace_back(p.first.c_str(), p.second); }
            GroundCallback cb;
            if (!funs.empty()) {
                cb = [this](Location, char const *name, SymbolSpan args, SymbolSpanCallback ret) {
                    auto it = funs.find(name);
                    if (it == funs.end()) { throw std::runtime_error("function not found"); }
                    S r; for (auto x : args) { r += (r.empty() ? "" : ";") + ser(x); }
                    o(S("call ") + name + " " + (r.empty() ? "-" : r));
                    auto &k = it->second;
                    if (k == "err") { throw std::runtime_error("extfun failed"); }
                    if (k == "echo") { ret(args); }
                    else if (k == "first") { ret({args[0]}); }
                    else if (k == "none") { ret({}); }
                    else if (k == "tuple") { ret({Function("", args)}); }
                    else if (k == "nargs") { ret({Number(int(args.size()))}); }
                    else if (k == "wrap") { ret({Function("w", args, args.empty())}); }
                    else if (k == "each") { std::vector<Symbol> v; for (auto x : args) { v.push_back(Function("e", {x})); } ret(v); }
                    else if (k == "dup") { ret({args[0], args[0], Number(1)}); }
                    else if (k == "gen") { for (size_t i = args.size(); i > 0; --i) { ret({args[i - 1]}); } }
                    else if (k == "many") {
                        std::vector<Symbol> v;
                        for (int i = 0; i < 300; ++i) { std::vector<Symbol> w{Number(i)}; w.insert(w.end(), args.begin(), args.end()); v.push_back(Function("m", w)); }
                        ret(v);
                    }
                    else if (k.compare(0, 6, "errat:") == 0) {
                        if (++nerr == std::stoi(k.substr(6))) { throw std::runtime_error("extfun failed"); }
                        ret({args[0]});
                    }
                    else { std::vector<Symbol> v; for (auto &x : split(k, ';')) { v.push_back(E(x)); } ret(v); }
                };
            }
            ctl().ground(parts, cb);
        }
        else if (n == "solve") { solve(A(1), A(2), std::stoi(A(3)), A(4)); }
        else if (n == "assign") { auto s = A(1); if (isint(s)) { ctl().assign_external(std::stoi(s), tv(A(2))); } else { ctl().assign_external(parse_term(dec(s).c_str()), tv(A(2))); } }
        else if (n == "release") { auto s = A(1); if (isint(s)) { ctl().release_external(std::stoi(s)); } else { ctl().release_external(parse_term(dec(s).c_str())); } }
        else if (n == "cleanup") { ctl().cleanup(); }
        else if (n == "interrupt") { ctl().interrupt(); }
        else if (n == "const") { auto k = dec(A(1)); o("const " + (ctl().has_const(k.c_str()) ? ser(ctl().get_const(k.c_str())) : S("none"))); }
        else if (n == "flags") {
            bool e = A(1) == "enable_cleanup";
            if (A(2) != "?") { if (e) { ctl().enable_cleanup(A(2) == "1"); } else { ctl().enable_enumeration_assumption(A(2) == "1"); } }
            o("flags " + B(e ? ctl().enable_cleanup() : ctl().enable_enumeration_assumption()));
        }
        else if (n == "conflicting") { o("conflicting " + B(ctl().is_conflicting())); }
        else if (n == "satoms") { dump_satoms(ctl().symbolic_atoms()); }
        else if (n == "bysig") {
            SV w;
            auto sa = ctl().symbolic_atoms();
            for (auto it = sa.begin(Signature(dec(A(1)).c_str(), unsigned(std::stoul(A(2))), A(3) == "1")); it; ++it) { w.push_back(enc(it->symbol().to_string())); }
            o("bysig " + join(w));
        }
        else if (n == "iprop") { tprops.emplace_back(new IProp()); ctl().register_propagator(*tprops.back()); }
        else if (n == "lookup") { auto x = ctl().symbolic_atoms().find(parse_term(dec(A(1)).c_str())); o("lookup " + (x ? satom(*x) : S("none"))); }
        else if (n == "tatoms") {
            for (auto t : ctl().theory_atoms()) {
                S es;
                for (auto e : t.elements()) { S ts; for (auto x : e.tuple()) { ts += (ts.empty() ? "" : ",") + tterm(x); } es += (es.empty() ? "" : "/") + (ts.empty() ? S("-") : ts) + ":" + std::to_string(e.condition().size()) + ":" + ints(e.condition()) + ":" + enc(e.to_string()); }
                S g = "-";
                if (t.has_guard()) { auto gg = t.guard(); g = enc(gg.first) + " " + tterm(gg.second); }
                o("tatom " + tterm(t.term()) + " | " + (es.empty() ? S("-") : es) + " | " + g + " | " + (A(1) == "0" ? S() : std::to_string(t.literal())) + " | " + enc(t.to_string()));
            }
        }
        else if (n == "confget") { auto x = cfg(A(1)); o("conf " + (x.is_value() ? (x.is_assigned() ? enc(x.value()) : S("none")) : S("sub"))); }
        else if (n == "confset") { auto x = cfg(A(1)); x = dec(A(2)).c_str(); o("ok"); }
        else if (n == "confkeys") {
            auto x = cfg(A(1)); S r;
            SV k; if (x.is_map()) { for (auto y : x.keys()) { k.push_back(y); } }
            for (auto &y : k) { r += (r.empty() ? "" : " ") + y; }
            o("keys " + r);
            for (auto &y : k) { o("desc " + y + " " + enc(x[y.c_str()].decription())); }
            o("len " + std::to_string(x.is_array() ? x.size() : 0));
        }
        else if (n == "stat") {
            auto s = ctl().statistics();
            for (auto &p : split(A(1), '.')) { s = isint(p) ? s[size_t(std::stoi(p))] : s[p.c_str()]; }
            if (s.type() == StatisticsType::Map) { SV k; for (auto x : s.keys()) { k.push_back(x); } o("stat " + join(k, ",")); }
            else if (s.type() == StatisticsType::Array) { o("stat " + std::to_string(s.size())); }
            else { o("stat " + dbl(s.value())); }
        }
        else if (n == "conftree") { S pp = a.size() > 1 ? A(1) : S(); S pre = pp.empty() ? "" : "/" + pp; std::replace(pre.begin(), pre.end(), '.', '/'); conftree(pp, pre, cfg(pp)); }
        else if (n == "statfull") { statfull("", ctl().statistics()); }
        else if (n == "ustats") {
            UHandler h(a);
            auto hd = ctl().solve(SymbolicLiteralSpan{}, &h, false, false);
            res(hd.get());
        }
        else if (n == "stattree") { o("stats {problem=" + stree(ctl().statistics()["problem"]) + "}"); }
        else if (n == "failat") { g_inj.on = true; g_inj.prefix = dec(A(1)); g_inj.k = std::stoi(A(2)); g_inj.exc = std::stoi(A(3)); g_inj.n = 0; }
        else if (n == "nofail") { g_inj.on = false; }
        else if (n == "parsecb") {
            auto lg = [](WarningCode, char const *m) { o("log ? " + enc(m)); };
            auto rep = [](AST::Node const &x) { std::ostringstream u; u << x; o("A " + enc(u.str())); };
            if (A(1) == "f") {
                SV f; std::vector<char const *> c;
                for (auto &x : split(A(2), ';')) { f.push_back(dec(x)); }
                for (auto &x : f) { c.push_back(x.c_str()); }
                AST::parse_files(c, [&](AST::Node const &x) { rep(x); }, lg);
            }
            else if (A(1) == "c") {
                AST::with_builder(ctl(), [&](AST::ProgramBuilder &b) { AST::parse_string(dec(A(2)).c_str(), [&](AST::Node const &x) { b.add(x); rep(x); }, ctl(), lg); });
            }
            else { AST::parse_string(dec(A(2)).c_str(), [&](AST::Node const &x) { rep(x); }, lg); }
        }
        else if (n == "tprop") { tprops.emplace_back(new TProp()); ctl().register_propagator(*tprops.back()); }
        else if (n == "prop") {
            bool h = false;
            for (auto &x : a) { h = h || x.compare(0, 7, "decide ") == 0; }
            if (h) { auto *p = new PropH(a); props.emplace_back(p); ctl().register_propagator(static_cast<Heuristic &>(*p)); }
            else { auto *p = new PropP(a); props.emplace_back(p); ctl().register_propagator(static_cast<Propagator &>(*p)); }
        }
        else if (n == "observe") { obs.emplace_back(new Obs()); ctl().register_observer(*obs.back(), A(1) == "1"); }
        else if (n == "backend") { backend(a); }
        else { throw std::runtime_error("unknown op " + n); }
    }
};
int main() {
    std::unique_ptr<Driver> d(new Driver());
    S line;
    while (std::getline(std::cin, line)) {
        if (!line.empty() && line[0] == '#') { std::cout << line << std::endl; d.reset(new Driver()); g_inj.on = false; continue; }
        std::ostringstream out;
        g_out = &out;
        try { d->op(split(line, '\t')); }
        catch (Injected const &e) { o("ERR Injected " + enc(e.what())); }
        catch (std::out_of_range const &e) { o("ERR out_of_range " + enc(e.what())); }
        catch (std::exception const &e) { o("ERR " + enc(dynamic_cast<std::bad_alloc const *>(&e) ? "bad_alloc" : dynamic_cast<std::logic_error const *>(&e) ? "logic_error" : "runtime_error") + " " + enc(e.what())); }
        catch (S const &e) { o("ERR string " + enc(e)); }
        std::cout << out.str() << "." << std::endl;
    }
}
