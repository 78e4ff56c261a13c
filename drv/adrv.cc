// Syntax trees through the C++ interface (counterpart of adrv.py). With -DDRV_REF only the C functions are used.
#include <clingo.hh>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
using namespace Clingo;
using namespace Clingo::AST;
using S = std::string;
using SV = std::vector<S>;
static std::ostringstream *g_out;
static void o(S const &s) { *g_out << s << "\n"; }
static S enc(S const &s) {
    static char const *ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'";
    if (s.empty()) { return "%"; }
    S r;
    for (unsigned char c : s) {
        if (c && strchr(ok, c)) { r += c; }
        else { char b[8]; snprintf(b, 8, "%%%02X", c); r += b; }
    }
    return r;
}
static S dec(S const &s) {
    if (s == "%") { return ""; }
    S r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else { r += s[i]; }
    }
    return r;
}
static SV split(S const &s, char c) {
    SV r; S x;
    for (char d : s) { if (d == c) { r.push_back(x); x.clear(); } else { x += d; } }
    r.push_back(x);
    return r;
}
static S pos(char const *f, size_t l, size_t c) { return enc(f) + ":" + std::to_string(l) + ":" + std::to_string(c); }

static S const &cap(S const &s) {
    static std::map<S, S> m;
    auto &r = m[s];
    if (r.empty()) {
        bool up = true;
        for (char c : s) { if (c == '_') { up = true; } else { r += up ? toupper(c) : c; up = false; } }
    }
    return r;
}

#ifdef DRV_REF
static void ok(bool b) { if (!b) { throw std::runtime_error(clingo_error_message() ? clingo_error_message() : ""); } }
static S dump(clingo_ast_t *n) {
    clingo_ast_type_t t; ok(clingo_ast_get_type(n, &t));
    auto const &c = g_clingo_ast_constructors.constructors[t];
    S r = cap(c.name) + "{";
    for (size_t j = 0; j < c.size; ++j) {
        auto at = c.arguments[j].attribute;
        r += S(g_clingo_ast_attribute_names.names[at]) + "=";
        switch (c.arguments[j].type) {
            case clingo_ast_attribute_type_number: { int x; ok(clingo_ast_attribute_get_number(n, at, &x)); r += "#" + std::to_string(x); break; }
            case clingo_ast_attribute_type_symbol: { clingo_symbol_t x; ok(clingo_ast_attribute_get_symbol(n, at, &x)); r += "$" + enc(Symbol(x).to_string()); break; }
            case clingo_ast_attribute_type_location: { clingo_location_t x; ok(clingo_ast_attribute_get_location(n, at, &x)); r += "@" + pos(x.begin_file, x.begin_line, x.begin_column) + "-" + pos(x.end_file, x.end_line, x.end_column); break; }
            case clingo_ast_attribute_type_string: { char const *x; ok(clingo_ast_attribute_get_string(n, at, &x)); r += "'" + enc(x); break; }
            case clingo_ast_attribute_type_ast: { clingo_ast_t *x; ok(clingo_ast_attribute_get_ast(n, at, &x)); r += dump(x); clingo_ast_release(x); break; }
            case clingo_ast_attribute_type_optional_ast: { clingo_ast_t *x; ok(clingo_ast_attribute_get_optional_ast(n, at, &x)); r += x ? "?" + dump(x) : S("~"); if (x) { clingo_ast_release(x); } break; }
            case clingo_ast_attribute_type_string_array: { size_t m; ok(clingo_ast_attribute_size_string_array(n, at, &m)); r += "<"; for (size_t i = 0; i < m; ++i) { char const *x; ok(clingo_ast_attribute_get_string_at(n, at, i, &x)); r += enc(x) + ","; } r += ">"; break; }
            default: { size_t m; ok(clingo_ast_attribute_size_ast_array(n, at, &m)); r += "["; for (size_t i = 0; i < m; ++i) { clingo_ast_t *x; ok(clingo_ast_attribute_get_ast_at(n, at, i, &x)); r += dump(x) + ","; clingo_ast_release(x); } r += "]"; }
        }
        r += ";";
    }
    return r + "}";
}
static S dump(Node const &n) { return dump(n.to_c()); }
static S str(Node const &n) { size_t m; ok(clingo_ast_to_string_size(n.to_c(), &m)); std::vector<char> b(m); ok(clingo_ast_to_string(n.to_c(), b.data(), m)); return b.data(); }
static bool eq(Node const &a, Node const &b) { return clingo_ast_equal(a.to_c(), b.to_c()); }
static bool lt(Node const &a, Node const &b) { return clingo_ast_less_than(a.to_c(), b.to_c()); }
static void parse(char const *txt, SV const *files, std::vector<Node> &regs) {
    auto cb = [](clingo_ast_t *a, void *d) -> bool { clingo_ast_acquire(a); static_cast<std::vector<Node> *>(d)->emplace_back(a); return true; };
    auto lg = [](clingo_warning_t c, char const *m, void *) { o("L " + std::to_string(c) + " " + enc(m)); };
    std::vector<char const *> f;
    if (files) { for (auto &x : *files) { f.push_back(x.c_str()); } }
    ok(txt ? clingo_ast_parse_string(txt, cb, &regs, nullptr, lg, nullptr, 20) : clingo_ast_parse_files(f.data(), f.size(), cb, &regs, nullptr, lg, nullptr, 20));
}
static std::vector<Node> unpool(Node const &n, bool other, bool cond) {
    std::vector<Node> r;
    ok(clingo_ast_unpool(n.to_c(), (other ? clingo_ast_unpool_type_other : 0) | (cond ? clingo_ast_unpool_type_condition : 0), [](clingo_ast_t *a, void *d) -> bool { clingo_ast_acquire(a); static_cast<std::vector<Node> *>(d)->emplace_back(a); return true; }, &r));
    return r;
}
static void subs(clingo_ast_t *n, std::vector<Node> &out) {
    clingo_ast_acquire(n);
    out.emplace_back(n);
    clingo_ast_type_t t; ok(clingo_ast_get_type(n, &t));
    auto const &c = g_clingo_ast_constructors.constructors[t];
    for (size_t j = 0; j < c.size; ++j) {
        auto at = c.arguments[j].attribute;
        clingo_ast_t *x = nullptr;
        switch (c.arguments[j].type) {
            case clingo_ast_attribute_type_ast: { ok(clingo_ast_attribute_get_ast(n, at, &x)); subs(x, out); clingo_ast_release(x); break; }
            case clingo_ast_attribute_type_optional_ast: { ok(clingo_ast_attribute_get_optional_ast(n, at, &x)); if (x) { subs(x, out); clingo_ast_release(x); } break; }
            case clingo_ast_attribute_type_ast_array: { size_t m; ok(clingo_ast_attribute_size_ast_array(n, at, &m)); for (size_t i = 0; i < m; ++i) { ok(clingo_ast_attribute_get_ast_at(n, at, i, &x)); subs(x, out); clingo_ast_release(x); } break; }
            default: break;
        }
    }
}
static std::vector<Node> subs(Node const &n) { std::vector<Node> r; subs(n.to_c(), r); return r; }
static Node copy(Node const &n, bool deep) { clingo_ast_t *r; ok(deep ? clingo_ast_deep_copy(n.to_c(), &r) : clingo_ast_copy(n.to_c(), &r)); return Node{r}; }
static void build(Control &c, std::vector<Node> const &regs) {
    clingo_program_builder_t *b;
    ok(clingo_program_builder_init(c.to_c(), &b));
    ok(clingo_program_builder_begin(b));
    try { for (auto &n : regs) { ok(clingo_program_builder_add(b, n.to_c())); } }
    catch (...) { clingo_program_builder_end(b); throw; }
    ok(clingo_program_builder_end(b));
}
#else
#include "ast_names.inc"
static S dump(Node const &n) {
    S r = S(type_names.at(n.type())) + "{";
    n.visit_attribute([&r, &n](Attribute a, NodeValue v) {
        r += S(attr_names.at(a)) + "=";
        if (v.is<int>()) { r += "#" + std::to_string(v.get<int>()); if (n.get<int>(a) != v.get<int>()) { o("BAD get"); } }
        else if (v.is<Symbol>()) { r += "$" + enc(v.get<Symbol>().to_string()); if (n.get<Symbol>(a) != v.get<Symbol>()) { o("BAD get"); } }
        else if (v.is<Location>()) { auto &x = v.get<Location>(); r += "@" + pos(x.begin_file(), x.begin_line(), x.begin_column()) + "-" + pos(x.end_file(), x.end_line(), x.end_column()); }
        else if (v.is<char const *>()) { r += S("'") + enc(v.get<char const *>()); }
        else if (v.is<Node>()) { r += dump(v.get<Node>()); if (n.get<Node>(a) != v.get<Node>()) { o("BAD get"); } }
        else if (v.is<Optional<Node>>()) { auto *x = v.get<Optional<Node>>().get(); r += x ? "?" + dump(*x) : S("~"); }
        else if (v.is<StringVector>()) {
            auto const &x = v.get<StringVector>();
            r += "<";
            size_t k = 0;
            for (auto y : x) { r += enc(y) + ","; if (S(x[k]) != y || S(*x.at(k)) != y) { o("BAD strvec"); } ++k; }
            if (k != x.size() || x.empty() != (k == 0)) { o("BAD strvec size"); }
            r += ">";
        }
        else {
            auto const &x = v.get<NodeVector>();
            r += "[";
            size_t k = 0;
            for (Node y : x) { r += dump(y) + ","; if (x[k] != y || x.at(k)->type() != y.type()) { o("BAD vec"); } ++k; }
            if (k != x.size() || x.empty() != (k == 0)) { o("BAD vec size"); }
            r += "]";
        }
        r += ";";
    });
    return r + "}";
}
static S str(Node const &n) { std::ostringstream s; s << n; if (s.str() != n.to_string()) { o("BAD to_string"); } return n.to_string(); }
static bool eq(Node const &a, Node const &b) { if ((a == b) == (a != b) || (a == b) != (b == a)) { o("BAD eq"); } return a == b; }
static bool lt(Node const &a, Node const &b) { if ((a < b) != (b > a) || (a < b) == (b <= a) || (a < b) == (a >= b)) { o("BAD lt"); } return a < b; }
static void parse(char const *txt, SV const *files, std::vector<Node> &regs) {
    auto cb = [&regs](Node n) { regs.push_back(std::move(n)); };
    auto lg = [](WarningCode c, char const *m) { o("L " + std::to_string(static_cast<int>(c)) + " " + enc(m)); };
    std::vector<char const *> f;
    if (files) { for (auto &x : *files) { f.push_back(x.c_str()); } }
    if (txt) { parse_string(txt, cb, lg, 20); } else { parse_files(f, cb, lg, 20); }
}
static std::vector<Node> unpool(Node const &n, bool other, bool cond) { return n.unpool(other, cond); }
static std::vector<Node> subs(Node const &n) {
    std::vector<Node> r, q;
    n.visit_ast([&r](Node const &x) { r.push_back(x); return true; });
    int k = 0;   // a visitor that does not descend
    n.visit_ast([&k](Node const &x) { return k++ == 0; });
    int direct = 1;
    n.visit_attribute([&direct](Attribute, NodeValue v) { if (v.is<Node>()) { ++direct; } else if (v.is<Optional<Node>>() && v.get<Optional<Node>>()) { ++direct; } else if (v.is<NodeVector>()) { direct += v.get<NodeVector>().size(); } });
    if (k != direct) { o("BAD visit_ast stop"); }
    return r;
}
static Node copy(Node const &n, bool deep) { return deep ? n.deep_copy() : n.copy(); }
static void build(Control &c, std::vector<Node> const &regs) { with_builder(c, [&regs](ProgramBuilder &b) { for (auto &n : regs) { b.add(n); } }); }

static int gN(Node const &n, Attribute a, bool) { return n.get<int>(a); }
static Symbol gY(Node const &n, Attribute a, bool) { return n.get<Symbol>(a); }
static Location gL(Node const &n, Attribute a, bool) { return n.get<Location>(a); }
static char const *gS(Node const &n, Attribute a, bool) { return n.get<char const *>(a); }
static Node rebuild(Node const &n, bool deep);
static Node gA(Node const &n, Attribute a, bool f) { auto x = n.get<Node>(a); return f ? rebuild(x, f) : x; }
static Optional<Node> gO(Node const &n, Attribute a, bool f) { auto x = n.get<Optional<Node>>(a); if (f && x) { return Optional<Node>{rebuild(*x, f)}; } return x; }
static std::vector<Node> gV(Node const &n, Attribute a, bool f) { std::vector<Node> r; auto v = n.get<NodeVector>(a); for (Node x : v) { r.push_back(f ? rebuild(x, f) : x); } return r; }
static std::vector<char const *> gW(Node const &n, Attribute a, bool) { std::vector<char const *> r; auto v = n.get<StringVector>(a); for (char const *x : v) { r.push_back(x); } return r; }
static Node rebuild(Node const &n, bool f) {
    switch (n.type()) {
#include "ast_rebuild.inc"
        default: throw std::runtime_error("type");
    }
}
#endif

static void solve(Control &c) {
    c.ground({{"base", {}}});
    std::vector<S> ms;
    auto h = c.solve(LiteralSpan{}, nullptr, false, true);
    int k = 0;
    for (auto &m : h) {
        std::vector<S> a;
        for (auto &s : m.symbols()) { a.push_back(enc(s.to_string())); }
        std::sort(a.begin(), a.end());
        S l;
        for (auto &x : a) { l += x + " "; }
        l += "|";
        for (auto x : m.cost()) { l += std::to_string(x) + " "; }
        ms.push_back(l);
        if (++k >= 64) { break; }
    }
    std::sort(ms.begin(), ms.end());
    if (k < 64) { for (auto &m : ms) { o("m " + m); } } else { o("many"); }
}

static void step(SV const &f, std::vector<Node> &regs) {
    auto const &op = f[0];
    if (op == "parse" || op == "files") {
        regs.clear();
        SV names;
        struct D { std::vector<Node> &r; ~D() { try { for (auto &n : r) { o("A " + dump(n)); } } catch (std::exception const &e) { o(S("E dump ") + e.what()); } } } d{regs};
        if (op == "files") {
            for (size_t i = 1; i < f.size(); ++i) { names.push_back("af" + std::to_string(i) + ".lp"); std::ofstream(names.back()) << dec(f[i]); }
            parse(nullptr, &names, regs);
        }
        else { parse(dec(f[1]).c_str(), nullptr, regs); }
    }
    else if (op == "term") { o("parse s:" + enc(parse_term(dec(f[1]).c_str()).string())); }
    else if (op == "str") { for (auto &n : regs) { o("S " + enc(str(n))); } }
    else if (op == "reparse") {
        for (auto &n : regs) {
            std::vector<Node> r;
            try { parse(str(n).c_str(), nullptr, r); } catch (std::exception const &) { o("E reparse"); }
            S l = "R";
            for (auto &x : r) { l += eq(x, n) ? " 1" : " 0"; }
            o(l);
        }
    }
    else if (op == "rebuild") {
        for (auto &n : regs) {
#ifdef DRV_REF
            o("A " + dump(n) + " 1 1");
            o("A " + dump(n) + " 1 1");
#else
            for (int d = 0; d < 2; ++d) { Node x = rebuild(n, d); o("A " + dump(x) + " " + (eq(x, n) ? "1" : "0") + " " + (x.hash() == n.hash() ? "1" : "0")); }
#endif
        }
    }
    else if (op == "copy") { for (auto &n : regs) { for (int d = 0; d < 2; ++d) { Node x = copy(n, d); o("A " + dump(x) + (eq(x, n) ? " 1" : " 0") + (x.to_c() == n.to_c() ? " same" : "")); } } }
    else if (op == "unpool") {
        for (auto &n : regs) {
            try { for (auto &x : unpool(n, f[1][0] == '1', f[1][1] == '1')) { o("A " + dump(x)); } } catch (std::exception const &) { o("E unpool"); }
            o("-");
        }
    }
    else if (op == "pairs") {
        std::vector<Node> all;
        for (auto &n : regs) { for (auto &x : subs(n)) { if (all.size() < 40) { all.push_back(x); } } }
        for (auto &a : all) { S l = "P "; for (auto &b : all) { l += eq(a, b) ? '=' : lt(a, b) ? '<' : '>'; if (eq(a, b) && clingo_ast_hash(a.to_c()) != clingo_ast_hash(b.to_c())) { o("BAD hash"); } } o(l); }
    }
    else if (op == "subs") { for (auto &n : regs) { for (auto &x : subs(n)) { S d = dump(x); o("T " + d.substr(0, d.find('{')) + " " + enc(str(x))); } } }
    else if (op == "add" || op == "text") {
        Control c{{"0"}, [](WarningCode, char const *) {}, 0};
        if (op == "add") { build(c, regs); } else { c.add("base", {}, dec(f[1]).c_str()); }
        solve(c);
    }
    else { o("BAD op"); }
}

int main() {
    std::vector<Node> regs;
    S line;
    while (std::getline(std::cin, line)) {
        if (line[0] == '#') { std::cout << line << std::endl; regs.clear(); continue; }
        std::ostringstream out;
        g_out = &out;
        try { step(split(line, '\t'), regs); }
        catch (std::exception const &e) { o(S("ERR ") + enc(e.what())); }
        std::cout << out.str() << "." << std::endl;
    }
}
