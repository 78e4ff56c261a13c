// Interpreter of diagnostic histories (checks/p19.py), see diag.py.
#include <clingo.hh>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace Clingo;
using S = std::string;
static S enc(S const &s) {
    static char const *ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'";
    if (s.empty()) { return "%"; }
    S r;
    for (unsigned char c : s) {
        if (c && strchr(ok, c)) { r += c; }
        else { char b[8]; snprintf(b, 8, "%%%02X", c); r += b; }
    }
    return r;
}
static S dec(S const &s) {
    if (s == "%") { return ""; }
    S r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else { r += s[i]; }
    }
    return r;
}
static std::vector<S> split(S const &s, char c) {
    std::vector<S> r; S x;
    for (char d : s) { if (d == c) { r.push_back(x); x.clear(); } else { x += d; } }
    r.push_back(x);
    return r;
}
static std::vector<S> out;
static char const *code(WarningCode c) {
    switch (c) {
        case WarningCode::OperationUndefined: return "OperationUndefined";
        case WarningCode::RuntimeError: return "RuntimeError";
        case WarningCode::AtomUndefined: return "AtomUndefined";
        case WarningCode::FileIncluded: return "FileIncluded";
        case WarningCode::VariableUnbounded: return "VariableUnbounded";
        case WarningCode::GlobalVariable: return "GlobalVariable";
        case WarningCode::Other: return "Other";
    }
    return "?";
}
static Logger logger(S const &kind, S ch) {
    if (kind == "-") { return nullptr; }
    return [ch](WarningCode c, char const *m) { out.push_back("M " + ch + " " + code(c) + " " + enc(m)); };
}
int main() {
    S line;
    FILE *cap = tmpfile();
    dup2(fileno(cap), 2);
    std::map<S, std::unique_ptr<Control>> ctls;
    std::set<S> dead;
    while (std::getline(std::cin, line)) {
        if (line[0] == '#') { ctls.clear(); dead.clear(); std::cout << line << "\n"; continue; }
        auto f = split(line, '\t');
        out.clear();
        S r = "R ok";
        bool ctlop = std::set<S>{"add", "part", "gpart", "ground", "load", "parse", "parsef"}.count(f[0]) > 0;
        if (ctlop && dead.count(f[1])) { std::cout << "R dead\n.\n"; continue; }
        auto files = [](S const &s) { std::vector<S> r; for (auto &x : split(s, ';')) { r.push_back(dec(x)); } return r; };
        auto ptrs = [](std::vector<S> const &v) { std::vector<char const *> r; for (auto &x : v) { r.push_back(x.c_str()); } return r; };
        auto nop = [](auto &&) {};
        try {
            if (f[0] == "new") {
                auto a = f[4] == "-" ? std::vector<S>{} : files(f[4]);
                auto p = ptrs(a);
                StringSpan sp{p.data(), p.size()};
                if (f[3] == "-") { ctls[f[1]].reset(f[2] == "-" ? new Control(sp) : new Control(sp, logger(f[2], "C" + f[1]))); }
                else { ctls[f[1]].reset(new Control(sp, logger(f[2], "C" + f[1]), std::stoul(f[3]))); }
            }
            else if (f[0] == "add") { ctls[f[1]]->add("base", {}, dec(f[2]).c_str()); }
            else if (f[0] == "part") {
                std::vector<S> ps; for (auto &x : split(f[3], ';')) { if (!x.empty()) { ps.push_back(x); } }
                auto p = ptrs(ps);
                ctls[f[1]]->add(f[2].c_str(), StringSpan{p.data(), p.size()}, dec(f[4]).c_str());
            }
            else if (f[0] == "gpart") {
                std::vector<Symbol> as; for (auto &x : split(f[3], ';')) { if (!x.empty()) { as.push_back(Number(std::stoi(x))); } }
                ctls[f[1]]->ground({{f[2].c_str(), as}});
            }
            else if (f[0] == "ground") { ctls[f[1]]->ground({{"base", {}}}); }
            else if (f[0] == "load") { ctls[f[1]]->load(dec(f[2]).c_str()); }
#ifdef DRV_REF
            else if (f[0] == "parse" || f[0] == "parsef" || f[0] == "string" || f[0] == "files") {
                bool ctl = f[0][0] == 'p', fl = f[0] == "parsef" || f[0] == "files";
                auto lg = logger(f[ctl ? 2 : 1], "P");
                unsigned lim = f[ctl ? 3 : 2] == "-" ? 20 : std::stoul(f[ctl ? 3 : 2]);
                auto v = files(f[ctl ? 4 : 3]);
                auto p = ptrs(v);
                clingo_program_builder_t *b = nullptr;
                if (ctl) { clingo_program_builder_init(ctls[f[1]]->to_c(), &b); Detail::handle_error(clingo_program_builder_begin(b)); }
                auto cb = [](clingo_ast_t *a, void *d) -> bool { return !d || clingo_program_builder_add(static_cast<clingo_program_builder_t *>(d), a); };
                auto cl = [](clingo_warning_t c, char const *m, void *d) { (*static_cast<Logger *>(d))(static_cast<WarningCode>(c), m); };
                bool ok = fl ? clingo_ast_parse_files(p.data(), p.size(), cb, b, nullptr, lg ? +cl : nullptr, &lg, lim)
                             : clingo_ast_parse_string(p[0], cb, b, nullptr, lg ? +cl : nullptr, &lg, lim);
                S em = ok ? "" : clingo_error_message() ? clingo_error_message() : "no message";
                if (ctl) { clingo_program_builder_end(b); }
                if (!ok) { throw std::runtime_error(em); }
            }
#else
            else if (f[0] == "parse" || f[0] == "parsef") {
                AST::with_builder(*ctls[f[1]], [&](AST::ProgramBuilder &b) {
                    auto cb = [&](AST::Node n) { b.add(n); };
                    auto v = files(f[4]);
                    auto p = ptrs(v);
                    StringSpan sp{p.data(), p.size()};
                    if (f[0] == "parse") {
                        if (f[2] == "-" && f[3] == "-") { AST::parse_string(v[0].c_str(), cb); }
                        else if (f[3] == "-") { AST::parse_string(v[0].c_str(), cb, *ctls[f[1]], logger(f[2], "P")); }
                        else { AST::parse_string(v[0].c_str(), cb, *ctls[f[1]], logger(f[2], "P"), std::stoul(f[3])); }
                    }
                    else if (f[2] == "-" && f[3] == "-") { AST::parse_files(sp, cb); }
                    else if (f[3] == "-") { AST::parse_files(sp, cb, *ctls[f[1]], logger(f[2], "P")); }
                    else { AST::parse_files(sp, cb, *ctls[f[1]], logger(f[2], "P"), std::stoul(f[3])); }
                });
            }
            else if (f[0] == "string") {
                if (f[1] == "-" && f[2] == "-") { AST::parse_string(dec(f[3]).c_str(), nop); }
                else if (f[2] == "-") { AST::parse_string(dec(f[3]).c_str(), nop, logger(f[1], "P")); }
                else { AST::parse_string(dec(f[3]).c_str(), nop, logger(f[1], "P"), std::stoul(f[2])); }
            }
            else if (f[0] == "files") {
                auto v = files(f[3]);
                auto p = ptrs(v);
                StringSpan sp{p.data(), p.size()};
                if (f[1] == "-" && f[2] == "-") { AST::parse_files(sp, nop); }
                else if (f[2] == "-") { AST::parse_files(sp, nop, logger(f[1], "P")); }
                else { AST::parse_files(sp, nop, logger(f[1], "P"), std::stoul(f[2])); }
            }
#endif
            else if (f[0] == "term") {
                Symbol s;
                if (f[1] == "-" && f[2] == "-") { s = parse_term(dec(f[3]).c_str()); }
                else if (f[2] == "-") { s = parse_term(dec(f[3]).c_str(), logger(f[1], "P")); }
                else { s = parse_term(dec(f[3]).c_str(), logger(f[1], "P"), std::stoul(f[2])); }
                std::ostringstream oss; oss << s;
                out.push_back("T " + enc(oss.str()));
            }
            else if (f[0] == "del") { ctls.erase(f[1]); }
        }
        catch (std::exception const &e) { r = S("R err ") + "RuntimeError " + enc(e.what()); if (ctlop) { dead.insert(f[1]); } }
        fflush(stderr);
        std::cerr.flush();
        long n = lseek(2, 0, SEEK_END);
        if (n > 0) {
            S b(n, 0);
            lseek(2, 0, SEEK_SET);
            if (read(2, &b[0], n) != n) { b = "unreadable"; }
            lseek(2, 0, SEEK_SET);
            if (ftruncate(2, 0)) { return 1; }
            out.push_back("S " + enc(b));
        }
        for (auto &x : out) { std::cout << x << "\n"; }
        std::cout << r << "\n.\n" << std::flush;
    }
}
