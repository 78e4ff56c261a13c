// Application driven by a specification ($APP_SPEC, see checks/p15.py); hooks are logged to $APP_LOG. Counterpart of app.py.
#include <clingo.hh>
#include <algorithm>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
using namespace Clingo;
using S = std::string;
static S enc(S const &s) {
    static char const *ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'";
    if (s.empty()) { return "%"; }
    S r;
    for (unsigned char c : s) {
        if (c && strchr(ok, c)) { r += c; }
        else { char b[8]; snprintf(b, 8, "%%%02X", c); r += b; }
    }
    return r;
}
static S dec(S const &s) {
    if (s == "%") { return ""; }
    S r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else { r += s[i]; }
    }
    return r;
}
static std::vector<S> split(S const &s, char c) {
    std::vector<S> r; S x;
    for (char d : s) { if (d == c) { r.push_back(x); x.clear(); } else { x += d; } }
    r.push_back(x);
    return r;
}
static std::ofstream LOG;
static void log_(S const &s) { LOG << s << "\n"; LOG.flush(); }
static std::map<S, std::vector<S>> spec;
static std::vector<std::vector<S>> items;
static S name_, version_;
static S res(SolveResult r) { return r.is_satisfiable() ? "SAT" : r.is_unsatisfiable() ? "UNSAT" : "UNKNOWN"; }
static char const *codes[] = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"};

struct Base : Application {
    std::deque<bool> vals;
    std::vector<std::pair<S, bool *>> flags;
    int printed = 0;
    unsigned message_limit() const noexcept override { return spec.count("limit") ? std::stoi(spec["limit"][0]) : Application::message_limit(); }
    char const *program_name() const noexcept override { return spec.count("name") ? name_.c_str() : Application::program_name(); }
    char const *version() const noexcept override { return spec.count("version") ? version_.c_str() : Application::version(); }
    S fl() { S r; for (auto &x : flags) { r += (r.empty() ? "" : " ") + x.first + "=" + (*x.second ? "1" : "0"); } return r; }
    void register_options(ClingoOptions &o) override {
        if (spec["register"][0] == "-") { return Application::register_options(o); }
        log_("register");
        for (auto &f : items) {
            if (f[0] == "flag") {
                vals.push_back(f[4] == "1");
                flags.emplace_back(f[2], &vals.back());
                o.add_flag(dec(f[1]).c_str(), dec(f[2]).c_str(), dec(f[3]).c_str(), vals.back());
            }
            else {
                auto p = [f](char const *v) {
                    log_("parse " + f[2] + " " + enc(v));
                    if (f[6] == "raise") { throw std::runtime_error("parser-failed"); }
                    return !(f[6] == "reject" || (f[6] == "rejbad" && S(v) == "bad"));
                };
                S g = dec(f[1]), n = dec(f[2]), d = dec(f[3]), a = dec(f[5]);
                if (f[5] != "-") { o.add(g.c_str(), n.c_str(), d.c_str(), p, f[4] == "1", a.c_str()); }
                else if (f[4] == "1") { o.add(g.c_str(), n.c_str(), d.c_str(), p, true); }
                else { o.add(g.c_str(), n.c_str(), d.c_str(), p); }
            }
        }
        if (spec["register"][0] == "raise") { throw std::runtime_error("register-failed"); }
    }
    void validate_options() override {
        if (spec["validate"][0] == "-") { return Application::validate_options(); }
        log_("validate " + fl());
        if (spec["validate"][0] != "ok") { throw std::runtime_error("validate-failed"); }
    }
    void main(Control &ctl, StringSpan files) override {
        S l = "main";
        for (auto &f : files) { l += " " + enc(f); }
        log_(l);
        log_("flags " + fl());
        S m = spec["main"][0];
        if (m == "raise-before") { throw std::runtime_error("main-failed"); }
        for (auto &f : files) { ctl.load(f); }
        if (files.empty()) { ctl.load("-"); }
        log_("const " + (ctl.has_const("c") ? ctl.get_const("c").to_string() : S("none")));
        if (m == "extra") { ctl.add("base", {}, "extra_atom."); }
        if (m == "noground") { return; }
        ctl.ground({{"base", {}}});
        if (m == "nosolve") { return; }
        if (m == "raise-mid") { throw std::runtime_error("main-failed"); }
        if (m == "yield") {
            auto h = ctl.solve();
            for (auto &x : h) { log_("y " + std::to_string(x.number())); }
            log_("result " + res(h.get()));
        }
        else { log_("result " + res(ctl.solve(SymbolicLiteralSpan{}, nullptr, false, false).get())); }
        if (m == "multi") {
            ctl.add("step", {}, "{step_atom}.");
            ctl.ground({{"step", {}}});
            log_("result " + res(ctl.solve(SymbolicLiteralSpan{}, nullptr, false, false).get()));
        }
        if (m == "raise-after") { throw std::runtime_error("main-failed"); }
    }
};
struct Print : Base {
    void print_model(Model const &model, std::function<void()> printer) noexcept override {
        ++printed;
        std::vector<S> sy;
        for (auto &s : model.symbols(ShowType::Shown)) { sy.push_back(s.to_string()); }
        std::sort(sy.begin(), sy.end());
        S l = "print " + std::to_string(model.number());
        for (auto &s : sy) { l += " " + s; }
        log_(l);
        S m = spec["print"][0];
        if (m == "custom" || m == "both") { printf("CUSTOM %d %d\n", int(model.number()), int(model.symbols(ShowType::Atoms).size())); fflush(stdout); }
        if (m == "default" || m == "both" || m == "twice") { printer(); }
        if (m == "twice") { printer(); }
    }
};
struct Log : Base { void log(WarningCode c, char const *m) noexcept override { log_(S("log ") + codes[int(c)] + " " + enc(m)); } };
struct PrintLog : Print { void log(WarningCode c, char const *m) noexcept override { log_(S("log ") + codes[int(c)] + " " + enc(m)); } };

int main(int argc, char **argv) {
    LOG.open(getenv("APP_LOG"), std::ios::app);
    std::ifstream in(getenv("APP_SPEC"));
    S line;
    while (std::getline(in, line)) {
        auto f = split(line, '\t');
        if (f[0] == "opt" || f[0] == "flag") { items.push_back(f); }
        else if (!f[0].empty()) { spec[f[0]] = {f.begin() + 1, f.end()}; }
    }
    if (spec.count("name")) { name_ = dec(spec["name"][0]); }
    if (spec.count("version")) { version_ = dec(spec["version"][0]); }
    bool p = spec["print"][0] != "-", l = spec["logger"][0] != "-";
    std::unique_ptr<Application> app(p && l ? new PrintLog() : p ? new Print() : l ? new Log() : new Base());
    int rc = clingo_main(*app, {argv + 1, size_t(argc - 1)});
    log_("exit " + std::to_string(rc));
    fflush(stdout);
    return rc;
}
