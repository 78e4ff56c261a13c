#include "vmt.h"
#include <cstring>
#include <mutex>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace {
std::string log_, failName, failMessage;
int failCode = 0, version[3] = {0, 0, 0}, mode = 0;
std::set<vmt_theory_t *> theories;
std::vector<clingo_symbol_t> symbols;
std::map<uint32_t, std::map<size_t, vmt_value_t>> values;
size_t base = 1;   // index of the first symbol
std::mutex mut;
void log(std::string const &s) {
    std::lock_guard<std::mutex> lock(mut);
    log_ += s + "\n";
}
bool fail(char const *name) {
    if (failName != name) return false;
    failName.clear();
    clingo_set_error(failCode, failMessage.c_str());
    return true;
}
void check(vmt_theory_t *t) {
    if (!theories.count(t)) log("BAD theory");
}
std::string str(clingo_ast_t *ast) {
    size_t n = 0;
    if (!clingo_ast_to_string_size(ast, &n)) return "BAD ast";
    std::vector<char> b(n);
    if (!clingo_ast_to_string(ast, b.data(), n)) return "BAD ast";
    return b.data();
}
std::string str(clingo_symbol_t s) {
    size_t n = 0;
    if (!clingo_symbol_to_string_size(s, &n)) return "BAD symbol";
    std::vector<char> b(n);
    clingo_symbol_to_string(s, b.data(), n);
    return b.data();
}
} // namespace

struct vmt_theory { std::string option; bool flag = false; clingo_control_t *control = nullptr; };

namespace {
bool onInit(clingo_propagate_init_t *init, void *data) {
    clingo_theory_atoms_t const *atoms;
    if (!clingo_propagate_init_theory_atoms(init, &atoms)) return false;
    size_t n = 0;
    if (!clingo_theory_atoms_size(atoms, &n)) return false;
    check(static_cast<vmt_theory_t *>(data));
    log("init " + std::to_string(n) + " " + std::to_string(clingo_propagate_init_number_of_threads(init)));
    return !fail("init");
}
bool onCheck(clingo_propagate_control_t *, void *data) {
    check(static_cast<vmt_theory_t *>(data));
    log("check");
    return !fail("check");
}
bool parse(char const *value, void *data) {
    log(std::string("option ") + value);
    static_cast<vmt_theory_t *>(data)->option = value;
    return std::strcmp(value, "bad") != 0;
}
bool emit(clingo_ast_t *ast, void *data) {
    auto *p = static_cast<std::pair<vmt_ast_callback_t, void *> *>(data);
    return p->first(ast, p->second);
}
} // namespace

extern "C" {
bool vmt_create(vmt_theory_t **theory) {
    log("create");
    if (fail("create")) return false;
    *theory = new vmt_theory;
    theories.insert(*theory);
    return true;
}
bool vmt_destroy(vmt_theory_t *theory) {
    check(theory);
    log("destroy");
    theories.erase(theory);
    delete theory;
    return true;
}
void vmt_version(int *major, int *minor, int *patch) {
    *major = version[0];
    *minor = version[1];
    *patch = version[2];
}
bool vmt_register(vmt_theory_t *theory, clingo_control_t *control) {
    check(theory);
    log("register");
    if (fail("register")) return false;
    theory->control = control;
    clingo_propagator_t prop{};
    prop.init = onInit;
    prop.check = onCheck;
    return clingo_control_add(control, "base", nullptr, 0, "#theory vmt { t { - : 1, unary; + : 0, binary, left }; &vmt/0 : t, {<=,=}, t, any }.") &&
           clingo_control_register_propagator(control, &prop, theory, false);
}
bool vmt_rewrite_ast(vmt_theory_t *theory, clingo_ast_t *ast, vmt_ast_callback_t add, void *data) {
    check(theory);
    log("rewrite " + str(ast));
    if (fail("rewrite")) return false;
    switch (mode) {
        case 0: return add(ast, data);
        case 1: return add(ast, data) && add(ast, data);
        case 2: return true;
        case 3: {
            std::pair<vmt_ast_callback_t, void *> p{add, data};
            auto s = str(ast);
            if (s.compare(0, 8, "#program") == 0) return add(ast, data);
            return clingo_ast_parse_string(s.c_str(), emit, &p, nullptr, nullptr, nullptr, 20);
        }
        default: {
            clingo_ast_t *copy;
            if (!clingo_ast_deep_copy(ast, &copy)) return false;
            bool ret = add(copy, data);
            clingo_ast_release(copy);
            return ret;
        }
    }
}
bool vmt_prepare(vmt_theory_t *theory, clingo_control_t *control) {
    check(theory);
    clingo_symbolic_atoms_t const *atoms;
    size_t n = 0;
    if (!clingo_control_symbolic_atoms(control, &atoms) || !clingo_symbolic_atoms_size(atoms, &n)) return false;
    log("prepare " + std::to_string(n) + (control == theory->control ? "" : " other"));
    return !fail("prepare");
}
bool vmt_register_options(vmt_theory_t *theory, clingo_options_t *options) {
    check(theory);
    log("register_options");
    if (fail("register_options")) return false;
    return clingo_options_add(options, "VMT Options", "vmt-value", "a value", parse, theory, true, "<v>") &&
           clingo_options_add_flag(options, "VMT Options", "vmt-flag", "a flag", &theory->flag);
}
bool vmt_validate_options(vmt_theory_t *theory) {
    check(theory);
    log("validate_options " + theory->option + (theory->flag ? " flag" : ""));
    return !fail("validate_options");
}
bool vmt_on_model(vmt_theory_t *theory, clingo_model_t *model) {
    check(theory);
    size_t n = 0;
    uint64_t num = 0;
    uint32_t thread = 0;
    if (!clingo_model_number(model, &num) || !clingo_model_thread_id(model, &thread) || !clingo_model_symbols_size(model, clingo_show_type_shown, &n)) return false;
    std::vector<clingo_symbol_t> s(n);
    if (!clingo_model_symbols(model, clingo_show_type_shown, s.data(), n)) return false;
    std::set<std::string> t;
    for (auto x : s) t.insert(str(x));
    std::string l = "model " + std::to_string(num);
    for (auto &x : t) l += " " + x;
    log(l);
    if (fail("on_model")) return false;
    clingo_symbol_t args[2], ext;
    clingo_symbol_create_number(static_cast<int>(num), &args[0]);
    clingo_symbol_create_string("v\"", &args[1]);
    return clingo_symbol_create_function("ext", args, 2, true, &ext) && clingo_model_extend(model, &ext, 1);
}
bool vmt_on_statistics(vmt_theory_t *theory, clingo_statistics_t *step, clingo_statistics_t *accu) {
    check(theory);
    log("statistics");
    if (fail("on_statistics")) return false;
    double v = 1.5;
    for (auto *s : {step, accu}) {
        uint64_t root, map, val;
        if (!clingo_statistics_root(s, &root) || !clingo_statistics_map_add_subkey(s, root, "VMT", clingo_statistics_type_map, &map) ||
            !clingo_statistics_map_add_subkey(s, map, "value", clingo_statistics_type_value, &val) || !clingo_statistics_value_set(s, val, v)) return false;
        v += 1;
    }
    return true;
}
bool vmt_lookup_symbol(vmt_theory_t *theory, clingo_symbol_t symbol, size_t *index) {
    check(theory);
    for (size_t i = 0; i < symbols.size(); ++i) if (clingo_symbol_is_equal_to(symbols[i], symbol)) {
        *index = i + base;
        return true;
    }
    return false;
}
clingo_symbol_t vmt_get_symbol(vmt_theory_t *theory, size_t index) {
    check(theory);
    return symbols.at(index - base);
}
void vmt_assignment_begin(vmt_theory_t *theory, uint32_t, size_t *index) {
    check(theory);
    *index = static_cast<size_t>(-1);
}
bool vmt_assignment_next(vmt_theory_t *theory, uint32_t thread_id, size_t *index) {
    check(theory);
    auto &m = values[thread_id];
    auto it = *index == static_cast<size_t>(-1) ? m.begin() : m.upper_bound(*index);
    if (it == m.end()) return false;
    *index = it->first;
    return true;
}
bool vmt_assignment_has_value(vmt_theory_t *theory, uint32_t thread_id, size_t index) {
    check(theory);
    return values[thread_id].count(index) > 0;
}
void vmt_assignment_get_value(vmt_theory_t *theory, uint32_t thread_id, size_t index, vmt_value_t *value) {
    check(theory);
    *value = values[thread_id].at(index);
}
bool vmt_configure(vmt_theory_t *theory, char const *key, char const *value) {
    check(theory);
    log(std::string("configure ") + std::to_string(std::strlen(key)) + ":" + key + "=" + std::to_string(std::strlen(value)) + ":" + value);
    return !fail("configure");
}
char const *vmt_log(void) { return log_.c_str(); }
void vmt_clear(void) { log_.clear(); }
void vmt_fail(char const *name, int code, char const *message) {
    failName = name;
    failCode = code;
    failMessage = message;
}
void vmt_set_version(int a, int b, int c) {
    version[0] = a;
    version[1] = b;
    version[2] = c;
}
void vmt_rewrite_mode(int m) { mode = m; }
int vmt_alive(void) { return static_cast<int>(theories.size()); }
void vmt_symbol(clingo_symbol_t symbol) { symbols.push_back(symbol); }
void vmt_value_int(uint32_t thread_id, size_t index, int value) {
    vmt_value_t v{};
    v.type = vmt_value_type_int;
    v.int_number = value;
    values[thread_id][index] = v;
}
void vmt_value_double(uint32_t thread_id, size_t index, double value) {
    vmt_value_t v{};
    v.type = vmt_value_type_double;
    v.double_number = value;
    values[thread_id][index] = v;
}
void vmt_value_symbol(uint32_t thread_id, size_t index, clingo_symbol_t value) {
    vmt_value_t v{};
    v.type = vmt_value_type_symbol;
    v.symbol = value;
    values[thread_id][index] = v;
}
void vmt_base(size_t n) { base = n; }
void vmt_reset(void) {
    base = 1;
    symbols.clear();
    values.clear();
    failName.clear();
    mode = 0;
}
}
