// Generated by mkledger.py: wrappers around every function of clingo.h (to be preloaded).
#include <clingo.h>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <mutex>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum Kind { CTL, HND, AST };
static char const *g_kinds[] = {"control", "solve handle", "syntax tree"};
struct State {
    std::mutex m;
    std::unordered_set<void const *> live[2], dead[2];
    std::unordered_map<void const *, long> asts;
    std::unordered_set<void const *> deadasts;
    unsigned long created[3] = {0, 0, 0}, released[3] = {0, 0, 0};
};
static State &st() { static State *s = new State(); return *s; }
static std::atomic<long> g_calls{0}, g_arm{0}, g_fired{-1}, g_backends{0};
static thread_local int g_parsing = 0;

[[noreturn]] static void broken(char const *what, Kind k, char const *fun) {
    fprintf(stderr, "LEDGER: %s of a %s by %s\n", what, g_kinds[k], fun);
    fflush(stderr);
    _exit(97);
}
static void *resolve(char const *name) {
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "LEDGER: %s is missing\n", name); _exit(98); }
    return p;
}
// Whether a call comes from outside of the engine.
static std::vector<std::pair<char const *, char const *>> const &ranges() {
    static auto r = [] {
        auto *v = new std::vector<std::pair<char const *, char const *>>();
        dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *data) {
            char const *b = strrchr(i->dlpi_name, '/');
            b = b ? b + 1 : i->dlpi_name;
            if (strncmp(b, "libclingo", 9) == 0) {
                for (int k = 0; k < i->dlpi_phnum; ++k) {
                    auto &h = i->dlpi_phdr[k];
                    if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) {
                        char const *a = reinterpret_cast<char const *>(i->dlpi_addr + h.p_vaddr);
                        static_cast<std::vector<std::pair<char const *, char const *>> *>(data)->emplace_back(a, a + h.p_memsz);
                    }
                }
            }
            return 0;
        }, v);
        return v;
    }();
    return *r;
}
static bool outside(void *addr) {
    for (auto &x : ranges()) { if (addr >= x.first && addr < x.second) { return false; } }
    return true;
}
static int g_code = clingo_error_runtime;
static bool fails(int idx) {
    long c = ++g_calls;
    long k = g_arm.load();
    if (k == 0 || c != k) { return false; }
    g_fired = idx;
    clingo_set_error(g_code, "injected failure");
    return true;
}
// the interfaces may try again to end a backend if the engine reported an error
static void ended() { if (g_backends > 0) { --g_backends; } }
static void opened(Kind k, void const *p) {
    std::lock_guard<std::mutex> g(st().m);
    st().dead[k].erase(p);
    if (!st().live[k].insert(p).second) { broken("reuse", k, "the engine"); }
    st().created[k]++;
}
static void closed(Kind k, void const *p, char const *fun) {
    if (!p) { return; }
    std::lock_guard<std::mutex> g(st().m);
    if (st().live[k].erase(p)) { st().dead[k].insert(p); st().released[k]++; }
    else if (st().dead[k].count(p)) { broken("second release", k, fun); }
}
static void alive(Kind k, void const *p, char const *fun) {
    std::lock_guard<std::mutex> g(st().m);
    if (k == AST) {
        if (!g_parsing && st().deadasts.count(p) && strcmp(fun, "clingo_ast_acquire") != 0) { broken("use after release", k, fun); }
        return;
    }
    if (st().dead[k].count(p)) { broken("use after release", k, fun); }
}
static void take(void const *p) {
    std::lock_guard<std::mutex> g(st().m);
    st().deadasts.erase(p);
    st().asts[p]++;
    st().created[AST]++;
}
static void drop(void const *p) {
    if (!p) { return; }
    std::lock_guard<std::mutex> g(st().m);
    auto it = st().asts.find(p);
    if (it == st().asts.end()) { broken("release of more references than were taken", AST, "clingo_ast_release"); }
    st().released[AST]++;
    if (--it->second == 0) { st().asts.erase(it); st().deadasts.insert(p); }
}
static bool command(char const *s, clingo_symbol_t *sym);
