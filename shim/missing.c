// Stand-ins for the functions of the C interface that the installed engine does not have, and adaptors for the two functions
// whose signature differs. They record their arguments, so that monitors can compare what a binding passes on.
#define _GNU_SOURCE
#include <clingo.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char g_log[1 << 16];
static size_t g_len;
static int g_fail;   // fail the k-th call from now on
static clingo_propagator_undo_mode_t g_undo;

static void put(char const *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    if (g_len + 2048 < sizeof(g_log)) { int n = vsnprintf(g_log + g_len, 2000, fmt, a); if (n > 0) { g_len += n < 2000 ? n : 1999; } }
    va_end(a);
}
static bool end(void) {
    put("\n");
    if (g_fail > 0 && --g_fail == 0) { clingo_set_error(clingo_error_runtime, "mock failure"); return false; }
    return true;
}

// returns and clears the record
CLINGO_VISIBILITY_DEFAULT char const *verif_mock_log(void) {
    static char copy[1 << 16];
    memcpy(copy, g_log, g_len);
    copy[g_len] = 0;
    g_len = 0;
    return copy;
}
CLINGO_VISIBILITY_DEFAULT void verif_mock_fail(int k) { g_fail = k; }

bool clingo_control_load_aspif(clingo_control_t *ctl, char const **files, size_t size) {
    put("load_aspif %d", ctl != NULL);
    for (size_t i = 0; i < size; ++i) { put(" [%s]", files[i]); }
    return end();
}
bool clingo_control_register_backend(clingo_control_t *ctl, clingo_backend_type_t type, char const *file, bool replace) {
    put("register_backend %d %d [%s] %d", ctl != NULL, (int)type, file, replace);
    return end();
}
bool clingo_control_remove_minimize(clingo_control_t *ctl) { put("remove_minimize %d", ctl != NULL); return end(); }
bool clingo_control_update_project(clingo_control_t *ctl, clingo_atom_t const *atoms, size_t size, bool append) {
    put("update_project %d %d", ctl != NULL, append);
    for (size_t i = 0; i < size; ++i) { put(" %u", atoms[i]); }
    return end();
}
bool clingo_model_is_consequence(clingo_model_t const *model, clingo_literal_t literal, clingo_consequence_t *result) {
    put("is_consequence %d %d", model != NULL, literal);
    *result = (((literal % 3) + 3) % 3);
    return end();
}
bool clingo_model_priority(clingo_model_t const *model, clingo_weight_t *priorities, size_t size) {
    put("priority %d %zu", model != NULL, size);
    for (size_t i = 0; i < size; ++i) { priorities[i] = 100 - 7 * (int)i * (int)i; }
    return end();
}
bool clingo_solve_handle_last(clingo_solve_handle_t *handle, clingo_model_t const **model) {
    put("last");
    return end() && clingo_solve_handle_model(handle, model);
}
void clingo_propagate_init_set_undo_mode(clingo_propagate_init_t *init, clingo_propagator_undo_mode_t mode) { (void)init; g_undo = mode; put("set_undo_mode %d", (int)mode); end(); }
clingo_propagator_undo_mode_t clingo_propagate_init_get_undo_mode(clingo_propagate_init_t const *init) { (void)init; put("get_undo_mode"); end(); return g_undo; }

// the installed functions do not return the atom
static bool given(clingo_backend_t *b, clingo_atom_t *atom) { return *atom != UINT32_MAX || clingo_backend_add_atom(b, NULL, atom); }
bool clingo_backend_theory_atom(clingo_backend_t *b, clingo_atom_t atom, clingo_id_t term, clingo_id_t const *elems, size_t size, clingo_atom_t *res) {
    static bool (*f)(clingo_backend_t *, clingo_atom_t, clingo_id_t, clingo_id_t const *, size_t);
    if (!f) { f = dlsym(RTLD_NEXT, "clingo_backend_theory_atom"); }
    if (!given(b, &atom)) { return false; }
    if (res) { *res = atom; }
    return f(b, atom, term, elems, size);
}
bool clingo_backend_theory_atom_with_guard(clingo_backend_t *b, clingo_atom_t atom, clingo_id_t term, clingo_id_t const *elems, size_t size, char const *op, clingo_id_t rhs, clingo_atom_t *res) {
    static bool (*f)(clingo_backend_t *, clingo_atom_t, clingo_id_t, clingo_id_t const *, size_t, char const *, clingo_id_t);
    if (!f) { f = dlsym(RTLD_NEXT, "clingo_backend_theory_atom_with_guard"); }
    if (!given(b, &atom)) { return false; }
    if (res) { *res = atom; }
    return f(b, atom, term, elems, size, op, rhs);
}
// the installed engine numbers sequence types differently
bool clingo_backend_theory_term_sequence(clingo_backend_t *b, clingo_theory_sequence_type_t type, clingo_id_t const *args, size_t size, clingo_id_t *res) {
    static bool (*f)(clingo_backend_t *, int, clingo_id_t const *, size_t, clingo_id_t *);
    if (!f) { f = dlsym(RTLD_NEXT, "clingo_backend_theory_term_sequence"); }
    return f(b, type == clingo_theory_sequence_type_list ? 1 : type == clingo_theory_sequence_type_set ? 2 : (int)type, args, size, res);
}
