// A theory library which records how it is used and reports what it was told to report.
#include <clingo.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
//cdef
typedef struct vmt_theory vmt_theory_t;
enum vmt_value_type { vmt_value_type_int = 0, vmt_value_type_double = 1, vmt_value_type_symbol = 2 };
typedef int vmt_value_type_t;
typedef struct vmt_value {
    vmt_value_type_t type;
    union {
        int int_number;
        double double_number;
        clingo_symbol_t symbol;
    };
} vmt_value_t;
typedef bool (*vmt_ast_callback_t)(clingo_ast_t *ast, void *data);
bool vmt_create(vmt_theory_t **theory);
bool vmt_destroy(vmt_theory_t *theory);
void vmt_version(int *major, int *minor, int *patch);
bool vmt_register(vmt_theory_t *theory, clingo_control_t *control);
bool vmt_rewrite_ast(vmt_theory_t *theory, clingo_ast_t *ast, vmt_ast_callback_t add, void *data);
bool vmt_prepare(vmt_theory_t *theory, clingo_control_t *control);
bool vmt_register_options(vmt_theory_t *theory, clingo_options_t *options);
bool vmt_validate_options(vmt_theory_t *theory);
bool vmt_on_model(vmt_theory_t *theory, clingo_model_t *model);
bool vmt_on_statistics(vmt_theory_t *theory, clingo_statistics_t *step, clingo_statistics_t *accu);
bool vmt_lookup_symbol(vmt_theory_t *theory, clingo_symbol_t symbol, size_t *index);
clingo_symbol_t vmt_get_symbol(vmt_theory_t *theory, size_t index);
void vmt_assignment_begin(vmt_theory_t *theory, uint32_t thread_id, size_t *index);
bool vmt_assignment_next(vmt_theory_t *theory, uint32_t thread_id, size_t *index);
bool vmt_assignment_has_value(vmt_theory_t *theory, uint32_t thread_id, size_t index);
void vmt_assignment_get_value(vmt_theory_t *theory, uint32_t thread_id, size_t index, vmt_value_t *value);
bool vmt_configure(vmt_theory_t *theory, char const *key, char const *value);
char const *vmt_log(void);
void vmt_clear(void);
void vmt_fail(char const *name, int code, char const *message);
void vmt_set_version(int a, int b, int c);
void vmt_rewrite_mode(int mode);
int vmt_alive(void);
void vmt_symbol(clingo_symbol_t symbol);
void vmt_value_int(uint32_t thread_id, size_t index, int value);
void vmt_value_double(uint32_t thread_id, size_t index, double value);
void vmt_value_symbol(uint32_t thread_id, size_t index, clingo_symbol_t value);
void vmt_reset(void);
void vmt_base(size_t n);
//end
#ifdef __cplusplus
}
#endif
