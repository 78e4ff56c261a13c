"""Generates ledger.c from clingo.h: wrappers around every function of the C interface that count calls, fail a chosen call, and keep
a ledger of controls, solve handles, backends and syntax tree references (see lib/ledger.py)."""
import re, sys

CLOSED_ARG = {  # functions whose first argument must be alive, by its type
    "clingo_control_t": "CTL", "clingo_solve_handle_t": "HND", "clingo_ast_t": "AST"}
# calls that may not be failed: the interfaces release objects in them or use them to report errors
NOFAIL = {"clingo_solve_handle_close", "clingo_main"}


def decls(text):
    """(ret, name, [(type, param)], documented-as-fallible)"""
    res = []
    for m in re.finditer(r"((?:^[ ]*//!.*\n)*)^CLINGO_VISIBILITY_DEFAULT\s+((?:[^;()]|\n)*?)(\w+)\(([^;]*?)\);", text, re.M):
        doc, ret, name, args = m.groups()
        args = re.sub(r"\s+", " ", args).strip()
        ps = []
        if args and args != "void":
            depth, cur, parts = 0, "", []
            for ch in args:
                if ch == "(": depth += 1
                if ch == ")": depth -= 1
                if ch == "," and depth == 0: parts.append(cur); cur = ""
                else: cur += ch
            parts.append(cur)
            for p in parts:
                p = p.strip()
                if p == "...": return_va = True; ps.append(("...", "...")); continue
                q = re.match(r"(.*)\(\*(\w+)\)(\(.*\))$", p)
                if q:
                    ps.append(("%s(*)%s" % (q.group(1), q.group(3)), q.group(2)))
                    continue
                q = re.match(r"(.*[ *])(\w+)$", p)
                ps.append((q.group(1).strip(), q.group(2)) if q else (p, "arg_%d" % len(ps)))
        ret = re.sub(r"\s+", " ", ret).strip()
        res.append((ret, name, ps, "call was successful" in doc or "allocation" in doc and ret == "bool" or "@return whether the call" in doc, doc))
    return res


BUILD = """CLINGO_VISIBILITY_DEFAULT bool clingo_ast_build(clingo_ast_type_t type, clingo_ast_t **ast, ...) {
    static bool (*real)(clingo_ast_type_t, clingo_ast_t **, ...);
    void *a[10];
    va_list va;
    va_start(va, ast);
    for (int i = 0; i < 10; ++i) { a[i] = va_arg(va, void *); }
    va_end(va);
    if (!real) { real = (bool (*)(clingo_ast_type_t, clingo_ast_t **, ...))resolve("clingo_ast_build"); }
    if (outside(__builtin_return_address(0)) && fails(%d)) { return false; }
    bool res = real(type, ast, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    if (res && outside(__builtin_return_address(0))) { take(*ast); }
    return res;
}"""


def main(header, out):
    text = open(header).read()
    ds = decls(text)
    o = [open(__file__.replace("mkledger.py", "ledger_head.cc")).read()]
    names = []
    for ret, name, ps, fallible, doc in ds:
        idx = len(names)
        fail = ret == "bool" and fallible and name not in NOFAIL
        names.append((name, fail))
        if any(t == "..." for t, _ in ps):      # clingo_ast_build: any number of pointer-sized arguments
            assert name == "clingo_ast_build", name
            o.append(BUILD % idx)
            continue
        sig = ", ".join(t.replace("(*)", "(*%s)" % n) if "(*)" in t else "%s %s" % (t, n) for t, n in ps) or "void"
        call = ", ".join(p for _, p in ps)
        o.append("CLINGO_VISIBILITY_DEFAULT %s %s(%s) {" % (ret, name, sig))
        o.append("    static %s (*real)(%s);" % (ret, ", ".join(t for t, _ in ps) or "void"))
        o.append("    if (!real) { real = (%s (*)(%s))resolve(\"%s\"); }" % (ret, ", ".join(t for t, _ in ps) or "void", name))
        o.append("    if (!outside(__builtin_return_address(0))) { %sreal(%s); }" % ("return " if ret != "void" else "", call) + (" else {" if ret == "void" else ""))
        for t, p in ps:
            b = re.sub(r"\bconst\b|\s", "", t)
            for k, v in CLOSED_ARG.items():
                if b == k + "*": o.append("    alive(%s, %s, \"%s\");" % (v, p, name))
        if name == "clingo_parse_term": o.append("    if (strncmp(string, \"ledger:\", 7) == 0) { return command(string + 7, symbol); }")
        if name.startswith("clingo_ast_parse") or name == "clingo_ast_unpool": o.append("    struct P { P() { ++g_parsing; } ~P() { --g_parsing; } } parsing;")
        # the interface has ended the backend even if the engine reports an error
        if fail: o.append("    if (fails(%d)) { %sreturn false; }" % (idx, "ended(); " if name == "clingo_backend_end" else ""))
        if name == "clingo_control_free": o.append("    closed(CTL, control, \"%s\");" % name)
        if name == "clingo_solve_handle_close": o.append("    closed(HND, handle, \"%s\");" % name)
        if name == "clingo_ast_release": o.append("    drop(ast);")
        if name == "clingo_ast_acquire": o.append("    take(ast);")
        if ret == "void": o.append("    real(%s); }" % call)
        else:
            o.append("    %s ledger_res_ = real(%s);" % (ret, call))
            last = ps[-1][1] if ps else None
            cond = "ledger_res_" if ret == "bool" else "1"
            if name == "clingo_control_new": o.append("    if (%s) { opened(CTL, *%s); }" % (cond, last))
            if name == "clingo_control_solve": o.append("    if (%s) { opened(HND, *%s); }" % (cond, last))
            if name in ("clingo_ast_copy", "clingo_ast_deep_copy"): o.append("    if (%s && *%s) { take(*%s); }" % (cond, last, last))
            if name in ("clingo_ast_attribute_get_ast", "clingo_ast_attribute_get_optional_ast", "clingo_ast_attribute_get_ast_at"): o.append("    if (%s && *%s) { take(*%s); }" % (cond, last, last))
            if name == "clingo_backend_begin": o.append("    if (%s) { g_backends++; }" % cond)
            if name == "clingo_backend_end": o.append("    ended();")
            o.append("    return ledger_res_;")
        o.append("}")
    o.append("static char const *g_names[] = {" + ", ".join('"%s"' % n for n, _ in names) + "};")
    o.append("static int const g_count = %d;" % len(names))
    o.append(open(__file__.replace("mkledger.py", "ledger_tail.cc")).read())
    open(out, "w").write("\n".join(o) + "\n")
    return names


if __name__ == "__main__":
    ns = main(sys.argv[1], sys.argv[2])
    print(len(ns), "functions,", sum(f for _, f in ns), "can fail")
    print("not:", [n for n, f in ns if not f])
