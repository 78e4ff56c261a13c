static bool command(char const *s, clingo_symbol_t *sym) {
    char buf[400];
    buf[0] = 0;
    if (strcmp(s, "reset") == 0) { g_calls = 0; g_arm = 0; g_fired = -1; }
    else if (strcmp(s, "count") == 0) { snprintf(buf, sizeof(buf), "%ld", g_calls.load()); }
    else if (strncmp(s, "arm:", 4) == 0) {
        char *e = nullptr;
        g_calls = 0; g_fired = -1; g_arm = strtol(s + 4, &e, 10);
        g_code = *e ? atoi(e + 1) : clingo_error_runtime;
    }
    else if (strcmp(s, "fired") == 0) { long f = g_fired; g_arm = 0; snprintf(buf, sizeof(buf), "%s", f < 0 ? "-" : g_names[f]); }
    else if (strcmp(s, "live") == 0) {
        std::lock_guard<std::mutex> g(st().m);
        long n = 0;
        for (auto &x : st().asts) { n += x.second; }
        snprintf(buf, sizeof(buf), "controls=%zu handles=%zu references=%ld backends=%ld created=%lu/%lu/%lu", st().live[CTL].size(), st().live[HND].size(), n, g_backends.load(),
                 st().created[CTL], st().created[HND], st().created[AST]);
    }
    else { return false; }
    return clingo_symbol_create_string(buf, sym);
}
