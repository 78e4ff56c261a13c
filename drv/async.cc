// Asynchronous searches over the C++ interface under random schedules (see checks/w17.py); BAD lines report violations.
#include <clingo.hh>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <iostream>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <thread>
using namespace Clingo;
using S = std::string;
using Clock = std::chrono::steady_clock;
static std::mt19937_64 rng;
static int R(int n) { return n <= 0 ? 0 : int(rng() % n); }
static bool P(double p) { return (rng() % 10000) < p * 10000; }
static void nap(double s) { std::this_thread::sleep_for(std::chrono::duration<double>(s)); }
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
static long g_events = 0;
static std::atomic<long> g_limits{0}, g_early{0};
static std::mutex g_out;
using MS = std::set<std::set<int>>;
static char const *HARD = "p(1..14). h(1..13). 1 {in(P,H) : h(H)} 1 :- p(P). :- in(P,H), in(Q,H), P < Q.\n";

static std::pair<S, MS> small() {
    int n = R(6);
    std::vector<std::vector<std::pair<int, bool>>> cl;
    for (int i = n ? R(5) : 0; i > 0; --i) {
        cl.emplace_back();
        for (int j = 1 + R(3); j > 0; --j) { cl.back().emplace_back(R(n), P(.5)); }
    }
    std::ostringstream t;
    if (n) { t << "{a(0.." << n - 1 << ")}.\n"; }
    for (auto &c : cl) {
        t << ":- ";
        for (size_t i = 0; i < c.size(); ++i) { t << (i ? "," : "") << (c[i].second ? "not " : "") << "a(" << c[i].first << ")"; }
        t << ".\n";
    }
    MS ms;
    for (int x = 0; x < (1 << n); ++x) {
        bool ok = true;
        for (auto &c : cl) { bool sat = false; for (auto &l : c) { sat = sat || (((x >> l.first) & 1) == l.second); } ok = ok && sat; }
        std::set<int> m;
        for (int i = 0; i < n; ++i) { if ((x >> i) & 1) { m.insert(i); } }
        if (ok) { ms.insert(m); }
    }
    return {t.str(), ms};
}
static std::set<int> atoms(Model const &m) {
    std::set<int> r;
    for (auto &s : m.symbols(ShowType::Shown)) { if (s.match("a", 1)) { r.insert(s.arguments()[0].number()); } }
    return r;
}
struct Log {
    std::mutex m;
    std::vector<S> names;
    std::vector<std::set<int>> models;
    std::vector<unsigned> results;
    bool numbers = true;
    size_t size() { std::lock_guard<std::mutex> g(m); return names.size(); }
    size_t count(S const &x) { std::lock_guard<std::mutex> g(m); return std::count(names.begin(), names.end(), x); }
};
struct Handler : SolveEventHandler {
    Log *log; double delay, fdelay; int stop_at; std::atomic<bool> closed{false}; bool late = false;
    bool on_model(Model &m) override {
        {
            std::lock_guard<std::mutex> g(log->m);
            if (closed) { late = true; }
            log->names.emplace_back("model");
            log->models.emplace_back(atoms(m));
            if (m.number() != log->models.size()) { log->numbers = false; }
        }
        if (delay > 0) { nap(delay); }
        std::lock_guard<std::mutex> g(log->m);
        return stop_at == 0 || log->models.size() < size_t(stop_at);
    }
    void on_finish(SolveResult r) override {
        if (fdelay > 0) { nap(fdelay); }
        std::lock_guard<std::mutex> g(log->m);
        if (closed) { late = true; }
        log->names.emplace_back("finish");
        log->results.emplace_back(r.to_c());
    }
    void on_statistics(UserStatistics, UserStatistics) override {
        std::lock_guard<std::mutex> g(log->m);
        log->names.emplace_back("stats");
    }
};
struct Case {
    int kind; S text; MS expected; bool pending = false; std::unique_ptr<Control> ctl; std::ostringstream h; long seed;
    void bad(S const &k, S const &t) { std::lock_guard<std::mutex> g(g_out); std::cout << "BAD " << k << " " << t << " case " << seed << " history " << h.str() << std::endl; }
    Case(long seed) : seed(seed) {
        rng.seed(seed);
        kind = R(5);
        bool hard = kind >= 3;
        if (hard) { text = HARD; } else { auto x = small(); text = x.first; expected = x.second; }
        int thr = R(3);
        std::vector<char const *> args{"0"};
        static char const *t[] = {"-t2", "-t4", "-t2,split", "-t4,compete"};
        if (thr) { args.push_back(t[R(4)]); }
        ctl.reset(new Control(StringSpan{args.data(), args.size()}));
        ctl->add("base", {}, text.c_str());
        ctl->ground({{"base", {}}});
        h << (hard ? "hard" : kind == 2 ? "slow" : "small") << " " << (thr ? args.back() : "");
    }
    void round() {
        bool hard = kind >= 3, slow = kind == 2;
        static char const *cn[] = {"async", "ayield", "yield"};
        int call = R(6); call = call < 3 ? 0 : call < 5 ? 1 : 2;
        if (hard && call == 2) { call = 1; }
        Log log;
        Handler ev;
        ev.log = &log;
        ev.stop_at = P(.3) ? 1 + R(2) : 0;
        ev.delay = slow ? (P(.5) ? .005 : .02) : (P(.6) ? 0 : P(.5) ? .001 : .003);
        ev.fdelay = P(.6) ? 0 : P(.5) ? .003 : .02;
        bool has = P(.85), intr = P(hard ? .6 : .4);
        h << " [" << cn[call] << (has ? "" : " nohandler") << " stop=" << ev.stop_at << " delay=" << ev.delay << "/" << ev.fdelay;
        std::vector<S> stopped;
        bool maybe = pending, hasResult = false, cancelled = false;
        SolveResult result;
        if (P(.08)) { ctl->interrupt(); stopped.push_back("interrupt"); h << " pre"; }
        std::vector<std::thread> ths;
        std::vector<std::pair<std::set<int>, uint64_t>> got;
        std::unique_ptr<SolveHandle> moved;
        {
            SolveHandle hd = ctl->solve(LiteralSpan{}, has ? &ev : nullptr, call != 2, call != 0);
            if (intr) {
                static double const at[] = {0, 0, .0005, .002, .01, .03};
                double a = at[R(6)];
                h << " interrupter@" << a;
                stopped.push_back("interrupt");
                for (int i = P(.3) ? 3 : 1; i > 0; --i) { ths.emplace_back([this, a]() { if (a > 0) { nap(a); } ctl->interrupt(); }); }
            }
            if (P(.3)) { moved.reset(new SolveHandle(std::move(hd))); h << " moved"; }
            SolveHandle &x = moved ? *moved : hd;
            if (P(.3) && !(hard && stopped.empty()) && call == 1) {
                h << " range";
                for (auto &m : x) { got.emplace_back(atoms(m), m.number()); if (P(.05)) { break; } }
            }
            for (int i = R(5); i > 0; --i) {
                bool endless = hard && stopped.empty();
                int op = R(9);
                auto t0 = Clock::now();
                if (op < 3) {
                    if (call == 2 || (op == 0 && !endless)) {
                        h << " waitinf";
                        x.wait();
                    }
                    else {
                        static double const ls[] = {0, .001, .01, .05};
                        double l = ls[R(4)];
                        h << " wait" << l;
                        bool r = x.wait(l);
                        double el = since(t0);
                        // the engine may wake up early once in a while; what counts is that limits are kept in general
                        if (!r && l > .005) { ++g_limits; g_early += el < l * .9 - .002; }
                        if (el > l + 20) { bad("wait-late", "wait returned too late"); }
                        if (r && endless && !maybe) { bad("wait-true", "wait reported a result of a search that cannot be finished"); }
                        if (r && call == 0) { result = x.get(); hasResult = true; if (since(t0) > l + 20) { bad("get-late", "get blocked although ready"); } }
                    }
                }
                else if (op == 3) { nap(P(.5) ? .0005 : .003); }
                else if (op == 4 && !endless && (call == 0 || P(.3))) { h << " get"; result = x.get(); hasResult = true; }
                else if (op == 5 && call != 0 && !endless) {
                    h << " model";
                    auto &m = x.model();
                    if (m) { auto e = std::make_pair(atoms(m), m.number()); if (std::find(got.begin(), got.end(), e) == got.end()) { got.push_back(e); } }
                }
                else if (op == 6 && call != 0) { h << " resume"; x.resume(); }
                else if (op == 7 && call != 0 && !endless) {
                    h << " next";
                    auto &m = x.next();
                    if (m) { got.emplace_back(atoms(m), m.number()); }
                }
                else if (op == 8 && P(.5)) {
                    h << " cancel";
                    x.cancel();
                    stopped.push_back("cancel");
                    cancelled = true;
                    size_t n = log.count("model");
                    nap(.001);
                    if (log.count("model") != n) { bad("model-after-cancel", "model handler called after cancel"); }
                    result = x.get();
                    hasResult = true;
                }
            }
            if (!hard && call == 0 && P(.6)) { result = x.get(); hasResult = true; }
            if (hard && P(.5)) {
                h << " interrupt-self";
                stopped.push_back("interrupt");
                ctl->interrupt();
                if (call == 0) { result = x.get(); hasResult = true; }
            }
            h << " exit";
#ifndef DRV_REF
            if (P(.5)) { x.close(); if (P(.3)) { x.close(); } }
#endif
            moved.reset();
        }
        { std::lock_guard<std::mutex> g(log.m); ev.closed = true; }
        size_t n = log.size();
        for (auto &t : ths) { t.join(); }
        if (intr || P(.3)) { nap(.003); }
        std::lock_guard<std::mutex> g(log.m);
        if (ev.late || log.names.size() != n) { bad("event-after-close", "handler called after the handle was closed"); }
        pending = std::count(stopped.begin(), stopped.end(), "interrupt") > 0;
        auto cnt = [&](S const &s) { return std::count(log.names.begin(), log.names.end(), s); };
        if (cnt("finish") != (has ? 1 : 0)) { bad("finish-count", "finish handler called " + std::to_string(cnt("finish")) + " times"); }
        auto lm = std::find(log.names.rbegin(), log.names.rend(), "model");
        if (has && lm != log.names.rend() && std::find(lm.base(), log.names.end(), "finish") == log.names.end()) { bad("model-after-finish", "model after finish"); }
        if (!log.numbers) { bad("model-number", "models not numbered consecutively"); }
        MS ms(log.models.begin(), log.models.end()), gs;
        std::set<uint64_t> gn;
        for (auto &e : got) { gs.insert(e.first); gn.insert(e.second); }
        if (ms.size() != log.models.size() || gs.size() != gn.size()) { bad("model-twice", "model delivered twice"); }
        if (!hard) {
            for (auto *s : {&ms, &gs}) { for (auto &m : *s) { if (!expected.count(m)) { bad("wrong-model", "not an answer set"); } } }
        }
        if (hasResult) {
            bool sat = result.is_satisfiable(), unsat = result.is_unsatisfiable(), unk = result.is_unknown(), ex = result.is_exhausted(), in = result.is_interrupted();
            if (call == 0 && log.results.size() == 1 && log.results[0] != result.to_c()) { bad("finish-result", "finish and get differ"); }
            if (in && stopped.empty() && !maybe) { bad("interrupted", "interrupted although not stopped"); }
            if (int(sat) + int(unsat) + int(unk) != 1) { bad("result", "inconsistent result"); }
            if (!hard && !in && ((sat && expected.empty()) || (unsat && !expected.empty()))) { bad("result", "wrong result"); }
            if (hard && !in && !unk) { bad("result", "result of a search that cannot be finished"); }
            if (call == 0 && stopped.empty() && !maybe && ev.stop_at == 0) {
                if (!ex || in) { bad("result", "complete search not exhausted"); }
                if (has && ms != expected) { bad("models", "models missing"); }
            }
            if (has && has && call == 0 && sat && ms.empty()) { bad("models", "satisfiable without model"); }
        }
        if (ev.stop_at && log.models.size() > size_t(ev.stop_at)) { bad("stop", "models after stopping"); }
        h << "]";
        g_events += log.names.size() + got.size() + 1;
        static int cases = 0;
        if (++cases < 4000) { std::cout << "CASE " << std::hash<S>()(h.str()) << "\n"; }
    }
    void usable() {
        if (kind >= 3) { return; }
        for (int tries = 0;; ++tries) {
            MS ms; size_t n = 0;
            SolveResult r;
            {
                auto hd = ctl->solve();
                for (auto &m : hd) { ms.insert(atoms(m)); ++n; }
                r = hd.get();
            }
            bool ok = ms == expected && n == ms.size() && r.is_exhausted() && !r.is_interrupted();
            if (ok) { break; }
            if (tries || !r.is_interrupted()) { bad("unusable", "blocking search afterwards differs"); break; }
        }
        pending = false;
    }
};
int main(int argc, char **argv) {
    long seed = std::stol(argv[1]), n = std::stol(argv[2]);
    std::mt19937_64 top(seed);
    for (long i = 0; i < n; ++i) {
        long s = top() >> 20;
        std::cerr << "case " << s << std::endl;
        Case c(s);
        for (int j = 1 + R(3); j > 0; --j) { c.round(); if (P(.3)) { c.usable(); } }
        c.usable();
        if (i % 10 == 0) {
            std::vector<std::thread> ths;
            std::atomic<int> errs{0};
            std::vector<std::pair<S, MS>> ps;
            for (int t = 2 + R(5); t > 0; --t) { ps.push_back(small()); }
            for (auto &p : ps) {
                ths.emplace_back([&p, &errs]() {
                    try {
                        for (int k = 0; k < 3; ++k) {
                            Control ctl{{"0"}};
                            ctl.add("base", {}, p.first.c_str());
                            ctl.ground({{"base", {}}});
                            MS ms;
                            auto hd = ctl.solve(LiteralSpan{}, nullptr, k == 1, true);
                            for (auto &m : hd) { ms.insert(atoms(m)); }
                            if (ms != p.second) { ++errs; }
                            if (parse_term("f(1+2,\"x\")").to_string() != "f(3,\"x\")") { ++errs; }
#ifndef DRV_REF
                            int st = 0;
                            AST::parse_string(p.first.c_str(), [&](AST::Node n) { st += !n.to_string().empty(); });
                            if (st == 0) { ++errs; }
#endif
                        }
                    } catch (std::exception const &e) { ++errs; }
                });
            }
            for (auto &t : ths) { t.join(); }
            if (errs) { std::cout << "BAD parallel-controls " << errs << " seed " << s << std::endl; }
            g_events += ps.size() * 3;
        }
    }
    if (g_early >= 3 && 2 * g_early > g_limits) { std::cout << "BAD wait-early " << g_early << " of " << g_limits << " waits ended before their limits" << std::endl; }
    std::cout << "COUNT waits_until_limit " << g_limits << std::endl;
    std::cout << "events " << g_events << std::endl;
}
