// Model-based monitors of the engine's data structures: random operation histories are executed on the real structure and on an
// obviously correct model; every answer is compared after every operation.
// usage: ds SECTION SEED N
#include <gringo/graph.hh>
#include <gringo/hash_set.hh>
#include <gringo/indexed.hh>
#include <gringo/intervals.hh>
#include <gringo/safetycheck.hh>
#include <gringo/utility.hh>
#ifdef DS_SYMBOLS
#include <gringo/symbol.hh>
#endif
#ifdef DS_ENGINE
#include <gringo/logger.hh>
#include <gringo/term.hh>
#endif
#include <cstdio>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <atomic>
#include <cstdlib>

using namespace Gringo;
static std::mt19937_64 rng;
static long events = 0, bads = 0;
static int R(int n) { return int(rng() % unsigned(n)); }
static void bad(std::string const &key, std::string const &what) {
    if (++bads <= 20) printf("BAD %s %s\n", key.c_str(), what.c_str());
}
#define CHECK(c, key, what) do { ++events; if (!(c)) { std::ostringstream o_; o_ << what; bad(key, o_.str()); } } while (0)

// {{{ interval sets: points of a dense order, modelled by the even numbers (the bounds) and the odd numbers (what lies between)
namespace {
struct V { // only operator<, like the symbols the engine uses
    int v;
    bool operator<(V o) const { return v < o.v; }
};
constexpr int M = 17;
using IS = IntervalSet<V>;
using Set = std::set<int>;
IS::Interval randI() {
    int a = 2 * R(M / 2 + 1), b = R(8) ? 2 * R(M / 2 + 1) : a;
    if (a > b && R(10)) std::swap(a, b);
    return {{{a}, R(2) == 0}, {{b}, R(2) == 0}};
}
Set pts(IS::Interval const &x) {
    Set r;
    for (int p = 0; p <= M; ++p) {
        int l = x.left.bound.v, u = x.right.bound.v;
        if ((p > l || (p == l && x.left.inclusive)) && (p < u || (p == u && x.right.inclusive))) r.insert(p);
    }
    return r;
}
std::string show(Set const &s) { std::string r = "{"; for (int x : s) r += std::to_string(x) + " "; return r + "}"; }
std::string show(IS::Interval const &x) { return std::string(x.left.inclusive ? "[" : "(") + std::to_string(x.left.bound.v) + "," + std::to_string(x.right.bound.v) + (x.right.inclusive ? "]" : ")"); }
std::string show(IS const &s) { std::string r; for (auto &x : s) r += show(x); return r; }
// number of maximal runs of consecutive points
size_t runs(Set const &s) { size_t n = 0; int last = -5; for (int x : s) { if (x != last + 1) ++n; last = x; } return n; }
void same(IS const &s, Set const &m, std::string const &op, std::string const &hist) {
    Set g;
    size_t n = 0;
    IS::Interval const *prev = nullptr;
    for (auto &x : s) {
        ++n;
        CHECK(!x.empty(), "interval-empty-element-" + op, hist << " gives " << show(s) << " which has an empty element");
        Set p = pts(x);
        for (int y : p) { CHECK(!g.count(y), "interval-overlap-" + op, hist << " gives " << show(s)); g.insert(y); }
        if (prev) CHECK(*prev < x, "interval-order-" + op, hist << " gives " << show(s) << " whose elements are out of order or touch");
        prev = &x;
    }
    CHECK(g == m, "interval-points-" + op, hist << " gives " << show(s) << " = " << show(g) << ", expected " << show(m));
    CHECK(n == s.size() && s.empty() == (n == 0) && s.empty() == m.empty(), "interval-size-" + op, hist << " gives " << show(s) << " with size " << s.size() << " and empty " << s.empty());
    CHECK(n == runs(m), "interval-canonical-" + op, hist << " gives " << show(s) << " for " << show(m));
    if (n) CHECK(pts(s.front()) == pts(*s.begin()) && pts(s.back()) == pts(*(s.end() - 1)), "interval-ends", hist);
    for (int p = 0; p <= M; ++p) {
        V v{p};
        bool in = false;
        for (auto &x : s) { in = in || x.contains(v); if (!x.empty()) CHECK((v < x) == (p < *pts(x).begin()) && (x < v) == (p > *pts(x).rbegin()), "interval-point-order", hist << " point " << p << " in " << show(x)); }
        CHECK(in == (m.count(p) > 0), "interval-contains-point", hist << " point " << p);
    }
}
bool subset(Set const &a, Set const &b) { for (int x : a) if (!b.count(x)) return false; return true; }
bool meets(Set const &a, Set const &b) { for (int x : a) if (b.count(x)) return true; return false; }
std::pair<IS, Set> history(std::string &h, int n) {
    IS s; Set m;
    for (int i = 0; i < n; ++i) {
        auto x = randI();
        Set p = pts(x);
        CHECK(x.empty() == p.empty(), "interval-empty", show(x));
        switch (R(8)) {
            case 0: case 1: case 2: case 3: {
                h += "+" + show(x);
                if (R(2)) s.add(x); else s.add(x.left.bound, x.left.inclusive, x.right.bound, x.right.inclusive);
                m.insert(p.begin(), p.end());
                same(s, m, "add", h);
                break;
            }
            case 4: case 5: case 6: {
                h += "-" + show(x);
                if (R(2)) s.remove(x); else s.remove(x.left.bound, x.left.inclusive, x.right.bound, x.right.inclusive);
                for (int y : p) m.erase(y);
                same(s, m, "remove", h);
                break;
            }
            case 7: {
                if (R(6) == 0) { h += "clear"; s.clear(); m.clear(); same(s, m, "clear", h); }
                break;
            }
        }
        for (int j = 0; j < 3; ++j) {
            auto y = randI();
            Set q = pts(y);
            CHECK(s.contains(y) == subset(q, m), "interval-contains", h << " contains " << show(y) << ": " << s.contains(y));
            CHECK(s.intersects(y) == meets(q, m), "interval-intersects", h << " intersects " << show(y) << ": " << s.intersects(y));
        }
    }
    return {s, m};
}
void intervals(int n) {
    for (int i = 0; i < n; ++i) {
        std::string ha, hb;
        auto a = history(ha, 1 + R(8));
        auto b = history(hb, 1 + R(8));
        Set inter, diff;
        for (int x : a.second) (b.second.count(x) ? inter : diff).insert(x);
        same(a.first.intersect(b.first), inter, "intersect", show(a.first) + " & " + show(b.first));
        same(a.first.difference(b.first), diff, "difference", show(a.first) + " \\ " + show(b.first));
        IS c(a.first), d; // copies are independent
        d = b.first;
        auto x = randI();
        c.add(x); d.remove(x);
        same(a.first, a.second, "copy", ha); same(b.first, b.second, "copy", hb);
        IS e(std::move(c));
        Set u = a.second; Set p = pts(x); u.insert(p.begin(), p.end());
        same(e, u, "move", ha);
        IS f{x, randI()};
        IS g(x); same(g, p, "construct", show(x));
        IS k(x.left.bound, x.left.inclusive, x.right.bound, x.right.inclusive); same(k, p, "construct", show(x));
        // the orders of bounds
        auto y = randI();
        auto lpos = [](IS::LBound const &l) { return l.bound.v * 2 + (l.inclusive ? 0 : 1); };
        auto rpos = [](IS::RBound const &r) { return r.bound.v * 2 + (r.inclusive ? 1 : 0); };
        CHECK((x.left < y.left) == (lpos(x.left) < lpos(y.left)) && (x.left <= y.left) == (lpos(x.left) <= lpos(y.left)), "bound-order-left", show(x) << show(y));
        CHECK((x.right < y.right) == (rpos(x.right) < rpos(y.right)) && (x.right <= y.right) == (rpos(x.right) <= rpos(y.right)), "bound-order-right", show(x) << show(y));
        CHECK((x.left < y.right) == (x.left.bound.v < y.right.bound.v || (x.left.bound.v == y.right.bound.v && x.left.inclusive && y.right.inclusive)), "bound-order-lr", show(x) << show(y));
        CHECK((x.right < y.left) == (x.right.bound.v < y.left.bound.v || (x.right.bound.v == y.left.bound.v && !x.right.inclusive && !y.left.inclusive)), "bound-order-rl", show(x) << show(y));
        IS::LBound l = x.left; l = y.right; // everything after y
        IS::RBound r = x.right; r = y.left; // everything before y
        CHECK(l.bound.v == y.right.bound.v && l.inclusive == !y.right.inclusive && r.bound.v == y.left.bound.v && r.inclusive == !y.left.inclusive, "bound-complement", show(y));
        if (i % 50 == 0) printf("CASE intervals %s %s\n", ha.c_str(), hb.c_str());
    }
}
// }}}
// {{{ graphs: components against reachability, in reverse topological order, repeatedly and while the graph grows
void graphs(int n) {
    for (int it = 0; it < n; ++it) {
        Graph<int> g;
        std::vector<Graph<int>::Node *> nodes;
        std::vector<std::vector<int>> adj;
        int rounds = 1 + R(4), dens = 1 + R(4);
        std::string h;
        for (int r = 0; r < rounds; ++r) {
            int add = R(7);
            for (int i = 0; i < add; ++i) { nodes.push_back(&g.insertNode(int(adj.size()))); adj.emplace_back(); }
            int k = int(adj.size());
            if (k) for (int i = 0, e = R(dens * k + 1); i < e; ++i) {
                int a = R(k), b = R(k);
                nodes[size_t(a)]->insertEdge(*nodes[size_t(b)]);
                adj[size_t(a)].push_back(b);
                h += std::to_string(a) + ">" + std::to_string(b) + " ";
            }
            h += "|" + std::to_string(k) + " ";
            std::vector<std::vector<bool>> reach(static_cast<size_t>(k), std::vector<bool>(static_cast<size_t>(k), false));
            for (int i = 0; i < k; ++i) {
                std::vector<int> todo{i};
                reach[size_t(i)][size_t(i)] = true;
                while (!todo.empty()) { int x = todo.back(); todo.pop_back(); for (int y : adj[size_t(x)]) if (!reach[size_t(i)][size_t(y)]) { reach[size_t(i)][size_t(y)] = true; todo.push_back(y); } }
            }
            for (int rep = 0, e = 1 + R(2); rep < e; ++rep) {
                auto sccs = g.tarjan();
                std::vector<int> comp(size_t(k), -1);
                int c = 0; size_t total = 0;
                for (auto &s : sccs) { CHECK(!s.empty(), "graph-empty-component", h); for (auto *x : s) { CHECK(x->data >= 0 && x->data < k && comp[size_t(x->data)] == -1, "graph-partition", h << " node " << x->data); comp[size_t(x->data)] = c; ++total; } ++c; }
                CHECK(total == size_t(k), "graph-partition", h << ": " << total << " nodes reported");
                if (total != size_t(k)) return;
                for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) {
                    bool same = reach[size_t(a)][size_t(b)] && reach[size_t(b)][size_t(a)];
                    CHECK(same == (comp[size_t(a)] == comp[size_t(b)]), "graph-components", h << " nodes " << a << " and " << b << " round " << r << "." << rep);
                    if (reach[size_t(a)][size_t(b)] && !same) CHECK(comp[size_t(b)] < comp[size_t(a)], "graph-order", h << " " << a << " reaches " << b);
                }
                for (auto *x : nodes) { std::vector<int> out; for (auto *y : *x) out.push_back(y->data); CHECK(out == adj[size_t(x->data)], "graph-edges", h); }
            }
            if (R(3) == 0) { Graph<int> o(std::move(g)); g = std::move(o); }
        }
        if (it % 50 == 0) printf("CASE graph %s\n", h.c_str());
    }
    // long chains and cycles need no deep recursion
    for (int cyc = 0; cyc < 2; ++cyc) {
        Graph<int> g;
        int k = 200000;
        std::vector<Graph<int>::Node *> nodes;
        for (int i = 0; i < k; ++i) nodes.push_back(&g.insertNode(i));
        for (int i = 0; i + 1 < k; ++i) nodes[size_t(i)]->insertEdge(*nodes[size_t(i) + 1]);
        if (cyc) nodes.back()->insertEdge(*nodes[0]);
        auto s = g.tarjan();
        CHECK(s.size() == size_t(cyc ? 1 : k), "graph-long", "components " << s.size());
    }
}
// }}}
// {{{ indexed store: a map from handles to values in which live handles are never reused
void indexed(int n) {
    for (int it = 0; it < n; ++it) {
        Indexed<std::unique_ptr<std::string>> x;
        std::map<unsigned, std::string> m;
        std::string h;
        for (int i = 0, e = R(60); i < e; ++i) {
            if (m.empty() || R(5) < 3) {
                std::string v = "v" + std::to_string(rng() % 1000000);
                unsigned id = R(2) ? x.insert(std::unique_ptr<std::string>(new std::string(v))) : x.emplace(new std::string(v));
                h += "+" + std::to_string(id) + " ";
                CHECK(!m.count(id), "indexed-handle-reused", h);
                m[id] = v;
            } else {
                auto q = m.begin();
                switch (R(4)) { case 0: q = std::prev(m.end()); break; case 1: break; default: std::advance(q, R(int(m.size()))); }
                h += "-" + std::to_string(q->first) + " ";
                auto v = x.erase(q->first);
                CHECK(v && *v == q->second, "indexed-erase-value", h);
                m.erase(q);
            }
            for (auto &y : m) { auto &p = x[y.first]; CHECK(p && *p == y.second, "indexed-value", h << " at " << y.first); if (!p) return; }
        }
        if (it % 50 == 0) printf("CASE indexed %s\n", h.c_str());
    }
}
// }}}
// {{{ safety checker
void safety(int n) {
    for (int it = 0; it < n; ++it) {
        using SC = SafetyChecker<int, int>;
        SC s;
        int nv = R(7), ne = R(8);
        std::vector<SC::VarNode *> vs; std::vector<SC::EntNode *> es;
        std::vector<std::set<int>> needs(static_cast<size_t>(ne)), gives(static_cast<size_t>(ne));
        for (int i = 0; i < nv; ++i) vs.push_back(&s.insertVar(i));
        for (int i = 0; i < ne; ++i) es.push_back(&s.insertEnt(i));
        std::string h;
        bool dup = R(3) == 0;
        if (nv && ne) for (int i = 0, e = R(2 * (nv + ne)); i < e; ++i) {
            int v = R(nv), x = R(ne);
            if (R(2)) { if (!dup && needs[size_t(x)].count(v)) continue; s.insertEdge(*vs[size_t(v)], *es[size_t(x)]); needs[size_t(x)].insert(v); h += "v" + std::to_string(v) + ">e" + std::to_string(x) + " "; }
            else { if (!dup && gives[size_t(x)].count(v)) continue; s.insertEdge(*es[size_t(x)], *vs[size_t(v)]); gives[size_t(x)].insert(v); h += "e" + std::to_string(x) + ">v" + std::to_string(v) + " "; }
        }
        // least fixpoint
        std::set<int> bound, fired;
        for (bool ch = true; ch;) { ch = false; for (int x = 0; x < ne; ++x) { if (fired.count(x)) continue; bool ok = true; for (int v : needs[size_t(x)]) ok = ok && bound.count(v); if (ok) { fired.insert(x); bound.insert(gives[size_t(x)].begin(), gives[size_t(x)].end()); ch = true; } } }
        std::vector<int> prio; for (int i = 0; i < ne; ++i) prio.push_back(R(4));
        auto pred = [&](int a, int b) { return prio[size_t(a)] < prio[size_t(b)]; };
        bool usep = R(2);
        auto ord = usep ? s.order(pred) : s.order();
        std::set<int> seen, b2;
        for (auto *x : ord) {
            CHECK(seen.insert(x->data).second, "safety-repeated", h);
            for (int v : needs[size_t(x->data)]) CHECK(b2.count(v), "safety-order-unbound", h << " e" << x->data << " before v" << v << " is bound");
            // the chosen one is minimal among those that are ready
            for (int y = 0; y < ne; ++y) {
                if (seen.count(y)) continue;
                bool ready = true; for (int v : needs[size_t(y)]) ready = ready && b2.count(v);
                if (ready) CHECK(usep ? !pred(y, x->data) : !(y < x->data), "safety-order-priority", h << " e" << x->data << " chosen over e" << y);
            }
            b2.insert(gives[size_t(x->data)].begin(), gives[size_t(x->data)].end());
        }
        CHECK(seen == fired, "safety-fired", h << show(seen) << " expected " << show(fired));
        std::set<int> open, expo;
        for (auto *v : s.open()) CHECK(open.insert(v->data).second, "safety-open-repeated", h);
        for (int v = 0; v < nv; ++v) if (!bound.count(v)) expo.insert(v);
        CHECK(open == expo, "safety-open", h << show(open) << " expected " << show(expo));
        if (it % 50 == 0) printf("CASE safety %s\n", h.c_str());
    }
}
// }}}
// {{{ set of spans
struct BadHash { size_t operator()(int x) const { return size_t(x & 1); } }; // collisions
template <class H> void arraySet(int n) {
    for (int it = 0; it < n; ++it) {
        array_set<int, H> s;
        std::map<std::vector<int>, std::pair<uint32_t, uint32_t>> m;
        CHECK(s.empty(), "arrayset-empty", "initially");
        int range = 1 + R(4), len = 1 + R(5);
        for (int i = 0, e = R(80); i < e; ++i) {
            std::vector<int> k(size_t(R(len + 1)));
            for (auto &x : k) x = R(range) - 1;
            auto r = s.insert(make_span(k));
            auto q = m.find(k);
            CHECK(r.second == (q == m.end()), "arrayset-insert-new", "length " << k.size());
            CHECK(r.first.second == k.size(), "arrayset-index-length", "length " << k.size());
            if (q != m.end()) CHECK(q->second == r.first, "arrayset-index-changed", "length " << k.size());
            else { for (auto &x : m) CHECK(x.second != r.first, "arrayset-index-shared", "length " << k.size()); m.emplace(k, r.first); }
            if (R(40) == 0) { s.clear(); m.clear(); CHECK(s.empty(), "arrayset-clear", ""); }
            for (auto &x : m) { auto sp = s.at(x.second); CHECK(std::vector<int>(begin(sp), end(sp)) == x.first, "arrayset-at", "length " << x.first.size()); }
            CHECK(s.empty() == m.empty(), "arrayset-empty", m.size());
        }
    }
    printf("CASE arrayset\n");
}
// hash containers against std
struct Item { int key; int val; int hash_; Item(int k, int v) : key(k), val(v), hash_(0) {} };
struct KeyGet { int const &operator()(Item const &i) const { return i.key; } };
struct IHash { size_t operator()(int x) const { return std::hash<int>()(x); } };
void hashes(int n) {
    for (int it = 0; it < n; ++it) {
        hash_set<int> hs; std::set<int> ms;
        hash_map<int, int, mix_hash<int, BadHash>> hm; std::map<int, int> mm;
        ordered_set<int> os; std::vector<int> ov;
        hash_set<Item, HashKey<int, KeyGet, mix_hash<int>>, EqualToKey<int, KeyGet>> is; std::map<int, int> im;
        hash_set<std::pair<int, int>, HashFirst<int, mix_hash<int>>, EqualToFirst<int>> fs; std::map<int, int> fm;
        for (int i = 0, e = R(200); i < e; ++i) {
            int k = R(40);
            CHECK(hs.insert(k).second == ms.insert(k).second, "hashset-insert", k);
            CHECK(hm.insert({k, i}).second == mm.insert({k, i}).second, "hashmap-insert", k);
            bool fresh = std::find(ov.begin(), ov.end(), k) == ov.end();
            CHECK(os.insert(k).second == fresh, "orderedset-insert", k);
            if (fresh) ov.push_back(k);
            CHECK(is.insert(Item(k, i)).second == im.insert({k, i}).second, "keyset-insert", k);
            CHECK(fs.insert({k, i}).second == fm.insert({k, i}).second, "firstset-insert", k);
            int d = R(40);
            if (R(3) == 0) {
                CHECK(hs.erase(d) == ms.erase(d), "hashset-erase", d);
                CHECK(hm.erase(d) == mm.erase(d), "hashmap-erase", d);
            }
            for (int q = 0; q < 40; ++q) {
                CHECK((hs.find(q) != hs.end()) == (ms.count(q) > 0), "hashset-find", q);
                auto a = hm.find(q); auto b = mm.find(q);
                CHECK((a == hm.end()) == (b == mm.end()) && (b == mm.end() || a->second == b->second), "hashmap-find", q);
                auto c = is.find(q); auto w = im.find(q);
                CHECK((c == is.end()) == (w == im.end()) && (w == im.end() || c->val == w->second), "keyset-find", q);
                auto f = fs.find(q); auto g = fm.find(q);
                CHECK((f == fs.end()) == (g == fm.end()) && (g == fm.end() || f->second == g->second), "firstset-find", q);
            }
            CHECK(hs.size() == ms.size() && std::vector<int>(os.begin(), os.end()) == ov, "orderedset-order", k);
        }
    }
    printf("CASE hashes\n");
}
// }}}
// {{{ helpers
struct Obj {
    static long live;
    int v;
    explicit Obj(int v_) : v(v_) { ++live; }
    Obj(Obj const &o) : v(o.v) { ++live; }
    ~Obj() { --live; v = -77; }
    Obj *clone() const { return new Obj(v); }
    bool operator==(Obj const &o) const { return v == o.v; }
    size_t hash() const { return size_t(v); }
};
long Obj::live = 0;
} // namespace
namespace std { template <> struct hash<Obj> { size_t operator()(Obj const &o) const { return size_t(o.v) * 7; } }; }
namespace Gringo { template <> struct clone<Obj> { Obj operator()(Obj const &x) const { return x; } }; }
namespace {
void owner(int n) {
    // pointers of both kinds under construction, move, reset, release and swap: each owned object is destroyed exactly once,
    // no object that is not owned is ever destroyed
    for (int it = 0; it < n; ++it) {
        long before = Obj::live;
        {
            std::vector<std::unique_ptr<Obj>> outside;
            std::vector<Obj *> released;
            struct Mdl { Obj *p; bool own; int v; };
            std::vector<single_owner_ptr<Obj>> ps(4);
            std::vector<Mdl> ms(4, {nullptr, false, 0});
            std::string h;
            for (int i = 0, e = R(40); i < e; ++i) {
                int a = R(4), b = R(4), v = R(1000);
                h += std::to_string(a) + std::to_string(b);
                switch (R(8)) {
                    case 0: { h += "own "; Obj *o = new Obj(v); ps[size_t(a)].reset(o, true); ms[size_t(a)] = {o, true, v}; break; }
                    case 1: { h += "ref "; outside.emplace_back(new Obj(v)); ps[size_t(a)].reset(outside.back().get(), false); ms[size_t(a)] = {outside.back().get(), false, v}; break; }
                    case 2: { h += "move "; if (a != b && (!ms[size_t(a)].own || ms[size_t(a)].p != ms[size_t(b)].p)) { ps[size_t(a)] = std::move(ps[size_t(b)]); ms[size_t(a)] = ms[size_t(b)]; ms[size_t(b)].own = false; } break; }
                    case 3: { h += "rel "; bool own = ms[size_t(a)].own; Obj *o = ps[size_t(a)].release(); CHECK(o == ms[size_t(a)].p, "owner-release", h); if (own) { released.push_back(o); } ms[size_t(a)].own = false; break; }
                    case 4: { h += "swap "; ps[size_t(a)].swap(ps[size_t(b)]); std::swap(ms[size_t(a)], ms[size_t(b)]); break; }
                    case 5: { h += "uniq "; std::unique_ptr<Obj> u(new Obj(v)); Obj *o = u.get(); ps[size_t(a)] = single_owner_ptr<Obj>(std::move(u)); ms[size_t(a)] = {o, true, v}; break; }
                    case 6: { h += "make "; ps[size_t(a)] = make_single_owner<Obj>(v); ms[size_t(a)] = {ps[size_t(a)].get(), true, v}; break; }
                    case 7: { h += "ctor "; single_owner_ptr<Obj> t(std::move(ps[size_t(a)])); CHECK(!ps[size_t(a)].is_owner() && t.is_owner() == ms[size_t(a)].own, "owner-move-construct", h); ps[size_t(a)] = std::move(t); break; }
                }
                std::set<Obj *> own;
                for (size_t k = 0; k < 4; ++k) {
                    CHECK(ps[k].get() == ms[k].p && ps[k].is_owner() == ms[k].own, "owner-state", h);
                    if (ms[k].own) { CHECK(own.insert(ms[k].p).second, "owner-twice", h); CHECK(ps[k]->v == ms[k].v && (*ps[k]).v == ms[k].v, "owner-value", h); }
                }
                CHECK(Obj::live - before == long(own.size() + outside.size() + released.size()), "owner-live", h << " live " << Obj::live - before);
            }
            for (auto *o : released) { for (auto &p : ps) if (p.get() == o && p.is_owner()) bad("owner-released", h); delete o; }
            if (it % 50 == 0) printf("CASE owner %s\n", h.c_str());
        }
        CHECK(Obj::live == before, "owner-leak", Obj::live - before);
    }
}
void helpers(int n) {
    for (int it = 0; it < n; ++it) {
        // cross product
        std::vector<std::vector<int>> v(size_t(R(5)));
        for (auto &x : v) { x.resize(size_t(R(12) ? 1 + R(3) : 0)); for (auto &y : x) y = R(5); }
        std::multiset<std::vector<int>> exp;
        std::function<void(size_t, std::vector<int>)> rec = [&](size_t i, std::vector<int> c) { if (i == v.size()) { exp.insert(c); return; } for (int y : v[i]) { auto d = c; d.push_back(y); rec(i + 1, d); } };
        rec(0, {});
        auto w = v;
        cross_product(w);
        CHECK(std::multiset<std::vector<int>>(w.begin(), w.end()) == exp, "cross-product", "sizes " << v.size() << ": " << w.size() << " tuples, expected " << exp.size());
        // sort_unique, erase_if, move_if, print_comma
        std::vector<int> a(size_t(R(12)));
        for (auto &x : a) x = R(8);
        auto b = a; sort_unique(b);
        std::set<int> sa(a.begin(), a.end());
        CHECK(b == std::vector<int>(sa.begin(), sa.end()), "sort-unique", a.size());
        auto b2 = a; sort_unique(b2, [](int x, int y) { return x > y; });
        CHECK(b2 == std::vector<int>(sa.rbegin(), sa.rend()), "sort-unique-pred", a.size());
        int t = R(9);
        auto p = [t](int x) { return x < t; };
        std::vector<int> c = a, d{-1}, ec, ed{-1};
        for (int x : a) (p(x) ? ed : ec).push_back(x);
        move_if(c, d, p);
        CHECK(c == ec && d == ed, "move-if", a.size());
        std::multimap<int, int> mp; for (int x : a) mp.emplace(x, x);
        std::vector<int> left; erase_if(mp, [&](std::pair<int const, int> const &x) { return p(x.first); });
        for (auto &x : mp) left.push_back(x.first);
        std::sort(ec.begin(), ec.end());
        CHECK(left == ec, "erase-if", a.size());
        std::ostringstream o1, o2, o3;
        print_comma(o1, a, "; ");
        print_comma(o2, a, ",", [](std::ostream &o, int x) { o << "<" << x << ">"; });
        std::string e1, e2;
        for (size_t i = 0; i < a.size(); ++i) { e1 += (i ? "; " : "") + std::to_string(a[i]); e2 += (i ? ",<" : "<") + std::to_string(a[i]) + ">"; }
        CHECK(o1.str() == e1 && o2.str() == e2, "print-comma", o1.str() << " " << o2.str());
        // streams
        CountStream cs; std::string text;
        std::string chunk(size_t(R(30)), 'x');
        for (int i = 0, e = R(5); i < e; ++i) { int k = R(100000) - 50000; cs << k << chunk << 'c'; text += std::to_string(k) + chunk + "c"; }
        CHECK(cs.count() == text.size(), "count-stream", cs.count() << " for " << text.size());
        std::vector<char> buf(text.size() + 1, 'Z');
        ArrayStream as(buf.data(), text.size());
        bool threw = false;
        try { as << text; as.flush(); } catch (std::ios_base::failure const &) { threw = true; }
        CHECK(!threw && std::string(buf.data(), text.size()) == text && buf.back() == 'Z', "array-stream", text.size());
        if (!text.empty()) {
            std::vector<char> sm(text.size(), 'Z');
            ArrayStream as2(sm.data(), text.size() - 1);
            threw = false;
            try { as2 << text; as2.flush(); } catch (std::ios_base::failure const &) { threw = true; }
            CHECK(threw && sm.back() == 'Z', "array-stream-full", text.size());
            size_t pos = size_t(R(int(text.size()) + 1));
            as.seekg(std::streamoff(pos));
            std::string rest(text.size() - pos, ' ');
            if (!rest.empty()) as.read(&rest[0], std::streamsize(rest.size()));
            CHECK(rest == text.substr(pos) && size_t(as.tellg()) == text.size(), "array-stream-read", pos);
        }
        // values behind pointers, in tuples, pairs and vectors: equality, hashes and copies
        using T = std::tuple<std::unique_ptr<Obj>, std::pair<int, std::vector<std::unique_ptr<Obj>>>, Obj>;
        auto mk = [](std::vector<int> const &vals) { std::vector<std::unique_ptr<Obj>> vec; for (size_t i = 3; i < vals.size(); ++i) vec.emplace_back(new Obj(vals[i])); return T(std::unique_ptr<Obj>(new Obj(vals[0])), std::make_pair(vals[1], std::move(vec)), Obj(vals[2])); };
        std::vector<int> va, vb;
        for (int i = 0, e = 3 + R(3); i < e; ++i) va.push_back(R(2));
        vb = va;
        if (R(2)) vb[size_t(R(int(vb.size())))] ^= 1; else if (R(3) == 0) vb.push_back(0);
        long live = Obj::live;
        {
            T ta = mk(va), tb = mk(vb);
            CHECK(is_value_equal_to(ta, tb) == (va == vb), "value-equal", "");
            if (va == vb) CHECK(get_value_hash(ta) == get_value_hash(tb), "value-hash", "");
            T tc = get_clone(ta);
            CHECK(is_value_equal_to(ta, tc) && get_value_hash(ta) == get_value_hash(tc) && std::get<0>(ta).get() != std::get<0>(tc).get(), "clone", "");
            auto so = make_single_owner<Obj>(va[0]); auto sc = get_clone(so);
            CHECK(sc.is_owner() && so.is_owner() && sc.get() != so.get() && *sc == *so, "clone-owner", "");
            std::get<0>(tc)->v = 5;
            CHECK(!is_value_equal_to(ta, tc) && std::get<0>(ta)->v == va[0], "clone-independent", "");
            auto ra = std::ref(*std::get<0>(ta)), rb = std::ref(*std::get<0>(tb));
            CHECK(is_value_equal_to(ra, rb) == (va[0] == vb[0]) && (va[0] != vb[0] || get_value_hash(ra) == get_value_hash(rb)), "value-equal-ref", "");
            CHECK(is_value_equal_to(std::get<0>(ta).get(), std::get<0>(tb).get()) == (va[0] == vb[0]), "value-equal-ptr", "");
        }
        CHECK(Obj::live == live, "clone-leak", Obj::live - live);
        std::string s1, s2; for (int i = 0, e = R(4); i < e; ++i) { s1 += char('a' + R(2)); s2 += char('a' + R(2)); }
        CHECK((s1 != s2 || strhash(s1.c_str()) == strhash(s2.c_str())) && strhash(s1.c_str()) == strhash(Potassco::toSpan(s1)), "strhash", s1 << " " << s2);
        // exit actions run exactly once, at the end of the scope, also when an exception leaves it
        int ran = 0; bool inside = true;
        try { auto g = onExit([&] { ++ran; }); inside = ran == 0; if (R(2)) throw 1; } catch (int) {}
        CHECK(inside && ran == 1, "on-exit", ran);
        CHECK(numeric_cast<int>(uint64_t(5)) == 5 && numeric_cast<uint32_t>(int64_t(4000000000LL)) == 4000000000U && numeric_cast<int64_t>(-3) == -3, "numeric-cast", "");
    }
    // hashes spread: distinct small values hardly collide
    std::set<size_t> hs;
    for (int i = 0; i < 2000; ++i) hs.insert(mix_hash<int>()(i));
    CHECK(hs.size() > 1990, "hash-spread", hs.size());
    hs.clear();
    for (int i = 0; i < 40; ++i) for (int j = 0; j < 40; ++j) hs.insert(get_value_hash(i, j));
    CHECK(hs.size() > 1590, "hash-spread-pair", hs.size());
    printf("CASE helpers\n");
}
// }}}
#ifdef DS_SYMBOLS
// {{{ symbols: interning, order, printing, also from several threads
struct S { int kind; int num; std::string str; bool neg; std::vector<S> args; };
S randS(int depth) {
    switch (R(depth > 0 ? 8 : 6)) {
        case 0: return {0, R(5) ? R(7) - 3 : (R(2) ? 2147483647 - R(2) : -2147483647 - R(2)), "", false, {}};
        case 1: return {1, 0, std::string(size_t(R(3)), "ab\"\\\n"[R(5)]) + (R(2) ? "x" : ""), false, {}};
        case 2: return {3, 0, "", false, {}};
        case 3: return {4, 0, "", false, {}};
        case 4: case 5: { S s{2, 0, "", false, {}}; s.str = R(6) ? std::string(1, "abc"[R(3)]) + (R(3) ? "" : "b") : ""; s.neg = !s.str.empty() && R(3) == 0; return s; }
        default: {
            S s{2, 0, R(4) ? std::string(1, "fgab"[R(4)]) : "", false, {}};
            s.neg = !s.str.empty() && R(3) == 0;
            for (int i = 0, e = 1 + R(3); i < e; ++i) s.args.push_back(randS(depth - 1));
            return s;
        }
    }
}
Symbol mkS(S const &s) {
    switch (s.kind) {
        case 0: return Symbol::createNum(s.num);
        case 1: return Symbol::createStr(s.str.c_str());
        case 3: return Symbol::createInf();
        case 4: return Symbol::createSup();
        default: {
            SymVec v; for (auto &a : s.args) v.push_back(mkS(a));
            if (s.args.empty() && s.num == 0 && s.str != "") return Symbol::createId(s.str.c_str(), s.neg);
            if (s.str.empty()) return Symbol::createTuple(v);
            return Symbol::createFun(s.str.c_str(), v, s.neg);
        }
    }
}
int cmp(S const &a, S const &b) {
    // #inf < numbers < constants < negated constants < strings < functions < #sup; functions by sign, arity, name, arguments
    auto rank = [](S const &s) { switch (s.kind) { case 3: return 0; case 0: return 1; case 1: return 4; case 4: return 9; default: return s.args.empty() ? (s.neg ? 3 : 2) : 5; } };
    int ra = rank(a), rb = rank(b);
    if (ra != rb) return ra < rb ? -1 : 1;
    auto c3 = [](long x, long y) { return x < y ? -1 : x > y; };
    switch (ra) {
        case 1: return c3(a.num, b.num);
        case 2: case 3: case 4: { int c = strcmp(a.str.c_str(), b.str.c_str()); return c < 0 ? -1 : c > 0; }
        case 5: {
            if (a.neg != b.neg) return a.neg ? 1 : -1;
            if (a.args.size() != b.args.size()) return c3(long(a.args.size()), long(b.args.size()));
            int c = strcmp(a.str.c_str(), b.str.c_str());
            if (c) return c < 0 ? -1 : 1;
            for (size_t i = 0; i < a.args.size(); ++i) if ((c = cmp(a.args[i], b.args[i]))) return c;
            return 0;
        }
        default: return 0;
    }
}
std::string textS(S const &s) {
    switch (s.kind) {
        case 0: return std::to_string(s.num);
        case 1: { std::string r = "\""; for (char c : s.str) { if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; } else r += c; } return r + "\""; }
        case 3: return "#inf";
        case 4: return "#sup";
        default: {
            std::string r = (s.neg ? "-" : "") + s.str;
            if (s.args.empty()) return s.str.empty() ? "()" : r;
            r += "(";
            for (size_t i = 0; i < s.args.size(); ++i) r += (i ? "," : "") + textS(s.args[i]);
            return r + (s.args.size() == 1 && s.str.empty() ? ",)" : ")");
        }
    }
}
void checkS(S const &s, Symbol y) {
    std::ostringstream o; o << y;
    CHECK(o.str() == textS(s), "symbol-text", o.str() << " expected " << textS(s));
    switch (s.kind) {
        case 0: CHECK(y.type() == SymbolType::Num && y.num() == s.num && y.sign() == (s.num < 0), "symbol-num", s.num); if (s.num != -2147483647 - 1) CHECK(y.flipSign().num() == -s.num, "symbol-flip-num", s.num); break;
        case 1: CHECK(y.type() == SymbolType::Str && y.string() == s.str.c_str() && y.string().length() == s.str.size() && y.string().empty() == s.str.empty(), "symbol-str", textS(s)); CHECK(unquote(quote(s.str.c_str()).c_str()) == s.str, "symbol-quote", textS(s)); break;
        case 3: CHECK(y.type() == SymbolType::Inf, "symbol-inf", ""); break;
        case 4: CHECK(y.type() == SymbolType::Sup, "symbol-sup", ""); break;
        default: {
            CHECK(y.type() == SymbolType::Fun && y.hasSig() && y.name() == s.str.c_str() && y.sign() == s.neg && y.args().size == s.args.size() && y.arity() == s.args.size(), "symbol-fun", textS(s));
            CHECK(y.sig().match(s.str.c_str(), uint32_t(s.args.size()), s.neg) && y.sig().name() == y.name() && y.sig().sign() == s.neg, "symbol-sig", textS(s));
            S t = s; t.neg = !t.neg;
            if (!s.str.empty()) { Symbol f = y.flipSign(); CHECK(f == mkS(t) && f.flipSign() == y && f != y, "symbol-flip", textS(s)); CHECK(y.sig().flipSign() == f.sig() && y.sig() != f.sig(), "sig-flip", textS(s)); }
            for (size_t i = 0; i < s.args.size() && i < y.args().size; ++i) checkS(s.args[i], y.args()[i]);
        }
    }
}
void symbols(int n) {
    std::vector<S> pool; std::vector<Symbol> syms;
    for (int it = 0; it < n; ++it) {
        S s = randS(R(4));
        Symbol y = mkS(s);
        checkS(s, y);
        for (int k = 0; k < 20 && !pool.empty(); ++k) {
            size_t i = size_t(R(int(pool.size())));
            int c = cmp(s, pool[i]);
            Symbol z = syms[i];
            CHECK((y == z) == (c == 0) && (y != z) == (c != 0) && (y < z) == (c < 0) && (y > z) == (c > 0) && (y <= z) == (c <= 0) && (y >= z) == (c >= 0), "symbol-order", textS(s) << " " << textS(pool[i]) << " expected " << c);
            if (c == 0) CHECK(y.hash() == z.hash() && y.rep() == z.rep(), "symbol-hash", textS(s));
            if (s.kind == 2 && pool[i].kind == 2) {
                Sig a = y.sig(), b = z.sig();
                int d = s.neg != pool[i].neg ? (s.neg ? 1 : -1) : s.args.size() != pool[i].args.size() ? (s.args.size() < pool[i].args.size() ? -1 : 1) : strcmp(s.str.c_str(), pool[i].str.c_str());
                d = d < 0 ? -1 : d > 0;
                CHECK((a == b) == (d == 0) && (a != b) == (d != 0) && (a < b) == (d < 0) && (a > b) == (d > 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0), "sig-order", textS(s) << " " << textS(pool[i]));
                if (d == 0) CHECK(a.hash() == b.hash(), "sig-hash", textS(s));
            }
        }
        pool.push_back(s); syms.push_back(y);
        if (it % 500 == 0) printf("CASE symbol %s\n", textS(s).size() < 200 ? std::to_string(std::hash<std::string>()(textS(s))).c_str() : "long");
    }
    // all symbols made earlier are still what they were
    for (size_t i = 0; i < pool.size(); ++i) { CHECK(mkS(pool[i]) == syms[i], "symbol-interning", textS(pool[i])); checkS(pool[i], syms[i]); }
    // signatures with very large arities
    std::vector<std::pair<std::pair<std::string, uint32_t>, Sig>> big;
    for (int i = 0; i < 300; ++i) {
        std::string nm = "n" + std::to_string(R(60)); uint32_t ar = uint32_t(65530 + R(400)) * (R(5) ? 1 : 50);
        big.push_back({{nm, ar}, Sig(nm.c_str(), ar, i % 2 != 0)});
        for (size_t k = 0; k < big.size(); k += 1 + big.size() / 20) { auto &b = big[k]; CHECK(b.second.arity() == b.first.second && b.second.name() == b.first.first.c_str() && b.second.sign() == (k % 2 != 0) && Sig(b.first.first.c_str(), b.first.second, k % 2 != 0) == b.second, "sig-large", b.first.first << "/" << b.first.second); }
    }
}
void threads(int n) {
    // equal values built in different threads are identical, and all of them are well formed
    for (int it = 0; it < n; ++it) {
        std::vector<S> vals;
        std::string tag = "t" + std::to_string(rng() % 100000000);
        for (int i = 0; i < 40; ++i) { S s = randS(2); s.kind = 2; if (s.args.empty()) s.args.push_back(randS(1)); s.str = tag + std::to_string(i % 13); S t{1, 0, tag + "s" + std::to_string(i), false, {}}; s.args.push_back(t); vals.push_back(s); }
        int nt = 2 + R(5);
        std::vector<std::vector<Symbol>> res(size_t(nt), std::vector<Symbol>(vals.size()));
        std::vector<std::vector<Sig>> sres(size_t(nt), std::vector<Sig>(vals.size(), Sig("x", 1, false)));
        std::vector<std::thread> ts;
        std::atomic<int> ready{0};
        for (int t = 0; t < nt; ++t) {
            unsigned off = unsigned(rng());
            ts.emplace_back([&, t, off] {
                ++ready; while (ready < nt) {}
                for (size_t k = 0; k < vals.size(); ++k) {
                    size_t i = (k * 7 + off) % vals.size();
                    res[size_t(t)][i] = mkS(vals[i]);
                    sres[size_t(t)][i] = Sig(vals[i].str.c_str(), uint32_t(65536 + i), false);
                }
            });
        }
        for (auto &t : ts) t.join();
        for (size_t i = 0; i < vals.size(); ++i) {
            for (int t = 1; t < nt; ++t) { CHECK(res[size_t(t)][i] == res[0][i], "threads-identical", textS(vals[i])); CHECK(sres[size_t(t)][i] == sres[0][i] && sres[size_t(t)][i].arity() == 65536 + i, "threads-signature", i); }
            checkS(vals[i], res[0][i]);
        }
        printf("CASE threads %d %d\n", nt, it);
    }
}
// }}}
#endif
#ifdef DS_ENGINE
// {{{ integer inequalities: computed bounds against the constraints' solutions and against plain bounds propagation
struct Ctx : IEContext {
    std::vector<std::pair<IE, bool>> ies;
    std::map<std::string, IEBound> got;
    int calls = 0;
    void gatherIEs(IESolver &s) const override { for (auto &x : ies) s.add(x.first, x.second); }
    void addIEBound(VarTerm const &v, IEBound const &b) override { ++calls; if (got.count(v.name.c_str())) bad("ie-bound-twice", v.name.c_str()); got[v.name.c_str()] = b; }
};
struct Con { std::vector<std::pair<long, int>> t; long b; bool fix; };
using BD = std::map<int, std::pair<std::pair<bool, long>, std::pair<bool, long>>>;
long fdiv(long a, long b) { long q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) --q; return q; }
bool propagate(std::vector<Con> const &cs, BD &bd) { // false: no solution
    for (bool ch = true; ch;) {
        ch = false;
        for (auto &c : cs) {
            std::map<int, long> co;
            for (auto &t : c.t) if (t.second >= 0) co[t.second] += t.first;
            long bound = c.b; for (auto &t : c.t) if (t.second < 0) bound -= t.first;
            long slack = bound; int unb = 0;
            for (auto &t : co) { if (t.second == 0) continue; auto &b = bd[t.first]; auto &u = t.second > 0 ? b.second : b.first; if (u.first) slack -= t.second * u.second; else ++unb; }
            if (unb == 0 && slack > 0) return false;
            for (auto &t : co) {
                if (t.second == 0) continue;
                auto &b = bd[t.first]; auto &u = t.second > 0 ? b.second : b.first; auto &l = t.second > 0 ? b.first : b.second;
                long s = slack;
                if (unb == 0) s += t.second * u.second; else if (unb > 1 || u.first) continue;
                // coefficient * x >= s
                long v = t.second > 0 ? -fdiv(-s, t.second) : fdiv(-s, -t.second);
                if (!l.first || (t.second > 0 ? v > l.second : v < l.second)) { l = {true, v}; ch = true; }
            }
        }
    }
    return true;
}
void equations(int n) {
    Location loc("<x>", 1, 1, "<x>", 1, 1);
    for (int it = 0; it < n; ++it) {
        int nv = 1 + R(4), box = 3 + R(6);
        std::vector<std::unique_ptr<VarTerm>> vars, vars2; // equal names at two addresses
        for (int i = 0; i < nv; ++i) { std::string nm(1, char('A' + i)); vars.emplace_back(new LocatableClass<VarTerm>(loc, nm.c_str(), std::make_shared<Symbol>())); vars2.emplace_back(new LocatableClass<VarTerm>(loc, nm.c_str(), std::make_shared<Symbol>())); }
        auto mkIE = [&](Con const &c) { IE ie; ie.bound = c.b; for (auto &t : c.t) ie.terms.push_back({t.first, t.second < 0 ? nullptr : (R(2) ? vars : vars2)[size_t(t.second)].get()}); return ie; };
        auto rnd = [&](bool nested) {
            std::vector<Con> cs;
            for (int v = 0; v < nv; ++v) {
                if (!nested || R(3) == 0) {
                    if (R(7)) cs.push_back({{{1, v}}, -long(R(box + 1)), R(3) == 0});
                    if (R(7)) cs.push_back({{{-1, v}}, -long(R(box + 1)), R(3) == 0});
                }
            }
            for (int i = 0, e = R(4); i < e; ++i) {
                Con c; c.b = R(13) - 6; c.fix = R(4) == 0;
                for (int k = 0, z = 1 + R(4); k < z; ++k) c.t.push_back({R(9) - 4, R(nv + 1) - 1});
                if (R(5) == 0) c.t.push_back(c.t[0]);
                if (std::all_of(c.t.begin(), c.t.end(), [](std::pair<long, int> const &t) { return t.second < 0 || t.first == 0; })) continue; // no variables left
                std::map<int, long> co; for (auto &t : c.t) if (t.second >= 0) co[t.second] += t.first;
                if (std::any_of(co.begin(), co.end(), [](std::pair<int const, long> const &x) { return x.second == 0; })) continue; // variables that cancel out: see below
                cs.push_back(c);
            }
            std::shuffle(cs.begin(), cs.end(), rng);
            return cs;
        };
        auto text = [](std::vector<Con> const &cs) { std::string r; for (auto &c : cs) { for (auto &t : c.t) r += std::to_string(t.first) + (t.second < 0 ? "" : "*" + std::string(1, char('A' + t.second))) + "+"; r += ">=" + std::to_string(c.b) + (c.fix ? "! " : " "); } return r; };
        auto outer = rnd(false), inner = rnd(true);
        Ctx co, ci;
        for (auto &c : outer) co.ies.push_back({mkIE(c), c.fix});
        for (auto &c : inner) ci.ies.push_back({mkIE(c), c.fix});
        BD bo; bool fo = propagate(outer, bo);
        // bounds that are not finite make propagation diverge in principle: only bounded or quickly ending histories are generated
        IESolver s(co);
        s.add(ci);
        s.compute();
        std::string h = text(outer) + " inner " + text(inner);
        auto fixed = [&](std::vector<Con> const &cs, BD const *base) {
            BD f; if (base) f = *base;
            for (auto &c : cs) {
                if (!c.fix) continue;
                std::map<int, long> m; for (auto &t : c.t) if (t.second >= 0) m[t.second] += t.first;
                long bound = c.b; for (auto &t : c.t) if (t.second < 0) bound -= t.first;
                if (m.size() != 1) continue;
                auto &b = f[m.begin()->first];
                if (m.begin()->second == 1 && (!b.first.first || bound > b.first.second)) b.first = {true, bound};
                if (m.begin()->second == -1 && (!b.second.first || -bound < b.second.second)) b.second = {true, -bound};
            }
            return f;
        };
        auto verify = [&](Ctx &ctx, bool feas, BD &bd, BD &fx, std::vector<Con> const &all, char const *which) {
            // every solution within the box satisfies the reported bounds
            std::vector<int> x(static_cast<size_t>(nv), -box);
            bool any = false;
            for (;;) {
                bool ok = true;
                for (auto &c : all) { long sum = 0; for (auto &t : c.t) sum += t.second < 0 ? t.first : t.first * x[size_t(t.second)]; ok = ok && sum >= c.b; }
                if (ok) { any = true; for (auto &g : ctx.got) { int v = x[size_t(g.first[0] - 'A')]; CHECK(g.second.get(IEBound::Lower) <= v && v <= g.second.get(IEBound::Upper), std::string("ie-unsound-") + which, h << " excludes " << g.first << "=" << v); } }
                size_t i = 0; while (i < x.size() && x[i] == box) { x[i] = -box; ++i; }
                if (i == x.size()) break;
                ++x[i];
            }
            if (!feas) { CHECK(!any, "ie-model", h); return; }
            // which variables are bounded follows from the signs alone; the bounds need not be tight
            BD fin;
            if (which[0] == 'i') for (auto &b : bo) fin[b.first] = b.second;
            propagate(which[0] == 'i' ? inner : outer, fin);
            for (int v = 0; v < nv; ++v) {
                auto g = ctx.got.find(std::string(1, char('A' + v)));
                auto b = fin.find(v);
                bool finite = b != fin.end() && b->second.first.first && b->second.second.first;
                auto f = fx.find(v);
                bool isFixed = f != fx.end() && (f->second.first.first || f->second.second.first);
                if (g != ctx.got.end()) {
                    CHECK(finite, std::string("ie-unbounded-") + which, h << " bounds " << char('A' + v));
                    if (isFixed && which[0] == 'o') CHECK(f->second.first.first && f->second.second.first && (g->second.get(IEBound::Lower) > f->second.first.second || g->second.get(IEBound::Upper) < f->second.second.second), std::string("ie-not-improving-") + which, h << " variable " << char('A' + v));
                }
                else if (!isFixed && which[0] == 'o') CHECK(!finite, std::string("ie-no-bound-") + which, h << " variable " << char('A' + v));
            }
        };
        BD fx = fixed(outer, nullptr);
        verify(co, fo, bo, fx, outer, "outer");
        if (fo) {
            BD fi = bo; // the bounds computed outside are fixed inside
            BD bi = bo; bool ok = propagate(inner, bi);
            // own fixed constraints refine them
            BD f2 = fixed(inner, &fi);
            auto all = outer; all.insert(all.end(), inner.begin(), inner.end());
            verify(ci, ok, bi, f2, all, "inner");
        }
        if (it % 50 == 0) printf("CASE ie %s\n", h.c_str());
    }
    // large numbers: clamped, never wrapped around
    for (int it = 0; it < n; ++it) {
        LocatableClass<VarTerm> x(loc, "X", std::make_shared<Symbol>());
        long long c = (R(2) ? 1 : -1) * (1 + R(5)), lo = (long long)(rng() % 12000000000ULL) - 6000000000LL, hi = lo + R(1000);
        Ctx ctx;
        auto le = [&](long long k, long long b) { IE ie; ie.terms.push_back({k, &x}); ie.bound = b; ctx.ies.push_back({ie, false}); };
        le(c, lo); le(-c, -hi); // lo <= c*x <= hi
        IESolver s(ctx); s.compute();
        long long l = c > 0 ? -fdiv(-lo, c) : -fdiv(hi, -c), u = c > 0 ? fdiv(hi, c) : fdiv(-lo, -c);
        auto cl = [](long long v) { return v > 2147483647LL ? 2147483647LL : v < -2147483648LL ? -2147483648LL : v; };
        auto q = ctx.got.find("X");
        CHECK(q != ctx.got.end(), "ie-large", lo << " " << hi << " " << c);
        if (q != ctx.got.end() && cl(l) == l && cl(u) == u && l <= u) CHECK(q->second.get(IEBound::Lower) <= l && q->second.get(IEBound::Upper) >= u && cl(q->second.get(IEBound::Lower) + 2LL) >= l && cl(q->second.get(IEBound::Upper) - 2LL) <= u, "ie-large", lo << "<=" << c << "*X<=" << hi << " gives " << q->second.get(IEBound::Lower) << ".." << q->second.get(IEBound::Upper));
    }
}
// }}}
#endif
} // namespace

int main(int argc, char **argv) {
    std::string sec = argc > 1 ? argv[1] : "";
    rng.seed(argc > 2 ? strtoull(argv[2], nullptr, 10) * 1000003ULL + 17 : 1);
    int n = argc > 3 ? atoi(argv[3]) : 100;
    if (sec == "intervals") intervals(n);
    else if (sec == "graph") graphs(n);
    else if (sec == "indexed") indexed(n);
    else if (sec == "safety") safety(n);
    else if (sec == "arrayset") { arraySet<std::hash<int>>(n); arraySet<BadHash>(n); }
    else if (sec == "hashes") hashes(n);
    else if (sec == "owner") owner(n);
    else if (sec == "helpers") helpers(n);
#ifdef DS_SYMBOLS
    else if (sec == "symbols") symbols(n);
    else if (sec == "threads") threads(n);
#endif
#ifdef DS_ENGINE
    else if (sec == "equations") equations(n);
#endif
    else return 2;
    printf("events %ld\n", events);
    fflush(stdout);
    return bads ? 1 : 0;
}
