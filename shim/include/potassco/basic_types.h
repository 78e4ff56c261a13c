// Stand-in for libpotassco's basic_types.h (the submodule is not available offline).
// Same interface and behaviour as far as the clingo sources use it.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace Potassco {
typedef uint32_t Id_t;
typedef uint32_t Atom_t;
typedef int32_t Lit_t;
typedef int32_t Weight_t;
enum { idMax = UINT32_MAX, atomMin = 1, atomMax = INT32_MAX };

template <class T> struct Span {
    typedef T value_type;
    typedef T const *iterator;
    typedef T const *const_iterator;
    typedef T const &reference;
    typedef T const &const_reference;
    typedef std::size_t size_type;
    reference operator[](std::size_t pos) const { return first[pos]; }
    reference at(std::size_t pos) const {
        if (pos >= size) { throw std::out_of_range("Span::at"); }
        return first[pos];
    }
    T const *first;
    std::size_t size;
};
template <class T> inline T const *begin(Span<T> const &s) { return s.first; }
template <class T> inline T const *end(Span<T> const &s) { return s.first + s.size; }
template <class T> inline std::size_t size(Span<T> const &s) { return s.size; }
template <class T> inline bool empty(Span<T> const &s) { return s.size == 0; }
template <class T> inline T const &at(Span<T> const &s, std::size_t p) { return s.at(p); }
template <class T> inline Span<T> toSpan(T const *x, std::size_t s) { return Span<T>{x, s}; }
inline Span<char> toSpan(char const *x) { return Span<char>{x, std::strlen(x)}; }
template <class T> inline Span<T> toSpan() { return Span<T>{nullptr, 0}; }
template <class C> inline Span<typename C::value_type> toSpan(C const &c) {
    return !c.empty() ? Span<typename C::value_type>{&c[0], c.size()} : Span<typename C::value_type>{nullptr, 0};
}

struct WeightLit_t {
    Lit_t lit;
    Weight_t weight;
};
typedef Span<Id_t> IdSpan;
typedef Span<Atom_t> AtomSpan;
typedef Span<Lit_t> LitSpan;
typedef Span<WeightLit_t> WeightLitSpan;
typedef Span<char> StringSpan;
typedef std::vector<Lit_t> LitVec;

#define POTASSCO_SHIM_ENUM_(T, DEF, ...)                                                                               \
    struct T {                                                                                                         \
        enum E { __VA_ARGS__ };                                                                                        \
        T(E x = DEF) : val_(x) {}                                                                                      \
        explicit T(unsigned x) : val_(x) {}                                                                            \
        explicit T(int x) : val_(static_cast<unsigned>(x)) {}                                                          \
        operator unsigned() const { return val_; }                                                                     \
        unsigned val_;                                                                                                 \
    }
POTASSCO_SHIM_ENUM_(Head_t, Disjunctive, Disjunctive = 0, Choice = 1, eMin = 0, eMax = 1);
POTASSCO_SHIM_ENUM_(Body_t, Normal, Normal = 0, Sum = 1, Count = 2, eMin = 0, eMax = 2);
POTASSCO_SHIM_ENUM_(Value_t, Free, Free = 0, True = 1, False = 2, Release = 3, eMin = 0, eMax = 3);
POTASSCO_SHIM_ENUM_(Heuristic_t, Level, Level = 0, Sign = 1, Factor = 2, Init = 3, True = 4, False = 5, eMin = 0,
                    eMax = 5);
POTASSCO_SHIM_ENUM_(Directive_t, End, End = 0, Rule = 1, Minimize = 2, Project = 3, Output = 4, External = 5,
                    Assume = 6, Heuristic = 7, Edge = 8, Theory = 9, Comment = 10, eMin = 0, eMax = 10);
POTASSCO_SHIM_ENUM_(Theory_t, Number, Number = 0, Symbol = 1, Compound = 2, Reserved = 3, Element = 4, Atom = 5,
                    AtomWithGuard = 6, eMin = 0, eMax = 6);
struct Tuple_t {
    enum E { Bracket = -3, Brace = -2, Paren = -1, eMin = -3, eMax = -1 };
    Tuple_t(E x = Paren) : val_(x) {}
    explicit Tuple_t(int x) : val_(x) {}
    operator int() const { return val_; }
    int val_;
};
inline char const *toString(Tuple_t t) {
    switch (static_cast<int>(t)) {
        case Tuple_t::Bracket: return "[]";
        case Tuple_t::Brace: return "{}";
        default: return "()";
    }
}
inline char const *toString(Heuristic_t t) {
    static char const *const names[] = {"level", "sign", "factor", "init", "true", "false"};
    return static_cast<unsigned>(t) < 6 ? names[static_cast<unsigned>(t)] : "";
}
inline Atom_t atom(Lit_t lit) { return static_cast<Atom_t>(lit >= 0 ? lit : -lit); }
inline Atom_t atom(WeightLit_t const &w) { return atom(w.lit); }
inline Lit_t neg(Atom_t a) { return -static_cast<Lit_t>(a); }
inline Lit_t neg(Lit_t lit) { return -lit; }
inline Lit_t lit(Atom_t a) { return static_cast<Lit_t>(a); }
inline Lit_t lit(Lit_t lit) { return lit; }
inline Lit_t lit(WeightLit_t const &w) { return w.lit; }
inline Weight_t weight(Atom_t) { return 1; }
inline Weight_t weight(Lit_t) { return 1; }
inline Weight_t weight(WeightLit_t const &w) { return w.weight; }
inline Id_t id(Lit_t lit) { return static_cast<Id_t>(lit); }
inline bool operator==(WeightLit_t const &a, WeightLit_t const &b) { return a.lit == b.lit && a.weight == b.weight; }
inline bool operator!=(WeightLit_t const &a, WeightLit_t const &b) { return !(a == b); }
inline bool operator<(WeightLit_t const &a, WeightLit_t const &b) {
    return a.lit != b.lit ? a.lit < b.lit : a.weight < b.weight;
}
inline bool operator==(Lit_t l, WeightLit_t const &w) { return l == w.lit && w.weight == 1; }
inline bool operator==(WeightLit_t const &w, Lit_t l) { return l == w; }

class AbstractProgram {
  public:
    virtual ~AbstractProgram() {}
    virtual void initProgram(bool incremental) = 0;
    virtual void beginStep() = 0;
    virtual void rule(Head_t ht, const AtomSpan &head, const LitSpan &body) = 0;
    virtual void rule(Head_t ht, const AtomSpan &head, Weight_t bound, const WeightLitSpan &body) = 0;
    virtual void minimize(Weight_t prio, const WeightLitSpan &lits) = 0;
    virtual void project(const AtomSpan &) { throw std::logic_error("projection directive not supported"); }
    virtual void output(const StringSpan &str, const LitSpan &condition) = 0;
    virtual void external(Atom_t, Value_t) { throw std::logic_error("external directive not supported"); }
    virtual void assume(const LitSpan &) { throw std::logic_error("assumption directive not supported"); }
    virtual void heuristic(Atom_t, Heuristic_t, int, unsigned, const LitSpan &) {
        throw std::logic_error("heuristic directive not supported");
    }
    virtual void acycEdge(int, int, const LitSpan &) { throw std::logic_error("edge directive not supported"); }
    virtual void theoryTerm(Id_t, int) { throw std::logic_error("theory data not supported"); }
    virtual void theoryTerm(Id_t, const StringSpan &) { throw std::logic_error("theory data not supported"); }
    virtual void theoryTerm(Id_t, int, const IdSpan &) { throw std::logic_error("theory data not supported"); }
    virtual void theoryElement(Id_t, const IdSpan &, const LitSpan &) {
        throw std::logic_error("theory data not supported");
    }
    virtual void theoryAtom(Id_t, Id_t, const IdSpan &) { throw std::logic_error("theory data not supported"); }
    virtual void theoryAtom(Id_t, Id_t, const IdSpan &, Id_t, Id_t) {
        throw std::logic_error("theory data not supported");
    }
    virtual void endStep() = 0;
};

template <class M> class BufferBase_;
} // namespace Potassco
