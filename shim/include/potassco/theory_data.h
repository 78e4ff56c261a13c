// Stand-in for libpotassco's theory_data.h.
#pragma once
#include <potassco/basic_types.h>
#include <memory>
#include <string>
#include <vector>
namespace Potassco {
class TheoryTerm {
  public:
    typedef Id_t const *iterator;
    typedef Id_t const *const_iterator;
    TheoryTerm() = default;
    bool valid() const { return valid_; }
    Theory_t type() const { return type_; }
    int number() const { need(Theory_t::Number); return num_; }
    char const *symbol() const { need(Theory_t::Symbol); return str_.c_str(); }
    int compound() const { need(Theory_t::Compound); return num_; }
    bool isFunction() const { return type_ == Theory_t(Theory_t::Compound) && num_ >= 0; }
    Id_t function() const { if (!isFunction()) { throw std::logic_error("Term is not a function"); } return static_cast<Id_t>(num_); }
    bool isTuple() const { return type_ == Theory_t(Theory_t::Compound) && num_ < 0; }
    Tuple_t tuple() const { if (!isTuple()) { throw std::logic_error("Term is not a tuple"); } return Tuple_t(num_); }
    uint32_t size() const { return static_cast<uint32_t>(args_.size()); }
    iterator begin() const { return args_.data(); }
    iterator end() const { return args_.data() + args_.size(); }
    IdSpan terms() const { return toSpan(args_); }
  private:
    friend class TheoryData;
    void need(Theory_t::E t) const { if (!valid_ || type_ != Theory_t(t)) { throw std::logic_error("Invalid term cast"); } }
    Theory_t type_;
    bool valid_ = false;
    int num_ = 0;
    std::string str_;
    std::vector<Id_t> args_;
};
class TheoryElement {
  public:
    typedef Id_t const *iterator;
    typedef Id_t const *const_iterator;
    uint32_t size() const { return static_cast<uint32_t>(terms_.size()); }
    iterator begin() const { return terms_.data(); }
    iterator end() const { return terms_.data() + terms_.size(); }
    IdSpan terms() const { return toSpan(terms_); }
    Id_t condition() const { return cond_; }
  private:
    friend class TheoryData;
    std::vector<Id_t> terms_;
    Id_t cond_ = 0;
};
class TheoryAtom {
  public:
    typedef Id_t const *iterator;
    typedef Id_t const *const_iterator;
    Id_t atom() const { return atom_; }
    Id_t term() const { return term_; }
    uint32_t size() const { return static_cast<uint32_t>(elems_.size()); }
    iterator begin() const { return elems_.data(); }
    iterator end() const { return elems_.data() + elems_.size(); }
    IdSpan elements() const { return toSpan(elems_); }
    Id_t const *guard() const { return guarded_ ? &guard_ : nullptr; }
    Id_t const *rhs() const { return guarded_ ? &rhs_ : nullptr; }
  private:
    friend class TheoryData;
    Id_t atom_ = 0, term_ = 0;
    std::vector<Id_t> elems_;
    bool guarded_ = false;
    Id_t guard_ = 0, rhs_ = 0;
};
class TheoryData {
  public:
    typedef TheoryTerm Term;
    typedef TheoryElement Element;
    typedef TheoryAtom const *const *atom_iterator;
    static const Id_t COND_DEFERRED = static_cast<Id_t>(-1);
    TheoryData() = default;
    TheoryData(TheoryData const &) = delete;
    TheoryData &operator=(TheoryData const &) = delete;
    ~TheoryData() { reset(); }
    TheoryTerm const &addTerm(Id_t id, int number) {
        auto &t = newTerm(id); t.type_ = Theory_t::Number; t.num_ = number; return t;
    }
    TheoryTerm const &addTerm(Id_t id, StringSpan const &name) {
        auto &t = newTerm(id); t.type_ = Theory_t::Symbol; t.str_.assign(name.first, name.size); return t;
    }
    TheoryTerm const &addTerm(Id_t id, char const *name) { return addTerm(id, toSpan(name)); }
    TheoryTerm const &addTerm(Id_t id, Id_t funcSym, IdSpan const &args) {
        auto &t = newTerm(id); t.type_ = Theory_t::Compound; t.num_ = static_cast<int>(funcSym);
        t.args_.assign(Potassco::begin(args), Potassco::end(args)); return t;
    }
    TheoryTerm const &addTerm(Id_t id, Tuple_t type, IdSpan const &args) {
        auto &t = newTerm(id); t.type_ = Theory_t::Compound; t.num_ = static_cast<int>(type);
        t.args_.assign(Potassco::begin(args), Potassco::end(args)); return t;
    }
    void removeTerm(Id_t id) { if (hasTerm(id)) { terms_[id].reset(); } }
    TheoryElement const &addElement(Id_t id, IdSpan const &terms, Id_t cId = 0) {
        if (id >= elems_.size()) { elems_.resize(id + 1); }
        if (elems_[id] && isNewElement(id) == false) { throw std::logic_error("Redefinition of theory element"); }
        if (elems_[id]) { throw std::logic_error("Redefinition of theory element"); }
        elems_[id].reset(new TheoryElement());
        elems_[id]->terms_.assign(Potassco::begin(terms), Potassco::end(terms));
        elems_[id]->cond_ = cId;
        return *elems_[id];
    }
    TheoryAtom const &addAtom(Id_t atomOrZero, Id_t termId, IdSpan const &elements) {
        auto *a = new TheoryAtom(); a->atom_ = atomOrZero; a->term_ = termId;
        a->elems_.assign(Potassco::begin(elements), Potassco::end(elements));
        atoms_.push_back(a); return *a;
    }
    TheoryAtom const &addAtom(Id_t atomOrZero, Id_t termId, IdSpan const &elements, Id_t op, Id_t rhs) {
        auto &a = const_cast<TheoryAtom &>(addAtom(atomOrZero, termId, elements));
        a.guarded_ = true; a.guard_ = op; a.rhs_ = rhs; return a;
    }
    void setCondition(Id_t elementId, Id_t newCond) {
        if (getElement(elementId).condition() != COND_DEFERRED) { throw std::logic_error("condition already set"); }
        elems_[elementId]->cond_ = newCond;
    }
    void reset() {
        for (auto *a : atoms_) { delete a; }
        atoms_.clear(); terms_.clear(); elems_.clear(); tB_ = eB_ = aB_ = 0;
    }
    void resizeAtoms(uint32_t n) {
        while (atoms_.size() > n) { delete atoms_.back(); atoms_.pop_back(); }
    }
    void update() { tB_ = static_cast<uint32_t>(terms_.size()); eB_ = static_cast<uint32_t>(elems_.size()); aB_ = static_cast<uint32_t>(atoms_.size()); }
    uint32_t numAtoms() const { return static_cast<uint32_t>(atoms_.size()); }
    bool empty() const { return atoms_.empty(); }
    atom_iterator begin() const { return const_cast<TheoryAtom const *const *>(atoms_.data()); }
    atom_iterator currBegin() const { return begin() + aB_; }
    atom_iterator end() const { return begin() + atoms_.size(); }
    bool hasTerm(Id_t id) const { return id < terms_.size() && terms_[id] != nullptr; }
    bool isNewTerm(Id_t id) const { return hasTerm(id) && id >= tB_; }
    bool hasElement(Id_t id) const { return id < elems_.size() && elems_[id] != nullptr; }
    bool isNewElement(Id_t id) const { return hasElement(id) && id >= eB_; }
    TheoryTerm const &getTerm(Id_t id) const {
        if (!hasTerm(id)) { throw std::logic_error("Unknown term '" + std::to_string(id) + "'"); }
        return *terms_[id];
    }
    TheoryElement const &getElement(Id_t id) const {
        if (!hasElement(id)) { throw std::logic_error("Unknown element '" + std::to_string(id) + "'"); }
        return *elems_[id];
    }
    enum VisitMode { visit_all, visit_current };
    class Visitor {
      public:
        virtual ~Visitor() {}
        virtual void visit(TheoryData const &data, Id_t termId, TheoryTerm const &t) = 0;
        virtual void visit(TheoryData const &data, Id_t elemId, TheoryElement const &e) = 0;
        virtual void visit(TheoryData const &data, TheoryAtom const &a) = 0;
    };
    void accept(Visitor &out, VisitMode m = visit_all) const {
        for (atom_iterator it = m == visit_all ? begin() : currBegin(), e = end(); it != e; ++it) { out.visit(*this, **it); }
    }
    void accept(TheoryTerm const &t, Visitor &out, VisitMode m = visit_all) const {
        if (t.type() == Theory_t(Theory_t::Compound)) {
            for (auto id : t.args_) { if (doVisitTerm(m, id)) { out.visit(*this, id, getTerm(id)); } }
            if (t.isFunction() && doVisitTerm(m, t.function())) { out.visit(*this, t.function(), getTerm(t.function())); }
        }
    }
    void accept(TheoryElement const &e, Visitor &out, VisitMode m = visit_all) const {
        for (auto id : e.terms_) { if (doVisitTerm(m, id)) { out.visit(*this, id, getTerm(id)); } }
    }
    void accept(TheoryAtom const &a, Visitor &out, VisitMode m = visit_all) const {
        if (doVisitTerm(m, a.term())) { out.visit(*this, a.term(), getTerm(a.term())); }
        for (auto id : a.elems_) { if (doVisitElem(m, id)) { out.visit(*this, id, getElement(id)); } }
        if (a.guard() && doVisitTerm(m, *a.guard())) { out.visit(*this, *a.guard(), getTerm(*a.guard())); }
        if (a.rhs() && doVisitTerm(m, *a.rhs())) { out.visit(*this, *a.rhs(), getTerm(*a.rhs())); }
    }
    template <class F> void filter(F const &f) {
        std::vector<TheoryAtom *> keep(atoms_.begin(), atoms_.begin() + aB_);
        for (auto it = atoms_.begin() + aB_; it != atoms_.end(); ++it) {
            if ((*it)->atom() && f(**it)) { delete *it; } else { keep.push_back(*it); }
        }
        atoms_.swap(keep);
    }
  private:
    bool doVisitTerm(VisitMode m, Id_t id) const { return m == visit_all || isNewTerm(id); }
    bool doVisitElem(VisitMode m, Id_t id) const { return m == visit_all || isNewElement(id); }
    TheoryTerm &newTerm(Id_t id) {
        if (id >= terms_.size()) { terms_.resize(id + 1); }
        if (terms_[id]) {
            if (!isNewTerm(id)) { throw std::logic_error("Redefinition of theory term '" + std::to_string(id) + "'"); }
        }
        terms_[id].reset(new TheoryTerm());
        terms_[id]->valid_ = true;
        return *terms_[id];
    }
    std::vector<std::unique_ptr<TheoryTerm>> terms_;
    std::vector<std::unique_ptr<TheoryElement>> elems_;
    std::vector<TheoryAtom *> atoms_;
    uint32_t tB_ = 0, eB_ = 0, aB_ = 0;
};
} // namespace Potassco
