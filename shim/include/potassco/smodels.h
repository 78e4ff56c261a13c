// Stand-in: the smodels output format is not supported by this build of the engine.
#pragma once
#include <potassco/basic_types.h>
namespace Potassco {
class SmodelsOutput : public AbstractProgram {
  public:
    SmodelsOutput() {}
    SmodelsOutput(std::ostream &, bool, Atom_t) {}
    void initProgram(bool) override { no(); }
    void beginStep() override { no(); }
    void rule(Head_t, const AtomSpan &, const LitSpan &) override { no(); }
    void rule(Head_t, const AtomSpan &, Weight_t, const WeightLitSpan &) override { no(); }
    void minimize(Weight_t, const WeightLitSpan &) override { no(); }
    void output(const StringSpan &, const LitSpan &) override { no(); }
    void endStep() override { no(); }
  private:
    void no() { throw std::logic_error("smodels format not supported by the stand-in"); }
};
class SmodelsConvert : public SmodelsOutput {
  public:
    SmodelsConvert(AbstractProgram &, bool) : SmodelsOutput() {}
};
} // namespace Potassco
