// C03: output (and input) values follow the default / lock-previous / lock-range / enabled rules over every history.
#include "common.h"
using namespace ref;
namespace {
double g_next = NaN;
struct Chosen : fuzzylite::Defuzzifier {   // environment: the defuzzifier's answer is decided by the explorer
    std::string className() const override { return "Chosen"; }
    Defuzzifier* clone() const override { return new Chosen(*this); }
    fuzzylite::scalar defuzzify(const fuzzylite::Term*, fuzzylite::scalar, fuzzylite::scalar) const override { return g_next; }
};
struct M { double v = NaN, p = NaN, def = NaN, lo = -1, hi = 1; bool lockP = false, lockR = false, on = true;
    // what the documentation promises for lock-previous: the value of the last cycle
    bool cycled = false; };
void set(M& m, double x) { m.v = m.lockR ? bound(x, m.lo, m.hi) : x; }
}
static std::string ms(const M& m) { return vf::cat("v=", m.v, " p=", m.p, " def=", m.def, " range=[", m.lo, ",", m.hi, "] lockPrev=", m.lockP, " lockRange=", m.lockR, " enabled=", m.on); }

// one operation on the model and on the real variable
static std::string apply(vf::Ctx& c, int op, M& m, fuzzylite::OutputVariable* o, fuzzylite::Engine* e, std::string& documented) {
    static const DV RES = {0.5, NaN, 7, -3, INF, -INF, -0.25};
    if (op < 7) {
        g_next = RES[(size_t) op];
        double before = m.v;
        if (m.on) {
            double y = g_next; if (nan_(y) && m.lockP) y = m.p; if (nan_(y)) y = m.def;
            // documented: with lock-previous, the value of the previous cycle is kept
            if (nan_(g_next) && m.lockP && !nan_(before) && fin_(before)) {
                double want = m.lockR ? bound(before, m.lo, m.hi) : before;
                double got = m.lockR ? bound(y, m.lo, m.hi) : y;
                if (!vf::near(want, got)) documented = vf::cat("the output was ", before, ", the next cycle activated nothing, lock-previous is on, and the output became ", got, " instead of keeping ", want);
            }
            m.p = m.v; set(m, y);
        }
        if (e) e->process(); else o->defuzzify();
        return vf::cat("defuzzify->", g_next);
    }
    switch (op) {
        case 7: m.on = !m.on; o->setEnabled(m.on); return "toggle enabled";
        case 8: m.lockP = !m.lockP; o->setLockPreviousValue(m.lockP); return "toggle lock-previous";
        case 9: m.lockR = !m.lockR; o->setLockValueInRange(m.lockR); return "toggle lock-range";
        case 10: m.def = nan_(m.def) ? 0.75 : m.def == 0.75 ? 9 : m.def == 9 ? -INF : NaN; o->setDefaultValue(m.def); return "next default";
        case 11: m.v = m.p = NaN; if (e) e->restart(); else o->clear(); return "restart";
        case 12: set(m, 2.5); o->setValue(2.5); return "setValue 2.5";
        case 13: if (m.hi == 1) { m.lo = -4; m.hi = 4; } else { m.lo = -1; m.hi = 1; } o->setRange(m.lo, m.hi); return "change range";
        case 14: m.p = -2; o->setPreviousValue(-2); return "setPrevious -2";
    }
    return "";
}
static void history(vf::Ctx& c, bool inEngine, int depth) {
    M m; fuzzylite::Engine* e = 0; fuzzylite::OutputVariable* o;
    if (inEngine) {
        ref::Engine s; s.name = "e"; s.in = {inVar("a", 0, 1, {T("Ramp", "t", {0, 1})})}; s.out = {outVar("x", -1, 1, {T("Triangle", "t", {-1, 0, 1})})};
        ref::Block b; b.name = "b"; b.impl = "Minimum"; b.rules = {R(P(0, 0), {C(0, 0)})}; s.blocks = {b};
        e = bld::engine(s); e->getInputVariable(0)->setValue(0.5); o = e->getOutputVariable(0);
    } else o = new fuzzylite::OutputVariable("x", -1, 1);
    o->setDefuzzifier(new Chosen);
    std::unique_ptr<fuzzylite::Engine> ge(e); std::unique_ptr<fuzzylite::OutputVariable> go(inEngine ? 0 : o);
    std::string log;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(15); if (d == 1) c.begin();
        std::string doc;
        log += apply(c, op, m, o, e, doc) + "; "; c.step();
        c.checks(4);
        if (!vf::near(o->getValue(), m.v) || !vf::near(o->getPreviousValue(), m.p)) { c.fail(inEngine ? "engine-output-state" : "output-state", "after " + log + " expected " + ms(m) + " but value=" + vf::num(o->getValue()) + " previous=" + vf::num(o->getPreviousValue())); return; }
        if (o->isEnabled() != m.on || o->isLockPreviousValue() != m.lockP || o->isLockValueInRange() != m.lockR || !vf::near(o->getDefaultValue(), m.def) || o->getMinimum() != m.lo || o->getMaximum() != m.hi) { c.fail("output-properties", "after " + log + " the properties changed: " + ms(m)); return; }
        if (m.lockR && op < 7 && m.on && !nan_(m.v) && (m.v < m.lo || m.v > m.hi)) { c.fail("range-not-locked", log); return; }
        if (!doc.empty()) c.fail("lock-previous-lags-a-cycle", "after " + log + doc);
        std::string st = ms(m); c.state(st);
        if (c.seen(vf::hashStr(st, inEngine ? 3 : 5), depth - 1 - d)) { c.describe([&] { return log; }); c.prune(); }
    }
    c.describe([&] { return log + " => " + ms(m); });
}
VF_SUITE(variable) { history(c, false, c.thorough ? 8 : 6); }
VF_SUITE(engine) { history(c, true, c.thorough ? 7 : 5); }

// Input variables: value kept as given, or bounded into the range when locked; never altered by processing
VF_SUITE(inputs) {
    static const DV V = {0.5, NaN, 7, -3, INF, -INF, -1, 1};
    ref::Engine s; s.name = "e"; s.in = {inVar("a", -1, 1, {T("Ramp", "t", {0, 1})})}; s.out = {outVar("x", -1, 1, {T("Triangle", "t", {-1, 0, 1})})};
    ref::Block b; b.name = "b"; b.impl = "Minimum"; b.rules = {R(P(0, 0), {C(0, 0)})}; s.blocks = {b};
    Guard e(bld::engine(s)); fuzzylite::InputVariable* a = e->getInputVariable(0);
    double v = NaN, lo = -1, hi = 1; bool lock = false, on = true; std::string log;
    int depth = c.thorough ? 6 : 4;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(13); if (d == 1) c.begin();
        if (op < 8) { v = lock ? bound(V[(size_t) op], lo, hi) : V[(size_t) op]; a->setValue(V[(size_t) op]); log += "set " + vf::num(V[(size_t) op]) + "; "; }
        else if (op == 8) { lock = !lock; a->setLockValueInRange(lock); log += "toggle lock; "; }
        else if (op == 9) { e->process(); log += "process; "; }
        else if (op == 10) { e->restart(); v = NaN; log += "restart; "; }
        else if (op == 11) { on = !on; a->setEnabled(on); log += "toggle enabled; "; }
        else { if (hi == 1) { lo = 0; hi = 0.25; } else { lo = -1; hi = 1; } a->setRange(lo, hi); log += "range; "; }
        c.step();
        c.expect(vf::near(a->getValue(), v) && a->isEnabled() == on && a->isLockValueInRange() == lock && a->getMinimum() == lo && a->getMaximum() == hi, "input-state", [&] { return "after " + log + "input is " + vf::num(a->getValue()) + ", expected " + vf::num(v); });
        c.state(vf::cat(v, lock, hi, on));
    }
    c.describe([&] { return log; });
}
// The values without any mock: rules that fire or not, every defuzzifier, every combination of the properties
VF_SUITE(real) {
    std::string d = c.pick(NAMES(DEFUZZIFIERS)); bool lockP = c.flip(), lockR = c.flip(); double def = c.pick(DV{NaN, 0.25, 5, INF, -INF}); int len = c.thorough ? 6 : 5;
    bool weighted = d == "WeightedAverage" || d == "WeightedSum";
    ref::Engine s; s.name = "e"; s.in = {inVar("a", 0, 1, {T("Rectangle", "lo", {0, 0.25}), T("Ramp", "hi", {0.5, 1})})};
    s.out = {outVar("x", 0, 1, weighted ? std::vector<ref::Term>{T("Constant", "p", {0.2}), T("Constant", "q", {3})} : std::vector<ref::Term>{T("Triangle", "p", {0, 0.2, 0.4}), T("Ramp", "q", {0.5, 1})}, "Maximum", d, 20)};
    s.out[0].def = def; s.out[0].lockPrev = lockP; s.out[0].lockRange = lockR;
    ref::Block b; b.name = "b"; b.impl = "Minimum"; b.rules = {R(P(0, 0), {C(0, 0)}), R(P(0, 1), {C(0, 1)})}; s.blocks = {b};
    static const DV IN = {0.1, 0.4, 0.9, NaN};
    Guard e(bld::engine(s)); ref::State st = initial(s); std::string log;
    for (int i = 0; i < len; ++i) {
        int k = c.choose(5); if (i == 1) c.begin();
        if (k == 4) { e->restart(); st = initial(s); log += "restart "; }
        else { e->getInputVariable(0)->setValue(IN[(size_t) k]); st.in[0] = IN[(size_t) k]; e->process(); process(s, st); log += vf::num(IN[(size_t) k]) + " "; }
        c.step();
        std::string diff = compareState(e.e, s, st, c);
        if (k == 4) diff = vf::near(e->getOutputVariable(0)->getValue(), NaN) && vf::near(e->getOutputVariable(0)->getPreviousValue(), NaN) && e->getOutputVariable(0)->fuzzyOutput()->isEmpty() ? "" : "restart did not clear the output";
        if (!diff.empty()) { c.fail("real-" + d, "history " + log + ": " + diff + "\n" + e->toString()); return; }
        c.state(vf::cat(d, lockP, lockR, def, st.out[0], "/", st.prev[0]));
    }
    c.describe([&] { return d + " history " + log; });
}
