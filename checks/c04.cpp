// C04: whatever happened before, an engine computes what a freshly built engine with the same settings computes.
#include "ops.h"
using namespace ref;
static void history(vf::Ctx& c, int fam, int depth, bool cache) {
    Sys y; y.init(ops::family(fam)); std::string log, err;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(ops::N); if (d == 1) c.begin();
        log += ops::apply(y, op, err) + "; "; c.step();
        std::string df = err.empty() ? ops::diff(y, c) : err;
        if (!df.empty()) { c.fail(vf::cat("history-family", fam), "after " + log + " " + df + "\n" + y.e->toString()); return; }
        c.state(ops::hash(y));
        if (y.st.ambiguous) c.prune();
        if (cache && c.seen(vf::mix(ops::hash(y), (uint64_t) fam), depth - 1 - d)) c.prune();
    }
    // the same settings in a new engine, and the same inputs: the same results and the same textual description
    Sys f; f.init(y.s); f.st.prev = y.st.prev; f.st.out = y.st.out;
    for (size_t o = 0; o < y.s.out.size(); ++o) { bool l = f.s.out[o].lockRange; fuzzylite::OutputVariable* v = f.e->getOutputVariable(o); v->setLockValueInRange(false); v->setValue(y.e->getOutputVariable(o)->getValue()); v->setPreviousValue(y.e->getOutputVariable(o)->getPreviousValue()); v->setLockValueInRange(l); }
    for (const DV& in : {DV{0.35, 0.8}, DV{0.6, 0.05}}) {
        ops::setInputs(y, in); ops::setInputs(f, in);
        y.e->process(); f.e->process(); c.step(2);
        for (size_t o = 0; o < y.s.out.size(); ++o) {
            double a = y.e->getOutputVariable(o)->getValue(), b = f.e->getOutputVariable(o)->getValue();
            c.expect(vf::near(a, b, 1e-12) && vf::near(y.e->getOutputVariable(o)->getPreviousValue(), f.e->getOutputVariable(o)->getPreviousValue(), 1e-12), "differs-from-fresh-engine", [&] { return "after " + log + " output " + vf::cat(o, " is ", a, " but a fresh engine computes ", b) + "\n" + y.e->toString(); });
        }
        for (size_t b = 0; b < y.s.blocks.size(); ++b) for (size_t r = 0; r < y.s.blocks[b].rules.size(); ++r)
            c.expect(!y.s.blocks[b].enabled || vf::near(y.e->getRuleBlock(b)->getRule(r)->getActivationDegree(), f.e->getRuleBlock(b)->getRule(r)->getActivationDegree(), 1e-12), "degree-differs-from-fresh-engine", [&] { return log; });
    }
    c.describe([&] { return log; });
}
VF_SUITE(mamdani) { history(c, 0, c.thorough ? 5 : 4, true); }
VF_SUITE(takagi_sugeno) { history(c, 1, c.thorough ? 5 : 4, true); }
VF_SUITE(tsukamoto) { history(c, 2, c.thorough ? 5 : 4, true); }

// Every activation method with the operations that can leave something of one cycle in the bookkeeping of the rules
VF_SUITE(methods) {
    int k = c.choose(7); int fam = c.choose(2); ref::Engine s = ops::family(fam); std::string log, err;
    for (auto& b : s.blocks) { b.act = ACTIVATIONS[(size_t) k]; b.n = 1; b.thr = 0.15; b.cmp = ">"; }
    log = s.blocks[0].act + ": ";
    Sys y; y.init(s); static const int OPS[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 15, 17}; int depth = c.thorough ? 6 : 4;
    for (int d = 0; d < depth; ++d) {
        int op = c.pick(OPS); if (d == 1) c.begin();
        log += ops::apply(y, op, err) + "; "; c.step();
        std::string df = err.empty() ? ops::diff(y, c) : err;
        if (!df.empty()) { c.fail("method-history", "after " + log + " " + df + "\n" + y.e->toString()); return; }
        c.state(ops::hash(y));
        if (y.st.ambiguous) c.prune();
        if (c.seen(vf::mix(ops::hash(y), (uint64_t) (k * 10 + fam)), depth - 1 - d)) c.prune();
    }
    c.describe([&] { return log; });
}
// Restarting brings back the initial observable state: everything computed afterwards equals what a new engine computes.
VF_SUITE(restart) {
    int fam = c.choose(3); Sys y; y.init(ops::family(fam)); Sys f; f.init(ops::family(fam)); std::string log;
    int n = c.thorough ? 4 : 3, m = 3;
    for (int i = 0; i < n; ++i) { int k = c.choose(4); if (i == 0) c.begin(); std::string err; log += ops::apply(y, k, err) + "; "; c.step(); }
    y.e->restart(); log += "restart; ";
    for (size_t i = 0; i < y.s.in.size(); ++i) c.expect(nan_(y.e->getInputVariable(i)->getValue()), "restart-input", [&] { return log; });
    for (size_t o = 0; o < y.s.out.size(); ++o) c.expect(nan_(y.e->getOutputVariable(o)->getValue()) && nan_(y.e->getOutputVariable(o)->getPreviousValue()) && y.e->getOutputVariable(o)->fuzzyOutput()->isEmpty(), "restart-output", [&] { return log; });
    for (int i = 0; i < m; ++i) {
        int k = c.choose(4); std::string err; log += ops::apply(f, k, err) + "; "; c.step(2);
        for (size_t v = 0; v < f.s.in.size(); ++v) y.e->getInputVariable(v)->setValue(ops::INPUTS[(size_t) k][v]);
        y.e->process();
        std::string a = y.e->toString();
        for (size_t o = 0; o < f.s.out.size(); ++o) c.expect(vf::near(y.e->getOutputVariable(o)->getValue(), f.e->getOutputVariable(o)->getValue(), 1e-12) && vf::near(y.e->getOutputVariable(o)->getPreviousValue(), f.e->getOutputVariable(o)->getPreviousValue(), 1e-12) && y.e->getOutputVariable(o)->fuzzyOutputValue() == f.e->getOutputVariable(o)->fuzzyOutputValue(), "restart-not-fresh", [&] { return log + vf::cat(" output ", o, ": ", y.e->getOutputVariable(o)->getValue(), " vs fresh ", f.e->getOutputVariable(o)->getValue()); });
        c.state(ops::hash(f));
    }
    c.describe([&] { return log; });
}
// Processing twice the same inputs gives the same outputs (no output feeds back unless it is locked or referenced)
VF_SUITE(idempotent) {
    int fam = c.choose(3); int a = c.choose(21), b = c.choose(21), k = c.choose(4), how = c.choose(3);
    c.begin();
    Sys y; y.init(ops::family(fam)); std::string err; std::string log = ops::apply(y, a, err) + "; " + ops::apply(y, b, err) + "; ";
    y.s.out[0].lockPrev = y.s.out[1].lockPrev = false; y.e->getOutputVariable(0)->setLockPreviousValue(false); y.e->getOutputVariable(1)->setLockPreviousValue(false);
    log += ops::apply(y, k, err); c.step(4);
    DV first; std::string fz; for (size_t o = 0; o < 2; ++o) { first.push_back(y.e->getOutputVariable(o)->getValue()); fz += y.e->getOutputVariable(o)->fuzzyOutputValue() + "|"; }
    if (how == 1) for (size_t i = 0; i < 2; ++i) y.e->setInputValue(y.s.in[i].name, y.e->getInputVariable(i)->getValue());
    if (how == 2) { y.e->toString(); y.e->isReady(); y.e->type(); for (size_t i = 0; i < 2; ++i) y.e->getInputVariable(i)->fuzzify(0.3); }   // queries change nothing
    y.e->process();
    for (size_t o = 0; o < 2; ++o) c.expect(vf::near(first[o], y.e->getOutputVariable(o)->getValue(), 1e-12) && (!y.s.out[o].enabled || vf::near(first[o], y.e->getOutputVariable(o)->getPreviousValue(), 1e-12)), "not-idempotent", [&] { return log + vf::cat(": output ", o, " was ", first[o], ", processing again gives ", y.e->getOutputVariable(o)->getValue()); });
    std::string fz2; for (size_t o = 0; o < 2; ++o) fz2 += y.e->getOutputVariable(o)->fuzzyOutputValue() + "|";
    c.expect(fz == fz2, "fuzzy-output-accumulates", [&] { return log + ": " + fz + " then " + fz2; });
    c.state(ops::hash(y));
    c.describe([&] { return log; });
}
