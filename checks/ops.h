// A system under test: a real engine, its description for the reference model, and the model's state; plus the operations
// a user can perform on it.  Used by the checks that explore histories.
#ifndef VF_OPS_H
#define VF_OPS_H
#include "common.h"
struct Sys {
    ref::Engine s; ref::State st; std::unique_ptr<fuzzylite::Engine> e;
    std::vector<std::vector<double>> textWeight; bool extra = false, changed = false;
    void init(const ref::Engine& spec) { s = spec; st = ref::initial(s); e.reset(bld::engine(s)); textWeight.clear(); for (auto& b : s.blocks) { textWeight.push_back({}); for (auto& r : b.rules) textWeight.back().push_back(r.weight); } }
    void adopt(const Sys& o, fuzzylite::Engine* copy) { s = o.s; st = o.st; textWeight = o.textWeight; extra = o.extra; changed = o.changed; e.reset(copy); }
};
namespace ops {
using namespace ref;
static const int N = 21;
static const std::vector<DV> INPUTS = {{0.2, 0.7}, {0.9, 0.1}, {0.5, NaN}, {-3, 2}};
// engine families: 0 Mamdani with chaining, 1 Takagi-Sugeno with functions and linear terms, 2 Tsukamoto and integral mixed, all with locks and defaults
inline ref::Engine family(int k) {
    using namespace ref;
    ref::Engine e; e.name = vf::cat("family", k); e.desc = "d";
    std::vector<ref::Term> IN = {T("Ramp", "low", {1, 0}), T("Triangle", "mid", {0, 0.5, 1}), T("Gaussian", "high", {1, 0.3})};
    e.in = {inVar("a", 0, 1, IN), inVar("b", 0, 1, IN)}; e.in[1].lockRange = true;
    ref::Block b; b.name = "one"; b.conj = "AlgebraicProduct"; b.disj = "Maximum"; b.impl = "Minimum";
    if (k == 0) {
        std::vector<ref::Term> O = {T("Triangle", "small", {0, 0.25, 0.5}), T("Trapezoid", "medium", {0.2, 0.4, 0.6, 0.9}), T("Ramp", "large", {0.5, 1}, 0.75)};
        e.out = {outVar("x", 0, 1, O, "Maximum", "Centroid", 20), outVar("y", -1, 1, O, "AlgebraicSum", "Bisector", 20)}; e.out[0].def = 0.125; e.out[1].lockPrev = true; e.out[1].lockRange = true;
    } else if (k == 1) {
        ref::Term f; f.cls = "Function"; f.name = "f"; f.formula = "x + 2*a - b"; f.f = [](double x, const DV& in, const DV&) { return x + 2 * in[0] - in[1]; };
        ref::Term g; g.cls = "Function"; g.name = "g"; g.formula = "max(a, x) * 0.5"; g.f = [](double x, const DV& in, const DV&) { return (nan_(in[0]) || nan_(x) ? NaN : std::max(in[0], x)) * 0.5; };
        e.out = {outVar("x", -5, 5, {f, T("Linear", "l", {1, -2, 0.5}), T("Constant", "c", {0.75})}, "", "WeightedAverage"), outVar("y", -5, 5, {g, T("Constant", "c", {-1}), T("Linear", "l", {2, 0})}, "UnboundedSum", "WeightedSum")};
        ref::Term h; h.cls = "Function"; h.name = "near"; h.formula = "1 - (x - a)^2 / 20"; h.f = [](double x, const DV& in, const DV&) { return 1 - (x - in[0]) * (x - in[0]) / 20; }; e.in[1].terms.push_back(h);   // (a term of an input variable that refers to another)
        e.out[0].wtype = "TakagiSugeno"; e.out[1].wtype = "TakagiSugeno"; e.out[0].lockPrev = true; e.out[1].def = -4; b.impl = "";
    } else {
        e.out = {outVar("x", 0, 1, {T("Ramp", "small", {1, 0}), T("SShape", "medium", {0.2, 0.8}), T("Sigmoid", "large", {0.5, 10})}, "", "WeightedAverage"), outVar("y", 0, 2, {T("Discrete", "small", {0, 0, 1, 1, 2, 0}), T("Bell", "medium", {1, 0.5, 3}), T("ZShape", "large", {0.5, 1.5})}, "Maximum", "MeanOfMaximum", 25)};
        e.out[0].wtype = "Tsukamoto"; e.out[0].def = 7; e.out[0].lockRange = true;
    }
    b.rules = {R(And(P(0, 0), P(1, 1)), {C(0, 0), C(1, 2)}), R(Or(P(0, 2, {"very"}), P(1, 0)), {C(0, 1), C(1, 0)}, 0.75), R(P(0, 1, {"not"}), {C(0, 2)}, 0.5)};
    ref::Block b2 = b; b2.name = "two"; b2.conj = "Minimum"; b2.act = "First"; b2.n = 1; if (k != 1) b2.impl = "AlgebraicProduct";
    b2.rules = {R(And(P(0, 0, {}, true), P(1, 2)), {C(1, 1)}), R(P(1, 1), {C(1, 0), C(0, 0, {"somewhat"})})};
    if (k == 1) b2.rules.push_back(R(P(1, 3, {"very"}), {C(0, 2), C(1, 1)}, 0.25));
    e.blocks = {b, b2};
    e.blocks[0].rules[2].enabled = false;
    return e;
}
inline void setInputs(Sys& y, const DV& v) { for (size_t i = 0; i < v.size(); ++i) { setInput(y.s, y.st, i, v[i]); y.e->getInputVariable(i)->setValue(v[i]); } }
// performs operation op on the model and on the engine; returns its name.  err receives a failure of the operation itself.
inline std::string apply(Sys& y, int op, std::string& err) {
    ref::Engine& s = y.s; fuzzylite::Engine* e = y.e.get(); bool weighted = s.out[0].defuzz[0] == 'W';
    if (op < 4) { setInputs(y, INPUTS[(size_t) op]); e->process(); process(s, y.st); return vf::cat("process(", INPUTS[(size_t) op][0], ",", INPUTS[(size_t) op][1], ")"); }
    switch (op) {
        case 4: {
            e->restart(); ref::State i = initial(s);
            y.st.in = i.in; for (size_t k = 0; k < s.in.size(); ++k) if (s.in[k].lockRange) setInput(s, y.st, k, NaN);
            for (size_t o = 0; o < s.out.size(); ++o) { y.st.out[o] = s.out[o].lockRange ? bound(NaN, s.out[o].min, s.out[o].max) : NaN; y.st.prev[o] = NaN; y.st.fuzzy[o].clear(); y.st.loose[o] = y.st.ploose[o] = false; }
            return "restart";
        }
        case 5: { ref::Rule& r = s.blocks[0].rules[0]; r.enabled = !r.enabled; e->getRuleBlock(0)->getRule(0)->setEnabled(r.enabled); return "toggle rule"; }
        case 6: { ref::Block& b = s.blocks[0]; b.enabled = !b.enabled; e->getRuleBlock(0)->setEnabled(b.enabled); return "toggle block"; }
        case 7: { ref::Var& v = s.in[0]; v.enabled = !v.enabled; e->getInputVariable("a")->setEnabled(v.enabled); return "toggle input"; }
        case 8: { ref::Var& v = s.out[0]; v.enabled = !v.enabled; e->getOutputVariable("x")->setEnabled(v.enabled); return "toggle output"; }
        case 9: {
            ref::Block& b = s.blocks[0]; b.conj = b.conj == "AlgebraicProduct" ? "EinsteinProduct" : "AlgebraicProduct"; if (!b.impl.empty()) b.impl = b.impl == "Minimum" ? "AlgebraicProduct" : "Minimum"; b.disj = b.disj == "Maximum" ? "BoundedSum" : "Maximum";
            fuzzylite::RuleBlock* rb = e->getRuleBlock(0); 
            std::vector<const fuzzylite::Activated*> none; (void) none;
            // the old implication operator is deleted: the activated terms of the last cycle must not be used any more
            for (size_t o = 0; o < e->numberOfOutputVariables(); ++o) { e->getOutputVariable(o)->fuzzyOutput()->clear(); y.st.fuzzy[o].clear(); }
            rb->setConjunction(bld::tnorm(b.conj)); rb->setDisjunction(bld::snorm(b.disj)); rb->setImplication(bld::tnorm(b.impl)); return "change operators";
        }
        case 10: {
            ref::Var& v = s.out[0];
            if (weighted) v.defuzz = v.defuzz == "WeightedSum" ? "WeightedAverage" : "WeightedSum"; else { v.defuzz = v.defuzz == "Centroid" ? "LargestOfMaximum" : "Centroid"; v.res = v.res == 20 ? 33 : 20; v.aggregation = v.aggregation == "Maximum" ? "UnboundedSum" : "Maximum"; }
            e->getOutputVariable(0)->setDefuzzifier(bld::defuzzifier(v)); e->getOutputVariable(0)->setAggregation(bld::snorm(v.aggregation)); return "change defuzzifier";
        }
        case 11: { ref::Block& b = s.blocks[0]; static const SV A = {"General", "Highest", "Proportional", "Last"}; size_t k = 0; while (k < A.size() && A[k] != b.act) ++k; b.act = A[(k + 1) % A.size()]; b.n = 1; b.thr = 0; e->getRuleBlock(0)->setActivation(bld::activation(b)); return "activation " + b.act; }
        case 12: {
            if (!y.extra) { ref::Rule r = R(P(1, 2, {"somewhat"}), {C(1, 0)}, 0.25); s.blocks[0].rules.insert(s.blocks[0].rules.begin() + 1, r); y.textWeight[0].insert(y.textWeight[0].begin() + 1, 0.25); y.st.degree[0].insert(y.st.degree[0].begin() + 1, 0.0); y.st.triggered[0].insert(y.st.triggered[0].begin() + 1, false); e->getRuleBlock(0)->insertRule(fuzzylite::Rule::parse(ruleText(s, r), e), 1); }
            else { s.blocks[0].rules.erase(s.blocks[0].rules.begin() + 1); y.textWeight[0].erase(y.textWeight[0].begin() + 1); y.st.degree[0].erase(y.st.degree[0].begin() + 1); y.st.triggered[0].erase(y.st.triggered[0].begin() + 1); delete e->getRuleBlock(0)->removeRule(1); }
            y.extra = !y.extra; return y.extra ? "insert a rule" : "remove the rule";
        }
        case 13: { y.changed = !y.changed; s.in[0].terms[0].p = y.changed ? DV{0.75, 0.25} : DV{1, 0}; e->getInputVariable(0)->getTerm("low")->configure(y.changed ? "0.75 0.25" : "1 0"); return "reconfigure a term"; }
        case 14: {
            if (!s.blocks[0].enabled || s.blocks[0].conj.empty()) return "-";
            DV out = y.st.out, prev = y.st.prev; fuzzylite::TNorm* keep = bld::tnorm(s.blocks[0].conj);
            e->getRuleBlock(0)->setConjunction(0); setInputs(y, {0.3, 0.3}); bool threw = false;
            bool needs = s.blocks[0].rules[0].loaded;
            try { e->process(); } catch (fuzzylite::Exception&) { threw = true; }
            e->getRuleBlock(0)->setConjunction(keep);
            if (threw != needs) err = "processing without a conjunction operator did not raise an error";
            if (!threw) { ref::Engine t = s; process(s, y.st); }
            else {
                for (size_t o = 0; o < out.size(); ++o) if (!vf::near(e->getOutputVariable(o)->getValue(), out[o]) && !outAgrees(y.st, o, e->getOutputVariable(o)->getValue())) err = "a cycle that failed changed an output value";
                for (size_t o = 0; o < out.size(); ++o) { y.st.fuzzy[o].clear(); e->getOutputVariable(o)->fuzzyOutput()->clear(); }
                for (size_t r = 0; r < s.blocks[0].rules.size(); ++r) { y.st.degree[0][r] = 0; y.st.triggered[0][r] = false; e->getRuleBlock(0)->getRule(r)->deactivate(); }
            }
            return "failing process";
        }
        case 15: { ref::Rule& r = s.blocks[0].rules.back(); r.weight = r.weight == 0.5 ? 0.1 : 0.5; e->getRuleBlock(0)->getRule(s.blocks[0].rules.size() - 1)->setWeight(r.weight); return "weight"; }
        case 16: {
            for (size_t b = 0; b < s.blocks.size(); ++b) for (size_t r = 0; r < s.blocks[b].rules.size(); ++r) { s.blocks[b].rules[r].enabled = s.blocks[b].rules[r].loaded = true; s.blocks[b].rules[r].weight = y.textWeight[b][r]; y.st.degree[b][r] = 0; y.st.triggered[b][r] = false; }
            for (size_t b = 0; b < s.blocks.size(); ++b) e->getRuleBlock(b)->reloadRules(e); return "reload rules";
        }
        case 17: {
            ref::Rule& r = s.blocks[0].rules[0]; fuzzylite::Rule* x = e->getRuleBlock(0)->getRule(0); y.st.degree[0][0] = 0; y.st.triggered[0][0] = false;
            if (r.loaded) { r.loaded = false; x->unload(); } else { r.loaded = true; r.enabled = true; r.weight = y.textWeight[0][0]; x->load(e); }
            return r.loaded ? "load rule" : "unload rule";
        }
        case 18: { ref::Var& v = s.out[0]; v.lockRange = !v.lockRange; v.max = v.max == 1 ? 0.6 : v.max == 0.6 ? 1 : v.max == 5 ? 0.5 : 5; e->getOutputVariable(0)->setLockValueInRange(v.lockRange); e->getOutputVariable(0)->setMaximum(v.max); return "range"; }
        case 19: {
            for (size_t o = 0; o < s.out.size(); ++o) { e->getOutputVariable(o)->fuzzyOutput()->clear(); y.st.fuzzy[o].clear(); }
            for (auto& b : s.blocks) { b.conj = "BoundedDifference"; b.disj = "AlgebraicSum"; b.impl = "Minimum"; b.act = "General"; }
            for (auto& v : s.out) { v.aggregation = "Maximum"; if (weighted) { v.defuzz = "WeightedAverage"; v.wtype = ""; } else { v.defuzz = "SmallestOfMaximum"; v.res = 25; } }
            e->configure("BoundedDifference", "AlgebraicSum", "Minimum", "Maximum", weighted ? "WeightedAverage" : "SmallestOfMaximum", "General");
            if (!weighted) for (size_t o = 0; o < s.out.size(); ++o) static_cast<fuzzylite::IntegralDefuzzifier*>(e->getOutputVariable(o)->getDefuzzifier())->setResolution(25);
            if (weighted) for (size_t o = 0; o < s.out.size(); ++o) if (s.out[o].terms[0].cls == "Discrete") { s.out[o].defuzz = "Centroid"; s.out[o].res = 25; e->getOutputVariable(o)->setDefuzzifier(new fuzzylite::Centroid(25)); }
            return "configure";
        }
        case 20: { s.out[0].def = nan_(s.out[0].def) ? 0.3 : NaN; e->getOutputVariable(0)->setDefaultValue(s.out[0].def); s.out[0].lockPrev = !s.out[0].lockPrev; e->getOutputVariable(0)->setLockPreviousValue(s.out[0].lockPrev); return "default and lock-previous"; }
    }
    return "?";
}
inline std::string diff(Sys& y, vf::Ctx& c) {
    std::string d = y.st.ambiguous ? "" : compareState(y.e.get(), y.s, y.st, c, 1e-8);
    for (size_t i = 0; i < y.s.in.size(); ++i) { c.checks(); if (!vf::near(y.e->getInputVariable(i)->getValue(), y.st.in[i])) d += vf::cat("input ", i, " is ", y.e->getInputVariable(i)->getValue(), ", expected ", y.st.in[i], "; "); }
    return d;
}
inline uint64_t hash(const Sys& y) {
    std::ostringstream o; for (double v : y.st.in) o << vf::num(v) << ","; for (double v : y.st.out) o << vf::num(v) << ","; for (double v : y.st.prev) o << vf::num(v) << ",";
    for (auto& b : y.s.blocks) { o << b.enabled << b.conj << b.impl << b.act; for (auto& r : b.rules) o << r.enabled << r.loaded << r.weight; }
    for (auto& v : y.s.in) o << v.enabled << v.terms[0].p[0]; for (auto& v : y.s.out) o << v.enabled << v.defuzz << v.aggregation << v.max << v.lockRange << v.lockPrev << vf::num(v.def);
    for (auto& d : y.st.degree) for (double v : d) o << vf::num(v) << ";"; for (auto& f : y.st.fuzzy) { o << "F"; for (auto& a : f) o << a.term << vf::num(a.degree); }
    return vf::hashStr(o.str());
}
}
#endif
