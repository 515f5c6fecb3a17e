// Builds fuzzylite engines from reference-model descriptions, through the public API only.
#ifndef VF_BUILD_H
#define VF_BUILD_H
#include <fuzzylite/Headers.h>
#include "ref.h"
#include "vf.h"

namespace bld {
using namespace fuzzylite;
inline Term* term(const ref::Term& t, const Engine* engine = 0) {
    const std::string& c = t.cls; const std::string& n = t.name; const std::vector<double>& p = t.p; double h = t.h;
    if (c == "Bell") return new Bell(n, p[0], p[1], p[2], h);
    if (c == "Binary") return new Binary(n, p[0], p[1], h);
    if (c == "Concave") return new Concave(n, p[0], p[1], h);
    if (c == "Constant") return new Constant(n, p[0]);
    if (c == "Cosine") return new Cosine(n, p[0], p[1], h);
    if (c == "Discrete") { std::vector<Discrete::Pair> xy; for (size_t i = 0; i + 1 < p.size(); i += 2) xy.push_back(Discrete::Pair(p[i], p[i + 1])); return new Discrete(n, xy, h); }
    if (c == "Function") return new Function(n, t.formula, std::map<std::string, scalar>(), engine, false);
    if (c == "Gaussian") return new Gaussian(n, p[0], p[1], h);
    if (c == "GaussianProduct") return new GaussianProduct(n, p[0], p[1], p[2], p[3], h);
    if (c == "Linear") return new Linear(n, p, engine);
    if (c == "PiShape") return new PiShape(n, p[0], p[1], p[2], p[3], h);
    if (c == "Ramp") return new Ramp(n, p[0], p[1], h);
    if (c == "Rectangle") return new Rectangle(n, p[0], p[1], h);
    if (c == "SShape") return new SShape(n, p[0], p[1], h);
    if (c == "Sigmoid") return new Sigmoid(n, p[0], p[1], h);
    if (c == "SigmoidDifference") return new SigmoidDifference(n, p[0], p[1], p[2], p[3], h);
    if (c == "SigmoidProduct") return new SigmoidProduct(n, p[0], p[1], p[2], p[3], h);
    if (c == "Spike") return new Spike(n, p[0], p[1], h);
    if (c == "Trapezoid") return new Trapezoid(n, p[0], p[1], p[2], p[3], h);
    if (c == "Triangle") return new Triangle(n, p[0], p[1], p[2], h);
    if (c == "ZShape") return new ZShape(n, p[0], p[1], h);
    throw std::runtime_error("build: term " + c);
}
inline TNorm* tnorm(const std::string& s) { return s.empty() ? 0 : FactoryManager::instance()->tnorm()->constructObject(s); }
inline SNorm* snorm(const std::string& s) { return s.empty() ? 0 : FactoryManager::instance()->snorm()->constructObject(s); }
inline Defuzzifier* defuzzifier(const ref::Var& v) {
    if (v.defuzz.empty()) return 0;
    if (v.defuzz == "WeightedAverage") return v.wtype.empty() ? new WeightedAverage : new WeightedAverage(v.wtype);
    if (v.defuzz == "WeightedSum") return v.wtype.empty() ? new WeightedSum : new WeightedSum(v.wtype);
    Defuzzifier* d = FactoryManager::instance()->defuzzifier()->constructObject(v.defuzz);
    static_cast<IntegralDefuzzifier*>(d)->setResolution(v.res);
    return d;
}
inline Activation* activation(const ref::Block& b) {
    if (b.act == "First") return new First(b.n, b.thr);
    if (b.act == "Last") return new Last(b.n, b.thr);
    if (b.act == "Highest") return new Highest(b.n);
    if (b.act == "Lowest") return new Lowest(b.n);
    if (b.act == "Proportional") return new Proportional;
    if (b.act == "Threshold") return new Threshold(b.cmp, b.thr);
    if (b.act == "General") return new General;
    return 0;
}
inline Engine* engine(const ref::Engine& s) {
    Engine* e = new Engine(s.name, s.desc);
    for (size_t i = 0; i < s.in.size(); ++i) {
        const ref::Var& v = s.in[i];
        InputVariable* iv = new InputVariable(v.name, v.min, v.max);
        iv->setDescription(v.desc); iv->setEnabled(v.enabled); iv->setLockValueInRange(v.lockRange);
        for (size_t t = 0; t < v.terms.size(); ++t) iv->addTerm(term(v.terms[t], e));
        e->addInputVariable(iv);
    }
    for (size_t i = 0; i < s.out.size(); ++i) {
        const ref::Var& v = s.out[i];
        OutputVariable* ov = new OutputVariable(v.name, v.min, v.max);
        ov->setDescription(v.desc); ov->setEnabled(v.enabled); ov->setLockValueInRange(v.lockRange); ov->setLockPreviousValue(v.lockPrev); ov->setDefaultValue(v.def);
        ov->setAggregation(snorm(v.aggregation)); ov->setDefuzzifier(defuzzifier(v));
        for (size_t t = 0; t < v.terms.size(); ++t) ov->addTerm(term(v.terms[t], e));
        e->addOutputVariable(ov);
    }
    std::vector<Variable*> vs = e->variables();
    for (size_t i = 0; i < vs.size(); ++i) for (size_t t = 0; t < vs[i]->numberOfTerms(); ++t) vs[i]->getTerm(t)->updateReference(e);
    for (size_t i = 0; i < s.blocks.size(); ++i) {
        const ref::Block& b = s.blocks[i];
        RuleBlock* rb = new RuleBlock(b.name);
        rb->setDescription(b.desc); rb->setEnabled(b.enabled); rb->setConjunction(tnorm(b.conj)); rb->setDisjunction(snorm(b.disj)); rb->setImplication(tnorm(b.impl)); rb->setActivation(activation(b));
        for (size_t r = 0; r < b.rules.size(); ++r) {
            Rule* rule = b.rules[r].loaded ? Rule::parse(ref::ruleText(s, b.rules[r]), e) : new Rule(ref::ruleText(s, b.rules[r]));
            rule->setEnabled(b.rules[r].enabled);
            rb->addRule(rule);
        }
        e->addRuleBlock(rb);
    }
    return e;
}
inline std::string describe(const Engine* e) { return e->toString(); }
}
#endif
