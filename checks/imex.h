// Shared by the checks of importers and exporters: an independent writer of the FuzzyLite Language, and a comparison of a
// real engine with a description, field by field, through the public API.
#ifndef VF_IMEX_H
#define VF_IMEX_H
#include "common.h"
namespace imex {
using namespace ref;
inline std::string F(double x, int dec = 3) { return fmt(x, dec); }
inline std::string params(const ref::Term& t, int dec = 3) {
    if (t.cls == "Function") return t.formula;
    std::string s; for (double v : t.p) s += (s.empty() ? "" : " ") + F(v, dec);
    if (t.h != 1.0 && t.cls != "Constant" && t.cls != "Linear") s += (s.empty() ? "" : " ") + F(t.h, dec);
    return s;
}
inline std::string defuzzText(const Var& v) {
    if (v.defuzz.empty()) return "none";
    if (v.defuzz[0] == 'W') return v.defuzz + (v.wtype.empty() || v.wtype == "Automatic" ? "" : " " + v.wtype);
    return v.defuzz + (v.res == 1000 ? "" : vf::cat(" ", v.res));
}
inline std::string actText(const Block& b) {
    if (b.act.empty()) return "none";
    if (b.act == "First" || b.act == "Last") return b.act + vf::cat(" ", b.n, " ") + F(b.thr);
    if (b.act == "Highest" || b.act == "Lowest") return b.act + vf::cat(" ", b.n);
    if (b.act == "Threshold") return b.act + " " + b.cmp + " " + F(b.thr);
    return b.act;
}
// lines of the language, one engine, in the order the language's template documents
inline std::vector<SV> fllBlocks(const ref::Engine& e) {
    std::vector<SV> r; auto B = [](bool x) { return std::string(x ? "true" : "false"); };
    { SV l; l.push_back("Engine: " + e.name); if (!e.desc.empty()) l.push_back("description: " + e.desc); r.push_back(l); }
    for (int out = 0; out < 2; ++out) for (auto& v : out ? e.out : e.in) {
        SV l; l.push_back(std::string(out ? "OutputVariable: " : "InputVariable: ") + v.name);
        if (!v.desc.empty()) l.push_back("description: " + v.desc);
        l.push_back("enabled: " + B(v.enabled)); l.push_back("range: " + F(v.min) + " " + F(v.max)); l.push_back("lock-range: " + B(v.lockRange));
        if (out) { l.push_back("aggregation: " + (v.aggregation.empty() ? "none" : v.aggregation)); l.push_back("defuzzifier: " + defuzzText(v)); l.push_back("default: " + F(v.def)); l.push_back("lock-previous: " + B(v.lockPrev)); }
        for (auto& t : v.terms) { std::string p = params(t); l.push_back("term: " + t.name + " " + t.cls + (p.empty() ? "" : " " + p)); }
        r.push_back(l);
    }
    for (auto& b : e.blocks) {
        SV l; l.push_back("RuleBlock: " + b.name); if (!b.desc.empty()) l.push_back("description: " + b.desc);
        auto N = [](const std::string& s) { return s.empty() ? std::string("none") : s; };
        l.push_back("enabled: " + B(b.enabled)); l.push_back("conjunction: " + N(b.conj)); l.push_back("disjunction: " + N(b.disj)); l.push_back("implication: " + N(b.impl)); l.push_back("activation: " + actText(b));
        for (auto& x : b.rules) l.push_back("rule: " + ruleText(e, x));
        r.push_back(l);
    }
    return r;
}
inline std::string fll(const ref::Engine& e, const std::string& sep = "\n", const std::string& indent = "  ") {
    std::string s; std::vector<SV> b = fllBlocks(e);
    for (size_t k = 0; k < b.size(); ++k) for (size_t i = 0; i < b[k].size(); ++i) s += (s.empty() ? "" : sep) + (k && i ? indent : "") + b[k][i];
    return s;
}
inline std::string squeeze(const std::string& s) { std::string r, t; std::istringstream i(s); while (i >> t) r += (r.empty() ? "" : " ") + t; return r; }
inline std::string nodesc(const std::string& s) { return s; }

struct Opt { bool desc = true, enabled = true, locks = true, def = true, height = true, blockNames = true; };
// differences between an engine and its description; empty if none
inline std::string specDiff(const fuzzylite::Engine* e, const ref::Engine& s, vf::Ctx& c, const Opt& opt = Opt()) {
    namespace F_ = fuzzylite; std::ostringstream o;
#define VF_CMP(WHAT, GOT, WANT) do { c.checks(); if (!((GOT) == (WANT))) o << WHAT << " is <" << vf::cat(GOT) << ">, expected <" << vf::cat(WANT) << ">; "; } while (0)
#define VF_NUM(WHAT, GOT, WANT) do { c.checks(); if (!vf::near((GOT), (WANT), 1e-9)) o << WHAT << " is " << vf::num(GOT) << ", expected " << vf::num(WANT) << "; "; } while (0)
    VF_CMP("engine name", e->getName(), s.name); if (opt.desc) VF_CMP("engine description", e->getDescription(), s.desc);
    VF_CMP("number of inputs", e->numberOfInputVariables(), s.in.size()); VF_CMP("number of outputs", e->numberOfOutputVariables(), s.out.size()); VF_CMP("number of rule blocks", e->numberOfRuleBlocks(), s.blocks.size());
    if (!o.str().empty()) return o.str();
    for (int out = 0; out < 2; ++out) for (size_t i = 0; i < (out ? s.out : s.in).size(); ++i) {
        const Var& v = (out ? s.out : s.in)[i]; const F_::Variable* x = out ? (const F_::Variable*) e->getOutputVariable(i) : e->getInputVariable(i); std::string n = vf::cat(out ? "output " : "input ", i, " ");
        VF_CMP(n + "name", x->getName(), v.name); if (opt.desc) VF_CMP(n + "description", x->getDescription(), v.desc); if (opt.enabled) VF_CMP(n + "enabled", x->isEnabled(), v.enabled); if (opt.locks) VF_CMP(n + "lock-range", x->isLockValueInRange(), v.lockRange);
        VF_NUM(n + "minimum", x->getMinimum(), v.min); VF_NUM(n + "maximum", x->getMaximum(), v.max);
        if (out) {
            const F_::OutputVariable* y = e->getOutputVariable(i);
            VF_CMP(n + "aggregation", y->getAggregation() ? y->getAggregation()->className() : std::string(), v.aggregation);
            VF_CMP(n + "defuzzifier", y->getDefuzzifier() ? y->getDefuzzifier()->className() : std::string(), v.defuzz);
            if (y->getDefuzzifier() && y->getDefuzzifier()->className() == v.defuzz) {
                if (v.defuzz[0] == 'W') { const F_::WeightedDefuzzifier* w = static_cast<const F_::WeightedDefuzzifier*>(y->getDefuzzifier()); VF_CMP(n + "weighted type", w->getTypeName(), (v.wtype.empty() ? std::string("Automatic") : v.wtype)); }
                else VF_CMP(n + "resolution", static_cast<const F_::IntegralDefuzzifier*>(y->getDefuzzifier())->getResolution(), v.res);
            }
            if (opt.def) VF_NUM(n + "default", y->getDefaultValue(), v.def); if (opt.locks) VF_CMP(n + "lock-previous", y->isLockPreviousValue(), v.lockPrev);
            VF_NUM(n + "fuzzy output minimum", y->fuzzyOutput()->getMinimum(), v.min); VF_NUM(n + "fuzzy output maximum", y->fuzzyOutput()->getMaximum(), v.max); VF_CMP(n + "fuzzy output name", y->fuzzyOutput()->getName(), v.name);
        }
        VF_CMP(n + "number of terms", x->numberOfTerms(), v.terms.size());
        if (x->numberOfTerms() == v.terms.size()) for (size_t t = 0; t < v.terms.size(); ++t) {
            const ref::Term& w = v.terms[t]; const F_::Term* y = x->getTerm(t); std::string m = n + vf::cat("term ", t, " ");
            VF_CMP(m + "name", y->getName(), w.name); VF_CMP(m + "class", y->className(), w.cls); if (opt.height) VF_NUM(m + "height", y->getHeight(), w.h); if (opt.height) VF_CMP(m + "parameters", y->parameters(), params(w));
            if (y->className() == w.cls && !(w.cls == "Discrete" && w.p.empty())) {
                std::vector<double> in, ou; for (size_t k = 0; k < e->numberOfInputVariables(); ++k) in.push_back(e->getInputVariable(k)->getValue()); for (size_t k = 0; k < e->numberOfOutputVariables(); ++k) ou.push_back(e->getOutputVariable(k)->getValue());
                for (double z : {-0.7, 0.0, 0.125, 0.3, 0.5, 0.77, 1.0, 2.5}) VF_NUM(m + vf::cat("membership of ", z), y->membership(z), mu(w, z, in, ou));
            }
        }
    }
    for (size_t i = 0; i < s.blocks.size(); ++i) {
        const Block& b = s.blocks[i]; const F_::RuleBlock* x = e->getRuleBlock(i); std::string n = vf::cat("rule block ", i, " ");
        if (opt.blockNames) VF_CMP(n + "name", x->getName(), b.name); if (opt.desc) VF_CMP(n + "description", x->getDescription(), b.desc); if (opt.enabled) VF_CMP(n + "enabled", x->isEnabled(), b.enabled);
        auto N = [](const F_::Norm* k) { return k ? k->className() : std::string(); };
        VF_CMP(n + "conjunction", N(x->getConjunction()), b.conj); VF_CMP(n + "disjunction", N(x->getDisjunction()), b.disj); VF_CMP(n + "implication", N(x->getImplication()), b.impl);
        const F_::Activation* a = x->getActivation(); VF_CMP(n + "activation", a ? a->className() : std::string("General"), (b.act.empty() ? std::string("General") : b.act));
        if (a && a->className() == b.act) {
            if (b.act == "First") { auto* k = static_cast<const F_::First*>(a); VF_CMP(n + "number of rules", k->getNumberOfRules(), b.n); VF_NUM(n + "threshold", k->getThreshold(), b.thr); }
            if (b.act == "Last") { auto* k = static_cast<const F_::Last*>(a); VF_CMP(n + "number of rules", k->getNumberOfRules(), b.n); VF_NUM(n + "threshold", k->getThreshold(), b.thr); }
            if (b.act == "Highest") VF_CMP(n + "number of rules", static_cast<const F_::Highest*>(a)->getNumberOfRules(), b.n);
            if (b.act == "Lowest") VF_CMP(n + "number of rules", static_cast<const F_::Lowest*>(a)->getNumberOfRules(), b.n);
            if (b.act == "Threshold") { auto* k = static_cast<const F_::Threshold*>(a); VF_CMP(n + "comparison", k->comparisonOperator(), b.cmp); VF_NUM(n + "threshold", k->getValue(), b.thr); }
        }
        VF_CMP(n + "number of rules", x->numberOfRules(), b.rules.size());
        if (x->numberOfRules() == b.rules.size()) for (size_t r = 0; r < b.rules.size(); ++r) {
            const F_::Rule* y = x->getRule(r); std::string m = n + vf::cat("rule ", r, " ");
            VF_CMP(m + "loaded", y->isLoaded(), true); VF_NUM(m + "weight", y->getWeight(), b.rules[r].weight); VF_CMP(m + "text", squeeze(y->getText()), ruleText(s, b.rules[r])); VF_CMP(m + "enabled", y->isEnabled(), true);
        }
    }
    return o.str();
}
// both engines compute what the reference model computes, on a few inputs in a row
inline std::string behaves(fuzzylite::Engine* e, const ref::Engine& s, vf::Ctx& c, const std::vector<DV>& inputs) {
    ref::State st = initial(s);
    for (const DV& in : inputs) {
        for (size_t i = 0; i < s.in.size(); ++i) { double v = in[i % in.size()]; setInput(s, st, i, v); e->getInputVariable(i)->setValue(v); }
        bool threw = false, want = false; std::string what;
        try { process(s, st); } catch (std::exception&) { want = true; }
        try { e->process(); } catch (fuzzylite::Exception& x) { threw = true; what = x.what(); }
        c.step();
        if (want) return "";
        if (threw) return "processing raised " + what;
        if (st.ambiguous) return "";
        std::string d = compareState(e, s, st, c, 1e-8); if (!d.empty()) { std::string t = "inputs"; for (double v : in) t += " " + vf::num(v); return t + ": " + d; }
    }
    return "";
}
inline std::string firstDiff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b); std::string l, m; int n = 0;
    while (true) { bool p = (bool) std::getline(x, l), q = (bool) std::getline(y, m); ++n; if (!p && !q) return ""; if (!p) l = "(end)"; if (!q) m = "(end)"; if (l != m) return vf::cat("line ", n, ": <", l, "> expected <", m, ">"); }
}
}
#endif
