// C02: each activation method fires exactly the rules it documents, whatever the activation degrees.
#include "common.h"
using namespace ref;
static const SV CMP = {"<", "<=", "==", "!=", ">=", ">"};

static ref::Engine ruleEngine(size_t n, const ref::Block& proto) {
    ref::Engine e; e.name = "act";
    for (size_t i = 0; i < n; ++i) e.in.push_back(inVar("i" + std::to_string(i), 0, 1, {T("Ramp", "t", {0, 1})}));
    std::vector<ref::Term> ot; for (size_t i = 0; i < n; ++i) ot.push_back(T("Triangle", "o" + std::to_string(i), {0, 0.5, 1}));
    e.out = {outVar("x", 0, 1, ot, "Maximum", "Centroid", 4)};
    ref::Block b = proto; b.name = "rb"; b.impl = "Minimum";
    for (size_t i = 0; i < n; ++i) b.rules.push_back(R(P((int) i, 0), {C(0, (int) i)}));
    e.blocks = {b};
    return e;
}
// what a method must do with the given degrees, stated directly (not by simulating the method)
static std::string verdict(const fuzzylite::Engine* e, const ref::Engine& s, const std::vector<double>& raw, vf::Ctx& c) {
    const ref::Block& b = s.blocks[0]; size_t n = b.rules.size(); std::ostringstream o;
    std::vector<double> deg(n); std::vector<bool> trig(n), loaded(n), on(n);
    const fuzzylite::RuleBlock* rb = e->getRuleBlock(0);
    std::vector<double> d(n);
    for (size_t i = 0; i < n; ++i) { deg[i] = rb->getRule(i)->getActivationDegree(); trig[i] = rb->getRule(i)->isTriggered(); loaded[i] = b.rules[i].loaded; on[i] = b.rules[i].enabled; d[i] = raw[i] * b.rules[i].weight; }
    double sum = 0; for (size_t i = 0; i < n; ++i) if (loaded[i]) sum += d[i];
    std::vector<bool> must(n, false), may(n, false);
    if (b.act == "General") for (size_t i = 0; i < n; ++i) must[i] = loaded[i];
    if (b.act == "Threshold") for (size_t i = 0; i < n; ++i) must[i] = loaded[i] && cmp(b.cmp, d[i], b.thr);
    if (b.act == "Proportional") for (size_t i = 0; i < n; ++i) must[i] = loaded[i];
    if (b.act == "First" || b.act == "Last") { int k = 0; for (size_t j = 0; j < n; ++j) { size_t i = b.act == "First" ? j : n - 1 - j; if (loaded[i] && gt(d[i], 0) && ge(d[i], b.thr) && k < b.n) { must[i] = true; ++k; } } }
    size_t tieNeeded = 0; std::vector<size_t> tied;
    if (b.act == "Highest" || b.act == "Lowest") {
        bool hi = b.act == "Highest"; std::vector<size_t> cand; for (size_t i = 0; i < n; ++i) if (loaded[i] && gt(d[i], 0)) cand.push_back(i);
        int k = std::min((int) cand.size(), b.n);
        for (size_t i : cand) {
            int before = 0, equal = 0;
            for (size_t j : cand) { if (std::fabs(d[j] - d[i]) < 1e-9) ++equal; else if (hi ? d[j] > d[i] : d[j] < d[i]) ++before; }
            if (before + equal <= k) must[i] = true; else if (before < k) { may[i] = true; tied.push_back(i); tieNeeded = (size_t) (k - before); }
        }
    }
    size_t tiedFired = 0, tiedOff = 0; for (size_t i : tied) { if (!on[i]) ++tiedOff; else if (trig[i]) ++tiedFired; }
    if (!tied.empty() && (tiedFired > tieNeeded || tiedFired + tiedOff < tieNeeded)) o << "of " << tied.size() << " rules tied at the limit " << tiedFired << " fired, " << tieNeeded << " places; ";
    size_t fuzzyN = 0;
    for (size_t i = 0; i < n; ++i) {
        double want = loaded[i] ? d[i] : 0.0;
        if (b.act == "Proportional" && loaded[i]) { want = d[i] / sum; if (nan_(want)) want = 0; }
        c.checks(2);
        if (!vf::near(deg[i], want)) o << "rule " << i << " degree " << vf::num(deg[i]) << " expected " << vf::num(want) << "; ";
        bool fires = on[i] && loaded[i] && gt(want, 0);
        if (may[i]) { if (trig[i] && !fires) o << "rule " << i << " fired; "; }
        else if (trig[i] != (must[i] && fires)) o << "rule " << i << (trig[i] ? " fired" : " did not fire") << "; ";
        if (trig[i]) ++fuzzyN;
    }
    // every fired rule contributed exactly its own conclusion with its own degree, nothing else did
    const fuzzylite::Aggregated* f = e->getOutputVariable(0)->fuzzyOutput();
    c.checks();
    if (f->numberOfTerms() != fuzzyN) o << "fuzzy output has " << f->numberOfTerms() << " terms for " << fuzzyN << " fired rules; ";
    else {
        std::vector<bool> used(n, false); double last = b.act == "Highest" ? INF : -INF; size_t lastIdx = 0; bool first = true;
        for (size_t t = 0; t < fuzzyN; ++t) {
            size_t i = 0; while (i < n && f->getTerm(t).getTerm() != e->getOutputVariable(0)->getTerm(i)) ++i;
            if (i == n || used[i] || !trig[i]) { o << "fuzzy term " << t << " does not come from a fired rule; "; break; }
            used[i] = true; double td = f->getTerm(t).getDegree();
            if (!vf::near(td, deg[i])) o << "fuzzy term of rule " << i << " has degree " << vf::num(td) << "; ";
            if (b.act == "Highest" && td > last + 1e-12) o << "rules not fired from the highest degree down; ";
            if (b.act == "Lowest" && td < last - 1e-12) o << "rules not fired from the lowest degree up; ";
            if ((b.act == "General" || b.act == "First" || b.act == "Threshold" || b.act == "Proportional") && !first && i < lastIdx) o << "rules not fired in order of insertion; ";
            if (b.act == "Last" && !first && i > lastIdx) o << "rules not fired from the last to the first; ";
            last = td; lastIdx = i; first = false;
        }
    }
    return o.str();
}

static void chooseMethod(vf::Ctx& c, ref::Block& b, int maxN, const DV& thr) {
    b.act = c.pick(NAMES(ACTIVATIONS));
    if (b.act == "First" || b.act == "Last") { b.n = c.choose(maxN + 2) - 1; b.thr = c.pick(thr); }
    else if (b.act == "Highest" || b.act == "Lowest") b.n = c.choose(maxN + 2) - 1;
    else if (b.act == "Threshold") { b.cmp = c.pick(CMP); b.thr = c.pick(thr); }
}
static void allVectors(vf::Ctx& c, const ref::Engine& s, const DV& alphabet) {
    Guard e(bld::engine(s));
    c.describe([&] { return bld::describe(e.e); });
    for (auto* r : e->getRuleBlock(0)->rules()) c.expect(!r->isTriggered() && r->getActivationDegree() == 0.0, "triggered-before-activation", [&] { return "a rule is triggered before its block was ever activated: " + r->getText(); });
    size_t n = s.blocks[0].rules.size(); std::vector<size_t> idx(n, 0); std::vector<double> v(n);
    while (true) {
        for (size_t i = 0; i < n; ++i) { v[i] = alphabet[idx[i]]; e->getInputVariable(i)->setValue(v[i]); }
        e->process(); c.step();
        std::string d = verdict(e.e, s, v, c);
        if (!d.empty()) {
            std::string vs; for (double x : v) vs += vf::num(x) + " ";
            c.fail("activation-" + s.blocks[0].act, "degrees " + vs + ": " + d + "\n" + e->toString()); return;
        }
        uint64_t h = vf::hashStr(s.blocks[0].act); for (size_t i = 0; i < n; ++i) h = vf::mix(h, (uint64_t) e->getRuleBlock(0)->getRule(i)->isTriggered() + 2 * (uint64_t) std::llround(1e6 * (nan_(v[i]) ? -1 : e->getRuleBlock(0)->getRule(i)->getActivationDegree())));
        c.state(h);
        size_t k = 0; while (k < n && ++idx[k] == alphabet.size()) idx[k++] = 0;
        if (k == n) break;
    }
}
VF_SUITE(select) {   // all degree vectors, limits, thresholds, disabled rules
    ref::Block b; chooseMethod(c, b, 4, {0, 0.25, 0.5, 0.75, 1.0});
    ref::Engine s = ruleEngine(4, b);
    for (size_t i = 0; i < 4; ++i) s.blocks[0].rules[i].enabled = !c.flip();
    c.begin();
    allVectors(c, s, c.thorough ? DV{0, 0.25, 0.5, 0.75, 1, 0.1} : DV{0, 0.25, 0.5, 1, 0.75});
}
VF_SUITE(unloaded) {   // rules that are not loaded, weights, and degrees that are not a number
    ref::Block b; chooseMethod(c, b, 3, {0, 0.25, 0.5});
    ref::Engine s = ruleEngine(3, b);
    for (size_t i = 0; i < 3; ++i) { s.blocks[0].rules[i].loaded = !c.flip(); s.blocks[0].rules[i].weight = c.pick(DV{1, 0.5, 0}); }
    c.begin();
    allVectors(c, s, {0, 0.25, 0.5, 1, NaN});
}
VF_SUITE(larger) {   // more rules than usual limits
    ref::Block b; chooseMethod(c, b, 6, {0, 0.5});
    ref::Engine s = ruleEngine(c.thorough ? 7 : 6, b);
    int off = c.choose(7); if (off < 6) s.blocks[0].rules[(size_t) off].enabled = false;
    c.begin();
    allVectors(c, s, {0, 0.5, 1, 0.25});
}
VF_SUITE(default_method) {   // a block without method uses the general one, through every way of setting it
    int how = c.choose(2);
    ref::Block b; b.act = "General"; ref::Engine s = ruleEngine(3, b);
    c.begin();
    Guard e(bld::engine(s));
    if (how == 0) e->getRuleBlock(0)->setActivation(0);
    if (how == 1) e->configure("Minimum", "Maximum", "Minimum", "Maximum", "Centroid", "");
    DV al = {0, 0.5, 1};
    for (double x : al) for (double y : al) for (double z : al) {
        e->getInputVariable(0)->setValue(x); e->getInputVariable(1)->setValue(y); e->getInputVariable(2)->setValue(z);
        e->process(); c.step();
        std::string d = verdict(e.e, s, {x, y, z}, c);
        c.state(vf::hashStr(vf::cat(how, x, y, z)));
        if (!d.empty()) c.fail("default-activation", d);
    }
    c.expect(e->getRuleBlock(0)->getActivation() && e->getRuleBlock(0)->getActivation()->className() == "General", "default-activation-class", [] { return std::string("a block without activation method does not use General"); });
}
