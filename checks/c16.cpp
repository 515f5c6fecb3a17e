// C16: readiness names what is missing, and says ready only of engines that process; types follow the documented table; configure reaches every part.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
// shapes of the parts
struct O { const char* name; bool integral, weighted, terms, aggr; };
const O OUT[] = {{"full", true, false, true, true}, {"weighted", false, true, true, false}, {"noterms", true, false, false, true}, {"nodefuzz", false, false, true, true}, {"noaggr", true, false, true, false}, {"weightedAggr", false, true, true, true}, {"nothing", false, false, false, false}};
struct RuleShape { const char* ante; bool a, o; };
const RuleShape ANTE[] = {{"x is lo", false, false}, {"x is lo and x is hi", true, false}, {"x is lo or x is hi", false, true}, {"x is lo and x is hi or x is any", true, true}, {"x  is lo  and\tx is hi", true, false}, {"(x is lo)or(x is hi)", false, true}, {"(x is lo or x is hi)and x is not lo", true, true}, {"x is any", false, false}, {"x is lo\nand x is hi", true, false}};
}
VF_SUITE(ready) {
    int ni = c.choose(3); int no = c.choose(3); std::vector<int> ok; for (int i = 0; i < no; ++i) ok.push_back(c.choose(7)); bool nullOut = no == 1 && c.flip();
    int nb = c.choose(3); c.begin(); if (nb == 2 && (c.thorough ? no == 2 && (ni != 1 || ok[0] != 0) : ni != 1 || no != 1)) c.prune();
    struct B { std::vector<int> ante; std::vector<int> cons; bool conj, disj, impl; bool null = false; std::vector<int> state; }; std::vector<B> bs;
    for (int b = 0; b < nb; ++b) { B x; int nr = c.choose(nb == 2 ? 2 : 3); for (int r = 0; r < nr; ++r) { x.ante.push_back(nr == 2 ? (c.thorough && nb == 1 ? c.choose(9) : r == 0 ? 1 + c.choose(2) : 3 + c.choose(3)) : c.choose(9)); x.cons.push_back(no < 2 ? 0 : c.choose(c.thorough ? 4 : 3)); x.state.push_back(c.choose(nr == 1 ? 3 : 2)); }
        x.conj = !c.flip(); x.disj = !c.flip(); x.impl = !c.flip(); if (nr == 0 && !x.conj && !x.disj && !x.impl) x.null = c.flip(); bs.push_back(x); }
    bool nullIn = ni == 2 && nb < 2 && c.flip();
    int off = nb < 2 && no + ni > 0 ? c.choose(3) : 0;     // disabled parts are as ready or unready as enabled ones
    F::Engine e("eng"); Guard* g = 0; (void) g;
    for (int i = 0; i < ni; ++i) { F::InputVariable* v = new F::InputVariable(i ? "z" : "x", 0, 1); v->addTerm(new F::Ramp("lo", 1, 0)); v->addTerm(new F::Ramp("hi", 0, 1)); e.addInputVariable(v); }
    for (int i = 0; i < no; ++i) { const O& o = OUT[ok[(size_t) i]]; F::OutputVariable* v = new F::OutputVariable(i ? "q" : "p", 0, 1); if (o.terms) v->addTerm(o.weighted ? (F::Term*) new F::Constant("k", 0.5) : new F::Triangle("k", 0, 0.5, 1)); if (o.aggr) v->setAggregation(new F::Maximum); if (o.integral) v->setDefuzzifier(new F::Centroid(10)); if (o.weighted) v->setDefuzzifier(new F::WeightedAverage); e.addOutputVariable(v); }
    std::string want; auto line = [&](const std::string& s) { want += "- " + s + "\n"; };
    if (ni == 0) line("Engine <eng> has no input variables"); if (nullIn) line("Engine <eng> has a fl::null input variable at index <2>");
    if (no == 0) line("Engine <eng> has no output variables");
    for (int i = 0; i < no; ++i) { const O& o = OUT[ok[(size_t) i]]; std::string n = i ? "q" : "p"; if (!o.terms) line("Output variable <" + n + "> has no terms"); if (!o.integral && !o.weighted) line("Output variable <" + n + "> has no defuzzifier"); if (o.integral && !o.aggr) line("Output variable <" + n + "> has no aggregation operator"); }
    if (nullOut) line("Engine <eng> has a fl::null output variable at index <1>");
    if (nb == 0) line("Engine <eng> has no rule blocks");
    bool needMissing = false, active = false;   // an enabled loaded rule needs an operator that is missing
    for (int b = 0; b < nb; ++b) {
        B& x = bs[(size_t) b]; std::string id = vf::cat("Rule block ", b + 1, " <b", b, ">"); if (x.null) { e.ruleBlocks().push_back(0); line(vf::cat("Engine <eng> has a fl::null rule block at index <", b, ">")); continue; }
        F::RuleBlock* rb = new F::RuleBlock(vf::cat("b", b)); rb->setActivation(new F::General); if (x.conj) rb->setConjunction(new F::Minimum); if (x.disj) rb->setDisjunction(new F::Maximum); if (x.impl) rb->setImplication(new F::Minimum); e.addRuleBlock(rb);
        if (x.ante.empty()) line(id + " has no rules"); int rc = 0, rd = 0, ri = 0;
        for (size_t r = 0; r < x.ante.size(); ++r) {
            const RuleShape& a = ANTE[x.ante[r]]; int k = x.cons[r]; std::string co = k == 0 ? "p is k" : k == 1 ? "q is k" : k == 2 ? "p is k and q is k" : "q is very k and p is k"; std::string text = std::string("if ") + a.ante + " then " + co + (r ? " with 0.5" : "");
            F::Rule* rule = new F::Rule(text); bool loadable = ni > 0 && no > 0; if (no) for (int o = 0; o < no; ++o) if (!OUT[ok[(size_t) o]].terms && (k >= 2 || k == o)) loadable = false; bool loaded = false; if (x.state[r] != 2) { try { rule->load(&e); loaded = true; } catch (F::Exception&) {} } if (x.state[r] == 1) rule->setEnabled(false); rb->addRule(rule);
            c.expect(loaded == (loadable && x.state[r] != 2), "load", [&] { return "loading <" + text + ">"; });
            rc += a.a; rd += a.o; bool integral = false; if (loaded) { for (int o = 0; o < no; ++o) if ((k >= 2 || k == o) && OUT[ok[(size_t) o]].integral) integral = true; ri += integral; }
            if (loaded) { active = active || x.state[r] == 0; if ((a.a && !x.conj) || (a.o && !x.disj)) needMissing = true; if (x.state[r] == 0) for (int o = 0; o < no; ++o) if ((k >= 2 || k == o) && ((OUT[ok[(size_t) o]].integral && (!x.impl || !OUT[ok[(size_t) o]].aggr)))) needMissing = true; }
        }
        auto op = [&](bool has, int n, const std::string& o) { if (n && !has) { line(id + " has no " + o + " operator"); line(vf::cat(id, " has ", n, " rules that require ", o, " operator")); } }; op(x.conj, rc, "conjunction"); op(x.disj, rd, "disjunction"); op(x.impl, ri, "implication");
    }
    if (off == 1) for (F::OutputVariable* v : e.outputVariables()) v->setEnabled(false);
    if (off == 2) { for (F::InputVariable* v : e.inputVariables()) v->setEnabled(false); for (F::RuleBlock* b : e.ruleBlocks()) if (b) b->setEnabled(false); }
    if (nullIn) e.inputVariables().push_back(0); if (nullOut) e.outputVariables().push_back(0);
    std::string got = "garbage"; bool r1 = e.isReady(&got), r2 = e.isReady(); c.step(2); c.describe([&] { return got; }); c.state(got);
    if (nullIn) e.inputVariables().pop_back(); if (nullOut) e.outputVariables().pop_back(); for (size_t i = e.ruleBlocks().size(); i-- > 0;) if (!e.ruleBlocks()[i]) e.ruleBlocks().erase(e.ruleBlocks().begin() + (long) i);
    c.expect(r1 == want.empty() && r2 == r1, "ready", [&] { return vf::cat("the engine is ", r1 ? "ready" : "not ready", ", expected <", want, ">:\n", F::FllExporter().toString(&e)); }); c.expect(got == want, "status", [&] { return "the status is\n" + got + "expected\n" + want; });
    // only ready engines process; ready engines process every input
    bool isNull = nullIn || nullOut; for (auto& b : bs) isNull = isNull || b.null; if (isNull) return;
    for (double x : {0.3, NaN, 0.0, 7.0}) { bool threw = false; std::string w; if (ni) e.getInputVariable((size_t) 0)->setValue(x); try { e.process(); } catch (F::Exception& ex) { threw = true; w = ex.getWhat(); } c.step(); if (r1) c.expect(!threw, "ready-but-fails", [&] { return vf::cat("the engine is ready, but processing ", x, " fails: ", w, "\n", F::FllExporter().toString(&e)); }); if (needMissing && !off && x == 0.3) c.expect(threw, "missing-operator-ignored", [&] { return "an operator is missing, and processing goes on without it:\n" + F::FllExporter().toString(&e); }); }
}
VF_SUITE(types) {
    struct K { const char* defuzz; const char* type; int terms; }; static std::vector<K> ks; if (ks.empty()) { ks.push_back({"", "", 0}); for (const char* d : {"Centroid", "Bisector", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}) ks.push_back({d, "", 4}); ks.push_back({"Centroid", "", 1}); for (const char* d : {"WeightedAverage", "WeightedSum"}) for (const char* t : {"Automatic", "TakagiSugeno", "Tsukamoto"}) for (int k = 0; k < 12; ++k) ks.push_back({d, t, k}); }
    // kinds of term sets: 0 none 1 constant 2 linear+function 3 monotonic 4 triangle 5 constant+monotonic 6 triangle+constant ...; 7.. single monotonic classes
    static const std::vector<SV> TS = {{}, {"Constant"}, {"Linear", "Function"}, {"Ramp", "Sigmoid"}, {"Triangle"}, {"Constant", "Ramp"}, {"Triangle", "Constant"}, {"Concave"}, {"SShape"}, {"ZShape"}, {"Binary"}, {"Ramp", "Bell"}};
    int no = c.choose(c.thorough ? 4 : 3); std::vector<int> ix; for (int i = 0; i < no; ++i) { int m = (int) ks.size(); ix.push_back(i == 2 ? 7 * c.choose(m / 7) : c.choose(m)); if (i == 0) c.begin(); } if (!no) c.begin();
    int nb = c.choose(3); SV impl; for (int b = 0; b < nb; ++b) impl.push_back(c.pick(SV{"", "AlgebraicProduct", "Minimum"}));
    F::Engine e("eng"); for (int i = 0; i < no; ++i) { const K& k = ks[(size_t) ix[(size_t) i]]; F::OutputVariable* v = new F::OutputVariable(vf::cat("o", i), 0, 1); for (auto& t : TS[(size_t) k.terms]) { F::Term* x = F::FactoryManager::instance()->term()->constructObject(t); x->setName(t); v->addTerm(x); } F::Defuzzifier* d = *k.defuzz ? F::FactoryManager::instance()->defuzzifier()->constructObject(k.defuzz) : 0; if (*k.type) dynamic_cast<F::WeightedDefuzzifier*>(d)->setType(std::string(k.type)); v->setDefuzzifier(d); e.addOutputVariable(v); }
    for (auto& i : impl) { F::RuleBlock* rb = new F::RuleBlock; rb->setImplication(bld::tnorm(i)); e.addRuleBlock(rb); }
    bool allI = no > 0, allW = no > 0, any0 = false, ts = true, tk = true; for (int i : ix) { const K& k = ks[(size_t) i]; bool w = *k.type, in = *k.defuzz && !w; any0 = any0 || !*k.defuzz; allI = allI && in; allW = allW && w; std::string t = k.type; for (auto& x : TS[(size_t) k.terms]) { if (x != "Constant" && x != "Linear" && x != "Function") ts = false; if (!ref::monotonic(x)) tk = false; } ts = ts && (t == "Automatic" || t == "TakagiSugeno"); tk = tk && (t == "Automatic" || t == "Tsukamoto"); }
    bool lar = allI && nb > 0; for (auto& i : impl) lar = lar && i == "AlgebraicProduct";
    F::Engine::Type want = !no || any0 ? F::Engine::Unknown : lar ? F::Engine::Larsen : allI ? F::Engine::Mamdani : allW && ts ? F::Engine::TakagiSugeno : allW && tk ? F::Engine::Tsukamoto : allW ? F::Engine::InverseTsukamoto : F::Engine::Hybrid;
    const char* N[] = {"Mamdani", "Larsen", "Takagi-Sugeno", "Tsukamoto", "Inverse Tsukamoto", "Hybrid", "Unknown"}; std::string name, reason; F::Engine::Type t = e.type(&name, &reason); c.step(); c.describe([&] { return name + reason; }); c.state(vf::cat(name, no, any0, allI, allW, ts, tk));
    c.expect(t == want && e.type() == t, "type", [&] { return vf::cat("the type is ", name, ", expected ", N[(int) want], ":\n", F::FllExporter().toString(&e)); }); c.expect(name == N[(int) t] && !reason.empty(), "type-name", [&] { return "the name of the type is " + name; });
}
VF_SUITE(configure) {     // every operator given reaches every block and output variable, as an object of its own; unknown ones change nothing
    SV tn(NAMES(TNORMS)), sn(NAMES(SNORMS)), df(NAMES(DEFUZZIFIERS)), ac(NAMES(ACTIVATIONS)); for (SV* v : {&tn, &sn, &df, &ac}) { v->push_back(""); v->push_back("Nonsense"); }
    bool objects = c.flip(); std::string p[6]; int focus = c.choose(7); for (int i = 0; i < 6; ++i) { const SV& v = i == 0 || i == 2 ? tn : i == 1 || i == 3 ? sn : i == 4 ? df : ac; bool deep = focus == i || focus == (i + 1) % 6 || (focus == 6 && i < 2); int k = deep ? c.choose((int) v.size()) : c.choose(2) ? (int) v.size() - 2 : 1; p[i] = v[(size_t) k]; if (i == 1) c.begin(); }
    bool bad = false; for (auto& x : p) bad = bad || x == "Nonsense"; if (bad && objects) c.prune();
    F::Engine e("eng"); for (int i = 0; i < 2; ++i) { e.addInputVariable(new F::InputVariable(vf::cat("i", i))); e.addOutputVariable(new F::OutputVariable(vf::cat("o", i))); e.addRuleBlock(new F::RuleBlock(vf::cat("b", i))); }
    e.configure("Minimum", "Maximum", "AlgebraicProduct", "AlgebraicSum", "Bisector", "Threshold"); std::string before = F::FllExporter().toString(&e); bool threw = false;
    try { if (objects) { F::FactoryManager* f = F::FactoryManager::instance(); e.configure(p[0].empty() ? 0 : f->tnorm()->constructObject(p[0]), p[1].empty() ? 0 : f->snorm()->constructObject(p[1]), p[2].empty() ? 0 : f->tnorm()->constructObject(p[2]), p[3].empty() ? 0 : f->snorm()->constructObject(p[3]), p[4].empty() ? 0 : f->defuzzifier()->constructObject(p[4]), p[5].empty() ? 0 : f->activation()->constructObject(p[5])); } else e.configure(p[0], p[1], p[2], p[3], p[4], p[5]); } catch (F::Exception&) { threw = true; } c.step();
    std::string id; for (auto& x : p) id += "<" + x + ">"; c.expect(threw == bad, "configure-refused", [&] { return "configuring " + id + (threw ? " is refused" : " is not refused"); });
    if (threw) { c.expect(F::FllExporter().toString(&e) == before, "configure-partly", [&] { return "configuring " + id + " is refused, and yet changed the engine"; }); return; }
    auto nm = [](const auto* x) { return x ? x->className() : std::string(); }; std::set<const void*> ptr; size_t n = 0; auto own = [&](const void* x) { if (x) { ptr.insert(x); ++n; } };
    for (size_t i = 0; i < 2; ++i) { F::RuleBlock* b = e.getRuleBlock(i); F::OutputVariable* o = e.getOutputVariable(i); own(b->getConjunction()); own(b->getDisjunction()); own(b->getImplication()); own(o->getAggregation()); own(o->getDefuzzifier()); own(b->getActivation());
        c.expect(nm(b->getConjunction()) == p[0] && nm(b->getDisjunction()) == p[1] && nm(b->getImplication()) == p[2] && nm(o->getAggregation()) == p[3] && nm(o->getDefuzzifier()) == p[4] && nm(b->getActivation()) == (p[5].empty() ? "General" : p[5]), "configure", [&] { return "configuring " + id + " gives\n" + F::FllExporter().toString(&e); }); }
    c.expect(ptr.size() == n, "configure-shares", [&] { return "configuring " + id + " shares an object between parts"; }); c.state(id);
}
