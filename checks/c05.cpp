// C05: copies of engines are complete, equivalent and independent.
#include "ops.h"
using namespace ref;
static const int METHODS = 9;
static const char* const METHOD[] = {"copy constructor", "clone", "assignment to an empty engine", "assignment to another engine", "copy of a copy", "assignment after the target processed", "move of a copy", "move of a copy over an engine", "copies in a growing vector"};
static fuzzylite::Engine* copyOf(fuzzylite::Engine* e, int how, int fam) {
    using namespace fuzzylite;
    if (how == 0) return new fuzzylite::Engine(*e);
    if (how == 1) return e->clone();
    if (how == 2) { fuzzylite::Engine* r = new fuzzylite::Engine; *r = *e; return r; }
    if (how == 6) { fuzzylite::Engine t(*e); return new fuzzylite::Engine(std::move(t)); }
    if (how == 8) { std::vector<fuzzylite::Engine> v; for (int i = 0; i < 3; ++i) v.push_back(*e); return new fuzzylite::Engine(std::move(v[0])); }
    if (how == 4) { std::unique_ptr<fuzzylite::Engine> t(e->clone()); return t->clone(); }
    fuzzylite::Engine* r = bld::engine(ops::family((fam + 1) % 3));
    if (how == 5) { r->setInputValue("a", 0.4); r->setInputValue("b", 0.6); r->process(); }
    if (how == 7) { fuzzylite::Engine t(*e); *r = std::move(t); return r; }
    *r = *e; return r;
}
// every pointer the copy holds refers to the copy
static std::string selfContained(fuzzylite::Engine* e) {
    std::set<const void*> terms, norms, vars;
    for (auto* v : e->variables()) { vars.insert(v); for (auto* t : v->terms()) terms.insert(t); }
    for (auto* b : e->ruleBlocks()) { norms.insert(b->getImplication()); for (auto* r : b->rules()) if (r->isLoaded()) for (auto* p : r->getConsequent()->conclusions()) { if (!vars.count(p->variable)) return "a conclusion refers to a variable of another engine"; if (!terms.count(p->term)) return "a conclusion refers to a term of another engine"; } }
    for (auto* o : e->outputVariables()) for (auto& a : o->fuzzyOutput()->terms()) { if (!terms.count(a.getTerm())) return "the fuzzy output refers to a term of another engine"; if (a.getImplication() && !norms.count(a.getImplication())) return "the fuzzy output refers to an operator of another engine"; }
    for (auto* v : e->variables()) for (auto* t : v->terms()) {
        if (auto* f = dynamic_cast<fuzzylite::Function*>(t)) if (f->getEngine() != e) return "a function refers to another engine";
        if (auto* l = dynamic_cast<fuzzylite::Linear*>(t)) if (l->getEngine() != e) return "a linear term refers to another engine";
    }
    return "";
}
static std::string observe(const fuzzylite::Engine* e) {   // everything a user can read off an engine
    std::ostringstream o; o << e->toString() << "\n";
    for (auto* v : e->inputVariables()) o << vf::num(v->getValue()) << " " << v->isEnabled() << v->isLockValueInRange() << v->getDescription() << "; ";
    for (auto* v : e->outputVariables()) o << vf::num(v->getValue()) << " " << vf::num(v->getPreviousValue()) << " " << v->fuzzyOutputValue() << " " << v->fuzzyOutput()->toString() << " [" << vf::num(v->fuzzyOutput()->getMinimum()) << "," << vf::num(v->fuzzyOutput()->getMaximum()) << "] " << v->fuzzyOutput()->getName() << v->isLockPreviousValue() << vf::num(v->getDefaultValue()) << v->getDescription() << "; ";
    for (auto* b : e->ruleBlocks()) { o << b->isEnabled() << b->getDescription(); for (auto* r : b->rules()) o << r->isEnabled() << vf::num(r->getWeight()) << r->getText() << "; "; }
    for (auto* v : e->variables()) for (auto* t : v->terms()) o << t->className() << t->getName() << vf::num(t->getHeight()) << t->parameters() << "; ";
    return o.str();
}
static bool loadedAll(const Sys& y) { for (auto& b : y.s.blocks) for (auto& r : b.rules) if (!r.loaded) return false; return true; }
static void noRuleState(Sys& y) { for (size_t b = 0; b < y.s.blocks.size(); ++b) for (size_t r = 0; r < y.s.blocks[b].rules.size(); ++r) { y.st.degree[b][r] = 0; y.st.triggered[b][r] = false; } }

#ifdef __SANITIZE_ADDRESS__
static const bool SAN = true;    // memory errors and undefined behaviour are detected: fewer operations, same structure
#else
static const bool SAN = false;
#endif
static int opOf(vf::Ctx& c, int i) { if ((!SAN && i == 0) || c.thorough) return c.choose(ops::N); static const int S[] = {0, 1, 4, 9, 12, 14, 19}; return S[c.choose(7)]; }
static void run(vf::Ctx& c, int pre, int post) {
    int fam = c.choose(3), how = c.choose(pre > 1 && !c.thorough ? 6 : METHODS); if (how > 5) post = 1; std::string log = vf::cat("family ", fam, ": "), err;
    Sys a; a.init(ops::family(fam));
    for (int i = 0; i < pre; ++i) { int op = opOf(c, i); if (i == 0) c.begin(); log += ops::apply(a, op, err) + "; "; c.step(); }
    if (!loadedAll(a)) c.prune();   // a copy loads its rules; rules the user unloaded are outside this property
    std::string before = observe(a.e.get());
    Sys b; b.adopt(a, copyOf(a.e.get(), how, fam)); c.step(); noRuleState(b); log += vf::cat("B=", METHOD[how], "; ");
    c.expect(observe(a.e.get()) == before, "copying-changes-the-original", [&] { return log + before + "\n---\n" + observe(a.e.get()); });
    c.expect(observe(b.e.get()) == before, "copy-differs", [&] { return log + "original: " + before + "\n--- copy:\n" + observe(b.e.get()); });
    std::string sc = selfContained(b.e.get()); c.expect(sc.empty(), "copy-not-self-contained", [&] { return log + sc; });
    if (c.failed) return;
    // fuzzy output of the copy answers queries on its own, also when the original is gone
    bool gone = false;
    for (int i = 0; i < post; ++i) {
        // 0..N-1: operate on the copy; N: operate on the original; N+1: destroy the original; N+2: self-assignment of the copy
        int w = c.choose(4);
        if (w == 0) { int op = opOf(c, i); std::string other = gone ? "" : observe(a.e.get()); log += "B." + ops::apply(b, op, err) + "; "; if (!gone) c.expect(observe(a.e.get()) == other, "copy-affects-original", [&] { return log + other + "\n---\n" + observe(a.e.get()); }); }
        else if (w == 1) { if (gone) c.prune(); int op = opOf(c, i); std::string other = observe(b.e.get()); log += "A." + ops::apply(a, op, err) + "; "; c.expect(observe(b.e.get()) == other, "original-affects-copy", [&] { return log + other + "\n---\n" + observe(b.e.get()); }); }
        else if (w == 2) { if (gone) c.prune(); std::string other = observe(b.e.get()); a.e.reset(); gone = true; log += "destroy A; "; for (size_t o = 0; o < b.s.out.size(); ++o) { auto* f = b.e->getOutputVariable(o)->fuzzyOutput(); for (auto& t : f->terms()) { try { t.membership(0.3); } catch (fuzzylite::Exception&) {} } } c.expect(observe(b.e.get()) == other, "copy-depends-on-original", [&] { return log; }); }
        else { std::string other = observe(b.e.get()); fuzzylite::Engine* same = b.e.get(); *b.e = *same; log += "B=B; "; c.expect(observe(b.e.get()) == other, "self-assignment", [&] { return log; }); }
        c.step();
        std::string d = ops::diff(b, c); if (!d.empty()) c.fail("copy-misbehaves", log + d + b.e->toString());
        if (!gone) { d = ops::diff(a, c); if (!d.empty()) c.fail("original-misbehaves", log + d + a.e->toString()); }
        if (!err.empty()) c.fail("operation", log + err);
        c.state(vf::mix(ops::hash(a), ops::hash(b)));
        if (c.failed) return;
        if (a.st.ambiguous || b.st.ambiguous) return;
    }
    c.describe([&] { return log; });
}
VF_SUITE(histories) { run(c, c.thorough && !SAN ? 2 : 1, 2); }
VF_SUITE(before) { run(c, 2, 1); }

// Copies of the parts: variables, rule blocks, rules, terms, operators
VF_SUITE(parts) {
    int what = c.choose(5), fam = c.choose(3), op = c.choose(ops::N), assign = c.choose(2);
    c.begin();
    Sys a; a.init(ops::family(fam)); std::string err; ops::apply(a, 0, err); std::string log = vf::cat("family ", fam, " after ", ops::apply(a, op, err)); c.step(3);
    fuzzylite::Engine* e = a.e.get();
    if (what == 0) for (auto* v : e->inputVariables()) {
        fuzzylite::InputVariable other("other", 5, 6); other.addTerm(new fuzzylite::Ramp("z", 1, 2)); if (assign) other = *v;
        std::unique_ptr<fuzzylite::InputVariable> k(assign ? new fuzzylite::InputVariable(other) : v->clone());
        c.expect(k->toString() == v->toString() && vf::near(k->getValue(), v->getValue()) && k->fuzzyInputValue() == v->fuzzyInputValue(), "input-copy", [&] { return log + k->toString(); });
        std::string t = v->toString(); k->setName("zz"); k->setRange(-9, 9); if (k->numberOfTerms()) k->getTerm((size_t) 0)->configure("0.1 0.2 0.3 0.4"); k->setValue(3); c.expect(v->toString() == t, "input-copy-shares", [&] { return log; });
    }
    if (what == 1) for (auto* v : e->outputVariables()) {
        fuzzylite::OutputVariable other("other", 5, 6); other.addTerm(new fuzzylite::Ramp("z", 1, 2)); other.setDefuzzifier(new fuzzylite::Bisector); other.setAggregation(new fuzzylite::Maximum); if (assign) other = *v;
        std::unique_ptr<fuzzylite::OutputVariable> k(assign ? new fuzzylite::OutputVariable(other) : v->clone());
        c.expect(k->toString() == v->toString() && vf::near(k->getValue(), v->getValue()) && vf::near(k->getPreviousValue(), v->getPreviousValue()) && k->fuzzyOutputValue() == v->fuzzyOutputValue() && k->fuzzyOutput()->toString() == v->fuzzyOutput()->toString(), "output-copy", [&] { return log + k->toString() + v->toString(); });
        for (size_t t = 0; t < k->fuzzyOutput()->numberOfTerms(); ++t) { bool own = false; for (auto* x : k->terms()) own = own || x == k->fuzzyOutput()->getTerm(t).getTerm(); c.expect(own, "output-copy-refers-elsewhere", [&] { return log; }); }
        std::string t = v->toString(), f = v->fuzzyOutputValue(); k->setName("zz"); k->setRange(-9, 9); k->fuzzyOutput()->clear(); k->setDefaultValue(44); k->setValue(3); c.expect(v->toString() == t && v->fuzzyOutputValue() == f, "output-copy-shares", [&] { return log; });
    }
    if (what == 2) for (auto* b : e->ruleBlocks()) {
        fuzzylite::RuleBlock other("other"); other.addRule(new fuzzylite::Rule("if z is z then z is z")); other.setActivation(new fuzzylite::Highest(2)); other.setConjunction(new fuzzylite::Minimum); other.setImplication(new fuzzylite::Minimum); other.setDisjunction(new fuzzylite::Maximum); if (assign) other = *b;
        std::unique_ptr<fuzzylite::RuleBlock> k(assign ? new fuzzylite::RuleBlock(other) : b->clone());
        c.expect(k->toString() == b->toString() && k->numberOfRules() == b->numberOfRules(), "block-copy", [&] { return log + k->toString() + b->toString(); });
        for (size_t r = 0; r < b->numberOfRules(); ++r) c.expect(k->getRule(r)->isEnabled() == b->getRule(r)->isEnabled() && vf::near(k->getRule(r)->getWeight(), b->getRule(r)->getWeight()) && k->getRule(r)->getText() == b->getRule(r)->getText() && !k->getRule(r)->isLoaded(), "block-copy-rules", [&] { return log; });
        std::string t = b->toString(); k->setName("zz"); k->getRule(0)->setText("x"); delete k->removeRule(1); k->setConjunction(0); c.expect(b->toString() == t, "block-copy-shares", [&] { return log; });
    }
    if (what == 3) for (auto* v : e->variables()) for (auto* t : v->terms()) {
        std::unique_ptr<fuzzylite::Term> k(t->clone());
        bool same = k->toString() == t->toString() && k->className() == t->className() && k->isMonotonic() == t->isMonotonic() && vf::near(k->getHeight(), t->getHeight());
        c.expect(same, "term-copy", [&] { return log + t->toString() + k->toString(); });
        for (double x : {-0.5, 0.0, 0.3, 0.5, 1.0, 1.7}) c.expect(vf::near(k->membership(x), t->membership(x)), "term-copy-membership", [&] { return log + t->toString(); });
        std::string before = t->toString(); double m = t->membership(0.4); k->setName("zz"); k->setHeight(0.25); try { k->configure("0.1 0.9 0.9 0.95"); } catch (fuzzylite::Exception&) {} k.reset(); c.expect(t->toString() == before && vf::near(t->membership(0.4), m), "term-copy-shares", [&] { return log + before + t->toString(); });
    }
    if (what == 4) for (auto* b : e->ruleBlocks()) { std::unique_ptr<fuzzylite::Activation> k(b->getActivation()->clone()); c.expect(k->className() == b->getActivation()->className() && k->parameters() == b->getActivation()->parameters(), "activation-copy", [&] { return log; });
        for (auto* o : e->outputVariables()) { std::unique_ptr<fuzzylite::Defuzzifier> d(o->getDefuzzifier()->clone()); c.expect(fuzzylite::FllExporter().toString(d.get()) == fuzzylite::FllExporter().toString(o->getDefuzzifier()), "defuzzifier-copy", [&] { return log; }); } }
    c.state(vf::cat(what, fam, op, assign));
    c.describe([&] { return log + vf::cat(" part ", what); });
}
// What the original lacks, the copy lacks too, whatever the target of an assignment had
VF_SUITE(lacking) {
    using namespace fuzzylite; int what = c.choose(4), mask = c.choose(16), target = c.choose(16), how = c.choose(3); c.begin(); std::string bad; c.step();
    auto bit = [](int m, int i) { return (m >> i) & 1; };
    if (what == 0) {
        auto fill = [&](fuzzylite::OutputVariable& v, int m) { if (bit(m, 0)) v.setDefuzzifier(new Centroid(7)); if (bit(m, 1)) v.setAggregation(new Maximum); if (bit(m, 2)) v.addTerm(new Ramp("r", 0, 1)); if (bit(m, 3)) { v.setDescription("described"); v.setDefaultValue(0.5); v.setPreviousValue(0.25); v.setLockPreviousValue(true); v.setLockValueInRange(true); v.setEnabled(false); } };
        fuzzylite::OutputVariable a("a", 0, 1), b("b", -1, 2); fill(a, mask); fill(b, target); if (how == 0) b = a; else if (how == 1) b = fuzzylite::OutputVariable(a); else { std::unique_ptr<fuzzylite::OutputVariable> k(a.clone()); b = std::move(*k); }
        if ((b.getDefuzzifier() != 0) != bit(mask, 0)) bad += "defuzzifier; "; if ((b.getAggregation() != 0) != bit(mask, 1)) bad += "aggregation; "; if ((int) b.numberOfTerms() != bit(mask, 2)) bad += "terms; "; if (b.toString() != a.toString() || !vf::near(b.getPreviousValue(), a.getPreviousValue()) || b.getDescription() != a.getDescription()) bad += "settings; ";
    } else if (what == 1) {
        auto fill = [&](fuzzylite::RuleBlock& v, int m) { if (bit(m, 0)) v.setConjunction(new Minimum); if (bit(m, 1)) v.setDisjunction(new Maximum); if (bit(m, 2)) v.setImplication(new AlgebraicProduct); if (bit(m, 3)) { v.setActivation(new Highest(2)); v.addRule(new fuzzylite::Rule("if a is b then c is d")); v.setEnabled(false); v.setDescription("d"); } };
        fuzzylite::RuleBlock a("a"), b("b"); fill(a, mask); fill(b, target); if (how == 0) b = a; else if (how == 1) b = fuzzylite::RuleBlock(a); else { std::unique_ptr<fuzzylite::RuleBlock> k(a.clone()); b = std::move(*k); }
        if ((b.getConjunction() != 0) != bit(mask, 0)) bad += "conjunction; "; if ((b.getDisjunction() != 0) != bit(mask, 1)) bad += "disjunction; "; if ((b.getImplication() != 0) != bit(mask, 2)) bad += "implication; "; if ((b.getActivation() != 0) != bit(mask, 3) || (int) b.numberOfRules() != bit(mask, 3)) bad += "activation or rules; "; if (b.toString() != a.toString()) bad += "settings; ";
    } else if (what == 2) {
        Ramp r("r", 0, 1); auto fill = [&](Aggregated& v, int m) { if (bit(m, 0)) v.setAggregation(new Maximum); for (int i = 0; i < (m >> 1) % 3; ++i) v.addTerm(&r, 0.5, 0); if (bit(m, 3)) v.setRange(-3, 4); };
        Aggregated a("a", 0, 1), b("b", -1, 2); fill(a, mask); fill(b, target); if (how == 0) b = a; else if (how == 1) b = Aggregated(a); else { std::unique_ptr<Aggregated> k(a.clone()); b = std::move(*k); }
        if ((b.getAggregation() != 0) != bit(mask, 0)) bad += "aggregation; "; if (b.numberOfTerms() != a.numberOfTerms()) bad += "terms; "; if (b.getName() != "a" || b.toString() != a.toString() || b.getMinimum() != a.getMinimum() || b.getMaximum() != a.getMaximum()) bad += "settings; ";
    } else {
        auto fill = [&](fuzzylite::Engine& v, int m) { if (bit(m, 0)) v.addInputVariable(new fuzzylite::InputVariable("i", 0, 1)); if (bit(m, 1)) v.addOutputVariable(new fuzzylite::OutputVariable("o", 0, 1)); if (bit(m, 2)) v.addRuleBlock(new fuzzylite::RuleBlock("r")); if (bit(m, 3)) { v.setName("named"); v.setDescription("described"); } };
        fuzzylite::Engine a, b; fill(a, mask); fill(b, target); if (how == 0) b = a; else if (how == 1) b = fuzzylite::Engine(a); else { std::unique_ptr<fuzzylite::Engine> k(a.clone()); b = std::move(*k); }
        if (b.toString() != a.toString() || b.getDescription() != a.getDescription() || b.getName() != a.getName() || b.numberOfInputVariables() != a.numberOfInputVariables() || b.numberOfOutputVariables() != a.numberOfOutputVariables() || b.numberOfRuleBlocks() != a.numberOfRuleBlocks()) bad += "settings; ";
    }
    static const char* const W[] = {"output variable", "rule block", "fuzzy output", "engine"}; static const char* const H[] = {"assignment", "assignment of a temporary", "moving a clone"};
    c.expect(bad.empty(), "copy-of-what-lacks", [&] { return vf::cat(H[how], " of the ", W[what], " with parts ", mask, " over one with parts ", target, ": ", bad, " differ"); }); c.state(vf::cat(what, " ", mask, " ", target, " ", how));
}
