// C17: engines, variables and rule blocks hold their parts as ordered lists; rules load, unload and fail on their own.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
template <class T> std::string nameOf(T* x) { return x->getName(); }
std::string nameOf(F::Rule* x) { return x->getText(); }
template <class T> void rename(T* x, const std::string& n) { x->setName(n); }
void rename(F::Rule* x, const std::string& n) { x->setText(n); }
F::InputVariable* make(F::InputVariable*, const std::string& n) { F::InputVariable* v = new F::InputVariable(n); v->addTerm(new F::Constant("k", 1)); return v; }
F::OutputVariable* make(F::OutputVariable*, const std::string& n) { F::OutputVariable* v = new F::OutputVariable(n); v->setDefuzzifier(new F::Centroid); return v; }
F::RuleBlock* make(F::RuleBlock*, const std::string& n) { F::RuleBlock* b = new F::RuleBlock(n); b->setConjunction(new F::Minimum); return b; }
F::Term* make(F::Term*, const std::string& n) { return new F::Triangle(n, 0, 1, 2); }
F::Rule* make(F::Rule*, const std::string& n) { return new F::Rule(n); }
// the five collections behind one interface; returns false where there is no such operation
struct Inputs { typedef F::InputVariable P; F::Engine o; void add(P* x) { o.addInputVariable(x); } void ins(P* x, size_t i) { o.insertInputVariable(x, i); } bool set(P* x, size_t i, P** old) { *old = o.setInputVariable(x, i); return true; } P* at(size_t i) { return o.getInputVariable(i); } bool by(const std::string& n, P** p) { *p = o.getInputVariable(n); return true; } bool has(const std::string& n, bool* b) { *b = o.hasInputVariable(n); return true; } P* rem(size_t i) { return o.removeInputVariable(i); } bool remn(const std::string& n, P** p) { *p = o.removeInputVariable(n); return true; } size_t size() { return o.numberOfInputVariables(); } std::vector<P*> all() { return o.inputVariables(); } void setAll(const std::vector<P*>& v) { o.setInputVariables(v); } std::string extra(const std::vector<P*>& l) { std::vector<F::Variable*> v = o.variables(); if (v.size() != l.size()) return "variables() has another size"; for (size_t i = 0; i < l.size(); ++i) if (v[i] != l[i]) return "variables() has another order"; for (size_t i = 0; i < l.size(); ++i) { bool first = true; for (size_t j = 0; j < i; ++j) first = first && l[j]->getName() != l[i]->getName(); o.setInputValue(l[i]->getName(), 7.0 + (double) i); if (first && l[i]->getValue() != 7.0 + (double) i) return "setInputValue sets another variable"; } return ""; } };
struct Outputs { typedef F::OutputVariable P; F::Engine o; Outputs() { o.addInputVariable(make((F::InputVariable*) 0, "a")); } void add(P* x) { o.addOutputVariable(x); } void ins(P* x, size_t i) { o.insertOutputVariable(x, i); } bool set(P* x, size_t i, P** old) { *old = o.setOutputVariable(x, i); return true; } P* at(size_t i) { return o.getOutputVariable(i); } bool by(const std::string& n, P** p) { *p = o.getOutputVariable(n); return true; } bool has(const std::string& n, bool* b) { *b = o.hasOutputVariable(n); return true; } P* rem(size_t i) { return o.removeOutputVariable(i); } bool remn(const std::string& n, P** p) { *p = o.removeOutputVariable(n); return true; } size_t size() { return o.numberOfOutputVariables(); } std::vector<P*> all() { return o.outputVariables(); } void setAll(const std::vector<P*>& v) { o.setOutputVariables(v); } std::string extra(const std::vector<P*>& l) { std::vector<F::Variable*> v = o.variables(); if (v.size() != l.size() + 1 || v[0] != o.getInputVariable((size_t) 0)) return "variables() has another size"; for (size_t i = 0; i < l.size(); ++i) if (v[i + 1] != l[i]) return "variables() has another order"; for (size_t i = l.size(); i-- > 0;) l[i]->setValue(3.0 + (double) i); for (size_t i = 0; i < l.size(); ++i) { size_t f = i; for (size_t j = i; j-- > 0;) if (l[j]->getName() == l[i]->getName()) f = j; if (o.getOutputValue(l[i]->getName()) != 3.0 + (double) f) return "getOutputValue reads another variable"; } return ""; } };
struct Blocks { typedef F::RuleBlock P; F::Engine o; void add(P* x) { o.addRuleBlock(x); } void ins(P* x, size_t i) { o.insertRuleBlock(x, i); } bool set(P* x, size_t i, P** old) { *old = o.setRuleBlock(x, i); return true; } P* at(size_t i) { return o.getRuleBlock(i); } bool by(const std::string& n, P** p) { *p = o.getRuleBlock(n); return true; } bool has(const std::string& n, bool* b) { *b = o.hasRuleBlock(n); return true; } P* rem(size_t i) { return o.removeRuleBlock(i); } bool remn(const std::string& n, P** p) { *p = o.removeRuleBlock(n); return true; } size_t size() { return o.numberOfRuleBlocks(); } std::vector<P*> all() { return o.ruleBlocks(); } void setAll(const std::vector<P*>& v) { o.setRuleBlocks(v); } std::string extra(const std::vector<P*>&) { return o.variables().empty() ? "" : "there are variables"; } };
struct Terms { typedef F::Term P; F::OutputVariable o; void add(P* x) { o.addTerm(x); } void ins(P* x, size_t i) { o.insertTerm(x, i); } bool set(P*, size_t, P**) { return false; } P* at(size_t i) { return o.getTerm(i); } bool by(const std::string& n, P** p) { *p = o.getTerm(n); return true; } bool has(const std::string& n, bool* b) { *b = o.hasTerm(n); return true; } P* rem(size_t i) { return o.removeTerm(i); } bool remn(const std::string&, P**) { return false; } size_t size() { return o.numberOfTerms(); } std::vector<P*> all() { return o.terms(); } void setAll(const std::vector<P*>& v) { o.setTerms(v); } std::string extra(const std::vector<P*>&) { return ""; } };
struct Rules { typedef F::Rule P; F::RuleBlock o; void add(P* x) { o.addRule(x); } void ins(P* x, size_t i) { o.insertRule(x, i); } bool set(P*, size_t, P**) { return false; } P* at(size_t i) { return o.getRule(i); } bool by(const std::string&, P**) { return false; } bool has(const std::string&, bool*) { return false; } P* rem(size_t i) { return o.removeRule(i); } bool remn(const std::string&, P**) { return false; } size_t size() { return o.numberOfRules(); } std::vector<P*> all() { return o.rules(); } void setAll(const std::vector<P*>& v) { o.setRules(v); } std::string extra(const std::vector<P*>&) { return ""; } };

template <class L> std::string history(vf::Ctx& c, int depth, std::string& log) {
    typedef typename L::P P; const std::string N[] = {"a", "b", "zz"}; std::unique_ptr<L> l(new L); std::vector<P*> m;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(7); size_t n = m.size(); P *x = 0, *old = 0; std::string err;
        switch (op) {
            case 0: { int k = c.choose(2); x = make((P*) 0, N[k]); l->add(x); m.push_back(x); log += "add " + N[k]; break; }
            case 1: { int k = c.choose(2); int i = c.choose((int) n + 1); x = make((P*) 0, N[k]); l->ins(x, (size_t) i); m.insert(m.begin() + i, x); log += vf::cat("insert ", N[k], " at ", i); break; }
            case 2: { int k = c.choose(2); size_t i = (size_t) c.choose((int) n + 1); x = make((P*) 0, N[k]); bool threw = false, there = true; try { there = l->set(x, i, &old); } catch (std::exception&) { threw = true; } log += vf::cat("set ", N[k], " at ", i); if (!there) { delete x; c.prune(); } if (threw != (i >= n)) err = "setting at a position that does not exist"; else if (threw) delete x; else { if (old != m[i]) err = "setting returns another object"; delete m[i]; m[i] = x; } break; }
            case 3: { size_t i = (size_t) c.choose((int) n + 1); bool threw = false; try { old = l->rem(i); } catch (std::exception&) { threw = true; } log += vf::cat("remove ", i); if (threw != (i >= n)) err = "removing at a position that does not exist"; else if (!threw) { if (old != m[i]) err = "removing returns another object"; delete m[i]; m.erase(m.begin() + (long) i); } break; }
            case 4: { int k = c.choose(3); bool threw = false, there = true; size_t i = 0; while (i < n && nameOf(m[i]) != N[k]) ++i; try { there = l->remn(N[k], &old); } catch (F::Exception&) { threw = true; } log += "remove " + N[k]; if (!there) c.prune(); if (threw != (i >= n)) err = "removing a name which does not exist"; else if (!threw) { if (old != m[i]) err = "removing by name returns another object"; delete m[i]; m.erase(m.begin() + (long) i); } break; }
            case 5: { if (!n) c.prune(); size_t i = (size_t) c.choose((int) n); rename(m[i], nameOf(m[i]) == "a" ? "b" : "a"); log += vf::cat("rename ", i); break; }
            case 6: { std::reverse(m.begin(), m.end()); l->setAll(m); log += "reverse"; break; }
        }
        log += "; "; if (d == 1) c.begin(); if (!err.empty()) return err;
        n = m.size(); if (l->size() != n || l->all() != m) return "the list differs from that expected";
        for (size_t i = 0; i < n; ++i) if (l->at(i) != m[i]) return vf::cat("the object at ", i, " is another");
        bool threw = false; try { l->at(n); } catch (std::exception&) { threw = true; } if (!threw) return "a position that does not exist is answered";
        for (auto& k : N) { size_t i = 0; while (i < n && nameOf(m[i]) != k) ++i; P* q = 0; bool h = false; threw = false; bool there = true; try { there = l->by(k, &q); } catch (F::Exception&) { threw = true; } if (there && (threw != (i >= n) || (!threw && q != m[i]))) return "looking up <" + k + "> is wrong"; if (l->has(k, &h) && h != (i < n)) return "asking for <" + k + "> is wrong"; }
        err = l->extra(m); if (!err.empty()) return err;
    }
    return "";
}
template <class L> void run(vf::Ctx& c, int depth) {
    c.choices.reserve(64); c.limits.reserve(64); std::string log; log.reserve(400); std::string err; long live = vf::liveBlocks();
    err = history<L>(c, depth, log); long now = vf::liveBlocks(); c.step((size_t) depth); c.describe([&] { return log; });
    c.expect(err.empty(), "collection", [&] { return "after " + log + err; }); if (err.empty()) c.expect(now == live, "collection-ownership", [&] { return vf::cat("after ", log, "and destruction of the owner ", now - live, " blocks of memory remain"); }); c.state(log);
}
}
VF_SUITE(inputs) { run<Inputs>(c, c.thorough ? 5 : 4); }
VF_SUITE(outputs) { run<Outputs>(c, c.thorough ? 5 : 4); }
VF_SUITE(blocks) { run<Blocks>(c, c.thorough ? 5 : 4); }
VF_SUITE(terms) { run<Terms>(c, c.thorough ? 6 : 5); }
VF_SUITE(rules) { run<Rules>(c, c.thorough ? 6 : 5); }
static F::Hedge* failingHedge() { throw std::runtime_error("no such hedge today"); }     // of the user
VF_SUITE(loading) {     // rules of a block: load, unload, reload, change texts and the engine, process; in all orders
    struct Tx { const char* t; int var, term, out; double w; bool ok, needsLo; };   // needsLo: only loads while the term is called lo
    static const Tx TX[] = {{"if x is lo then p is k", 0, 0, 0, 1, true, true}, {"if x is hi then p is m with 0.5", 0, 1, 1, 0.5, true, false}, {"if x is lo then p is nothing", 0, 0, 0, 1, false, true}, {"if x is hi then", 0, 0, 0, 1, false, false}, {"if x is hi and then p is k", 0, 0, 0, 1, false, false}, {"if x is hi then p is k with half", 0, 0, 0, 1, false, false}, {"if x is hi then p is k # with 0.25", 0, 1, 0, 1, true, false}, {"", 0, 0, 0, 1, false, false}, {"if x is failing hi then p is k", 0, 0, 0, 1, false, false}};
    F::FactoryManager::instance()->hedge()->registerConstructor("failing", &failingHedge);
    F::Engine e("e"); F::InputVariable* x = new F::InputVariable("x", 0, 1); x->addTerm(new F::Ramp("lo", 1, 0)); x->addTerm(new F::Ramp("hi", 0, 1)); e.addInputVariable(x); F::OutputVariable* p = new F::OutputVariable("p", 0, 1); p->addTerm(new F::Constant("k", 1)); p->addTerm(new F::Constant("m", 2)); p->setDefuzzifier(new F::WeightedSum); e.addOutputVariable(p); F::RuleBlock* b = new F::RuleBlock("b"); b->setImplication(new F::Minimum); b->setConjunction(new F::Minimum); b->setActivation(new F::General); e.addRuleBlock(b); x->setValue(0.25);
    struct M { int t = 0, lt = 0; bool loaded = false, on = true; double w = 1; }; M m[2]; bool lo = true; m[0].t = c.choose(9); m[1].t = c.choose(9); for (int i = 0; i < 2; ++i) b->addRule(new F::Rule(TX[m[i].t].t));
    int depth = c.thorough ? 7 : 5; std::string log = vf::cat("rules ", m[0].t, ",", m[1].t, ": ");
    auto load = [&](int i) { const Tx& t = TX[m[i].t]; bool ok = t.ok && (lo || !t.needsLo); m[i].on = true; m[i].loaded = ok; if (ok) { m[i].lt = m[i].t; m[i].w = t.w; } return ok; };
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(12); if (d == 0) c.begin(); bool threw = false, want = false;
        try {
            switch (op) {
                case 0: { bool a = load(0), z = load(1); want = !(a && z); log += "loadRules; "; b->loadRules(&e); break; }
                case 1: { bool a = load(0), z = load(1); want = !(a && z); log += "reloadRules; "; b->reloadRules(&e); break; }
                case 2: m[0].loaded = m[1].loaded = false; log += "unloadRules; "; b->unloadRules(); break;
                case 3: case 4: want = !load(op - 3); log += vf::cat("load ", op - 3, "; "); b->getRule((size_t) op - 3)->load(&e); break;
                case 5: m[0].loaded = false; log += "unload 0; "; b->getRule(0)->unload(); break;
                case 6: m[1].t = (m[1].t + 1) % 9; log += "next text of 1; "; b->getRule(1)->setText(TX[m[1].t].t); break;
                case 7: m[0].t = (m[0].t + 1) % 9; want = !load(0); log += "load 0 with its next text; "; b->getRule(0)->load(TX[m[0].t].t, &e); break;
                case 8: m[1].on = !m[1].on; log += "toggle 1; "; b->getRule(1)->setEnabled(m[1].on); break;
                case 9: m[0].w = 0.75; log += "weigh 0; "; b->getRule(0)->setWeight(0.75); break;
                case 10: lo = !lo; log += "rename the term; "; x->getTerm((size_t) 0)->setName(lo ? "lo" : "low2"); break;
                case 11: { log += "replace 1 by a clone; "; F::Rule* q = b->getRule(1)->clone(); delete b->removeRule(1); b->addRule(q); m[1].loaded = false; break; }
            }
        } catch (F::Exception&) { threw = true; } catch (std::runtime_error&) { threw = true; if (op < 3) c.fail("foreign-exception", "after " + log + "the exception of one rule is raised instead of the one about all rules"); }
        c.step(); c.expect(threw == want, "load-exception", [&] { return "after " + log + (threw ? "an exception is raised" : "no exception is raised"); });
        e.process(); size_t at = 0; F::Aggregated* f = p->fuzzyOutput(); std::string err; double sum = 0; bool fired = false;
        for (int i = 0; i < 2; ++i) { F::Rule* r = b->getRule((size_t) i); double mu = TX[m[i].lt].term ? 0.25 : 0.75, deg = m[i].loaded ? mu * m[i].w : 0; if (r->isLoaded() != m[i].loaded) err += vf::cat("rule ", i, " is ", m[i].loaded ? "not " : "", "loaded; "); if (r->getText() != TX[m[i].t].t) err += "the text of a rule changed; "; if (!vf::near(r->getActivationDegree(), deg)) err += vf::cat("the degree of rule ", i, " is ", r->getActivationDegree(), ", expected ", deg, "; "); bool trig = m[i].loaded && m[i].on; if (r->isTriggered() != trig) err += vf::cat("rule ", i, " is ", trig ? "not " : "", "triggered; "); if (!vf::near(r->getWeight(), m[i].w)) err += vf::cat("the weight of rule ", i, " is ", r->getWeight(), "; "); if (r->isEnabled() != m[i].on) err += "the flag of a rule changed; ";
            if (trig) { fired = true; sum += deg * (TX[m[i].lt].out ? 2 : 1); if (at >= f->numberOfTerms() || f->getTerm(at).getTerm() != p->getTerm((size_t) TX[m[i].lt].out) || !vf::near(f->getTerm(at).getDegree(), deg)) err += vf::cat("rule ", i, " did not activate its term; "); ++at; } }
        if (f->numberOfTerms() != at) err += "another term is activated; "; double v = p->getValue(); if (fired ? !vf::near(v, sum) : !nan_(v)) err += vf::cat("the output is ", v, "; "); c.checks(12);
        if (!err.empty()) { c.fail("loading", "after " + log + err); return; }
        std::string st; for (auto& q : m) st += vf::cat(q.t, ",", q.lt, q.loaded, q.on, q.w, ";"); st += lo ? "lo" : "-"; c.state(st); if (c.seen(vf::hashStr(st), depth - 1 - d)) { c.describe([&] { return log; }); c.prune(); }
    }
    c.describe([&] { return log; });
}

// Owners that are copied and moved into one another: the parts go along, the former parts are destroyed, nothing is left over
namespace {
struct OwnIn { F::InputVariable o; void add(const std::string& n) { o.addTerm(new F::Triangle(n, 0, 1, 2)); } std::string list() const { std::string r; for (auto* t : o.terms()) r += t->getName() + " "; return r; } };
struct OwnOut { F::OutputVariable o; void add(const std::string& n) { if (!o.getDefuzzifier()) { o.setDefuzzifier(new F::Centroid); o.setAggregation(new F::Maximum); } o.addTerm(new F::Triangle(n, 0, 1, 2)); o.fuzzyOutput()->addTerm(o.terms().back(), 0.5, 0); } std::string list() const { std::string r; for (auto* t : o.terms()) r += t->getName() + " "; for (auto& t : o.fuzzyOutput()->terms()) { bool own = std::find(o.terms().begin(), o.terms().end(), t.getTerm()) != o.terms().end(); if (!own) r += "(fuzzy output with a foreign term) "; } if (o.fuzzyOutput()->numberOfTerms() != o.numberOfTerms()) r += "(fuzzy output of another size) "; return r; } };
struct OwnBlock { F::RuleBlock o; void add(const std::string& n) { if (!o.getActivation()) { o.setActivation(new F::General); o.setConjunction(new F::Minimum); o.setDisjunction(new F::Maximum); o.setImplication(new F::Minimum); } o.addRule(new F::Rule(n)); } std::string list() const { std::string r; for (auto* t : o.rules()) r += t->getText() + " "; if (o.numberOfRules() && !(o.getActivation() && o.getConjunction() && o.getDisjunction() && o.getImplication())) r += "(without operators) "; return r; } };
struct OwnEngine { F::Engine o; void add(const std::string& n) { F::InputVariable* v = make((F::InputVariable*) 0, n); F::Function* f = new F::Function("f", "2*" + n); v->addTerm(f); o.addInputVariable(v); o.addOutputVariable(make((F::OutputVariable*) 0, "o" + n)); o.addRuleBlock(make((F::RuleBlock*) 0, n)); o.getRuleBlock(o.numberOfRuleBlocks() - 1)->addRule(new F::Rule(n)); f->setEngine(&o); f->load(); }
    std::string list() const { std::string r; for (auto* t : o.inputVariables()) { r += t->getName() + " "; const F::Function* f = dynamic_cast<const F::Function*>(t->getTerm("f")); t->setValue(4); if (!f || f->getEngine() != &o) r += "(a formula of another engine) "; else if (f->membership(9) != 8) r += "(a formula with another value) "; } if (o.numberOfOutputVariables() != o.numberOfInputVariables() || o.numberOfRuleBlocks() != o.numberOfInputVariables()) r += "(outputs or blocks missing) "; return r; } };
struct OwnFactory { F::CloningFactory<F::Function::Element*> o; void add(const std::string& n) { std::string k = n; for (auto& x : o.available()) if (x == k) k += n; o.registerObject(k, new F::Function::Element(k, "", F::Function::Element::Operator)); } std::string list() const { std::string r; for (auto& k : o.available()) r += k + " "; for (auto& k : o.available()) { std::unique_ptr<F::Function::Element> e(o.cloneObject(k)); if (!e || e->name != k) r += "(another element) "; } return r; } };
template <class O> O* copied(const O& x) { O* n = new O; typedef decltype(n->o) T; const T& from = x.o; std::unique_ptr<T> t(new T(from)); n->o = *t; return n; }
template <class O> std::string moving(vf::Ctx& c, int depth, std::string& log, uint64_t& hash) {
    const int S = 3; std::unique_ptr<O> s[S]; std::string m[S]; bool known[S] = {true, true, true}; int made = 0;
    for (int i = 0; i < S; ++i) { s[i].reset(new O); for (int k = 0; k < i; ++k) { std::string n(1, (char) ('p' + made++)); s[i]->add(n); m[i] += n + " "; } }
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(6), i = c.choose(S), j = op == 5 ? 0 : c.choose(S);
        if (op < 4 && !known[j]) c.prune();     // what a moved part holds is not specified
        switch (op) {
            case 0: log += vf::cat(i, "=move(", j, ")"); s[i]->o = std::move(s[j]->o); if (i != j) { m[i] = m[j]; known[i] = true; } known[j] = false; break;
            case 1: log += vf::cat(i, "=", j); { auto& from = s[j]->o; s[i]->o = from; } m[i] = m[j]; known[i] = true; break;
            case 2: { if (i == j) c.prune(); log += vf::cat(i, " made by moving ", j); O* n = new O{std::move(s[j]->o)}; s[i].reset(n); m[i] = m[j]; known[i] = true; known[j] = false; break; }
            case 3: { if (i == j) c.prune(); log += vf::cat(i, " made by copying ", j); std::unique_ptr<O> n(copied(*s[j])); s[i] = std::move(n); m[i] = m[j]; known[i] = true; break; }
            case 4: { if (i == j || known[i]) c.prune(); log += vf::cat(i, " anew"); s[i].reset(new O); m[i].clear(); known[i] = true; break; }
            case 5: { if (!known[i]) c.prune(); std::string n(1, (char) ('p' + made++)); s[i]->add(n); m[i] += n + " "; log += vf::cat("add to ", i); break; }
        }
        log += "; "; if (d == 1) c.begin();
        for (int k = 0; k < S; ++k) if (known[k]) { std::string l = s[k]->list(); if (l != m[k]) return vf::cat("owner ", k, " has <", l, "> instead of <", m[k], ">"); }
        c.checks(S); hash = vf::mix(hash, vf::hashStr(vf::cat(m[0], "|", m[1], "|", m[2], known[0], known[1], known[2])));
    }
    return "";
}
template <class O> void runMoving(vf::Ctx& c, int depth) {
    c.choices.reserve(64); c.limits.reserve(64); std::string log; log.reserve(400); std::string err; long live = vf::liveBlocks();
    uint64_t hash = 0; err = moving<O>(c, depth, log, hash); long now = vf::liveBlocks(); c.step((size_t) depth); c.describe([&] { return log; });
    c.expect(err.empty(), "moved-parts", [&] { return "after " + log + err; }); if (err.empty()) c.expect(now == live, "moved-ownership", [&] { return vf::cat("after ", log, "and destruction of the owners ", now - live, " blocks of memory remain"); }); c.state(hash);
}
}
VF_SUITE(moves) { switch (c.choose(5)) { case 0: runMoving<OwnIn>(c, 3); break; case 1: runMoving<OwnOut>(c, 3); break; case 2: runMoving<OwnBlock>(c, 3); break; case 3: runMoving<OwnEngine>(c, c.thorough ? 4 : 3); break; case 4: runMoving<OwnFactory>(c, c.thorough ? 4 : 3); break; } }
