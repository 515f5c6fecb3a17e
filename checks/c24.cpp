// C24: a failure - of memory, of a component supplied by the user, of an incomplete engine, of a text - leaves everything usable.
#include "imex.h"
#include "ops.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref;
namespace F = fuzzylite;
namespace {
// ---- components that fail at a chosen call
struct Boom : std::runtime_error { Boom() : std::runtime_error("component failed") {} };
long g_calls = 0, g_at = -1;
void hit() { if (g_calls++ == g_at) throw Boom(); }
void arm(long at) { g_calls = 0; g_at = at; }
template <class B> struct XTerm : B {
    explicit XTerm(const B& b) : B(b) {}
    F::scalar membership(F::scalar x) const override { hit(); return B::membership(x); }
    F::scalar tsukamoto(F::scalar y) const override { hit(); return B::tsukamoto(y); }
    std::string parameters() const override { hit(); return B::parameters(); }
    void updateReference(const F::Engine* e) override { hit(); B::updateReference(e); }
    XTerm* clone() const override { hit(); return new XTerm(*this); }
};
template <class K, class B> struct XNorm : K { B b; std::string className() const override { return b.className(); } F::scalar compute(F::scalar x, F::scalar y) const override { hit(); return b.compute(x, y); } XNorm* clone() const override { hit(); return new XNorm(*this); } };
template <class B> struct XHedge : F::Hedge { B b; std::string name() const override { return b.name(); } F::scalar hedge(F::scalar x) const override { hit(); return b.hedge(x); } XHedge* clone() const override { hit(); return new XHedge(*this); } static F::Hedge* make() { hit(); return new XHedge; } };
template <class B> struct XDefuzz : B { XDefuzz() {} explicit XDefuzz(const B& b) : B(b) {} F::scalar defuzzify(const F::Term* t, F::scalar lo, F::scalar hi) const override { hit(); F::scalar r = B::defuzzify(t, lo, hi); hit(); return r; } XDefuzz* clone() const override { hit(); return new XDefuzz(*this); } static F::Defuzzifier* make() { hit(); return new XDefuzz; } };
template <class B> struct XAct : B { XAct() {} explicit XAct(const B& b) : B(b) {} void activate(F::RuleBlock* b) override { hit(); B::activate(b); hit(); } std::string parameters() const override { hit(); return B::parameters(); } XAct* clone() const override { hit(); return new XAct(*this); } static F::Activation* make() { hit(); return new XAct; } };
template <class N> N* norm(const N* n) {
    if (!n) return 0; std::string c = n->className();
#define VF_N(T, K) if (c == #K) return (N*) (void*) static_cast<T*>(new XNorm<T, F::K>);
    VF_N(F::TNorm, AlgebraicProduct) VF_N(F::TNorm, Minimum) VF_N(F::TNorm, BoundedDifference) VF_N(F::TNorm, EinsteinProduct) VF_N(F::SNorm, Maximum) VF_N(F::SNorm, AlgebraicSum) VF_N(F::SNorm, UnboundedSum) VF_N(F::SNorm, BoundedSum)
    throw std::runtime_error("norm " + c);
}
F::Term* wrap(const F::Term* t) {
    std::string c = t->className();
#define VF_T(K) if (c == #K) return new XTerm<F::K>(*static_cast<const F::K*>(t));
    VF_T(Bell) VF_T(Binary) VF_T(Concave) VF_T(Constant) VF_T(Cosine) VF_T(Discrete) VF_T(Function) VF_T(Gaussian) VF_T(GaussianProduct) VF_T(Linear) VF_T(PiShape) VF_T(Ramp) VF_T(Rectangle) VF_T(SShape) VF_T(Sigmoid) VF_T(SigmoidDifference) VF_T(SigmoidProduct) VF_T(Spike) VF_T(Trapezoid) VF_T(Triangle) VF_T(ZShape)
    throw std::runtime_error("term " + c);
}
F::Defuzzifier* wrap(const F::Defuzzifier* d) {
    if (!d) return 0; std::string c = d->className();
#define VF_D(K) if (c == #K) return new XDefuzz<F::K>(*static_cast<const F::K*>(d));
    VF_D(Bisector) VF_D(Centroid) VF_D(LargestOfMaximum) VF_D(MeanOfMaximum) VF_D(SmallestOfMaximum) VF_D(WeightedAverage) VF_D(WeightedSum)
    throw std::runtime_error("defuzzifier " + c);
}
F::Activation* wrap(const F::Activation* a) {
    if (!a) return new XAct<F::General>; std::string c = a->className();
#define VF_A(K) if (c == #K) return new XAct<F::K>(*static_cast<const F::K*>(a));
    VF_A(First) VF_A(General) VF_A(Highest) VF_A(Last) VF_A(Lowest) VF_A(Proportional) VF_A(Threshold)
    throw std::runtime_error("activation " + c);
}
struct Hedges {   // the hedges of the factory fail too
    std::map<std::string, F::HedgeFactory::Constructor> old;
    template <class H> void put(const std::string& n) { F::HedgeFactory* f = F::FactoryManager::instance()->hedge(); old[n] = f->getConstructor(n); f->registerConstructor(n, &XHedge<H>::make); }
    Hedges() { put<F::Extremely>("extremely"); put<F::Not>("not"); put<F::Seldom>("seldom"); put<F::Somewhat>("somewhat"); put<F::Very>("very"); }
    ~Hedges() { for (auto& o : old) F::FactoryManager::instance()->hedge()->registerConstructor(o.first, o.second); }
};
void instrument(F::Engine* e) {
    for (auto* v : e->variables()) for (auto& t : v->terms()) { F::Term* n = wrap(t); delete t; t = n; }
    for (auto* v : e->variables()) for (auto* t : v->terms()) t->updateReference(e);
    for (auto* v : e->outputVariables()) { v->setAggregation(norm<F::SNorm>(v->getAggregation())); v->setDefuzzifier(wrap(v->getDefuzzifier())); }
    for (auto* b : e->ruleBlocks()) { b->setConjunction(norm<F::TNorm>(b->getConjunction())); b->setDisjunction(norm<F::SNorm>(b->getDisjunction())); b->setImplication(norm<F::TNorm>(b->getImplication())); b->setActivation(wrap(b->getActivation())); std::vector<bool> on; for (auto* r : b->rules()) on.push_back(r->isEnabled()); b->reloadRules(e); for (size_t i = 0; i < on.size(); ++i) b->getRule(i)->setEnabled(on[i]); }
}
const int FAMILIES = 5;
ref::Engine family(int k) {   // every activation method, and every other part
    ref::Engine e = ops::family(k < 3 ? k : k - 3); static const char* A1[] = {"General", "Threshold", "Proportional", "Lowest", "Last"}; static const char* A2[] = {"First", "Highest", "General", "Highest", "Proportional"};
    e.blocks[0].act = A1[k]; e.blocks[1].act = A2[k]; e.blocks[0].n = 1; e.blocks[1].n = 1; if (k >= 3) { for (auto& v : e.out) { v.lockPrev = false; v.lockRange = false; } e.blocks[0].rules[2].enabled = true; }
    return e;
}
std::string observe(const F::Engine* e) {   // everything a user can read off an engine
    std::ostringstream o; o << e->toString() << "\n";
    for (auto* v : e->inputVariables()) o << vf::num(v->getValue()) << "; ";
    for (auto* v : e->outputVariables()) o << vf::num(v->getValue()) << " " << vf::num(v->getPreviousValue()) << " " << v->fuzzyOutputValue() << " " << v->fuzzyOutput()->toString() << "; ";
    for (auto* b : e->ruleBlocks()) for (auto* r : b->rules()) o << r->isEnabled() << r->isLoaded() << r->isTriggered() << vf::num(r->getActivationDegree()) << r->getText() << "; ";
    return o.str();
}
const double V[3][2] = {{0.3, 0.6}, {0.9, 0.2}, {0.05, 0.95}};
void inputs(F::Engine* e, int k) { for (size_t i = 0; i < e->numberOfInputVariables(); ++i) e->getInputVariable(i)->setValue(V[k][i % 2]); }
// restarted and run over some inputs: what comes out
std::string course(F::Engine* e) { std::string s; e->restart(); for (int k = 0; k < 3; ++k) { inputs(e, k); e->process(); s += observe(e) + "\n"; } return s; }
std::string values(F::Engine* e) { inputs(e, 2); e->process(); std::string s; for (auto* v : e->outputVariables()) s += vf::num(v->getValue()) + " " + v->fuzzyOutput()->toString() + "; "; for (auto* b : e->ruleBlocks()) for (auto* r : b->rules()) s += vf::num(r->getActivationDegree()) + " "; return s; }
enum { PROCESS, RESTART, COPY, CLONE, ASSIGN, FLL, FIS, FCL, CPP, JAVA, DATASET, READY, TYPE, CONFIGURE, RELOAD, IMPORT_FLL, IMPORT_FIS, IMPORT_FCL, FUZZY, TERMS, RULES, FORMULA, FACTORIES, BENCHMARK, NOPS };
const char* OPS[] = {"process", "restart", "copy", "clone", "assign", "export fll", "export fis", "export fcl", "export c++", "export java", "export dataset", "isReady", "type", "configure", "reload rules", "import fll", "import fis", "import fcl", "fuzzify", "add and configure a term", "add and load a rule", "load a formula", "copy the factories", "benchmark"};
struct World { std::unique_ptr<F::Engine> e, other, made; std::string fll, fis, fcl, out; };
ref::Engine fisAble() { ref::Engine e = ops::family(2); for (auto& v : e.out) { v.defuzz = "Centroid"; v.aggregation = "Maximum"; v.wtype = ""; v.res = 20; } e.blocks.resize(1); e.blocks[0].rules.resize(1); e.blocks[0].rules[0] = R(And(P(0, 0, {"very"}), P(1, 1)), {C(0, 0), C(1, 2)}, 0.5); return e; }
void prepare(World& w, int fam, bool instrumented) {
    w.e.reset(bld::engine(family(fam))); w.other.reset(bld::engine(family((fam + 1) % FAMILIES))); if (instrumented) { instrument(w.e.get()); instrument(w.other.get()); }
    Guard g(bld::engine(fisAble())), h(bld::engine(family(fam))); w.fis = F::FisExporter().toString(g.e); w.fll = F::FllExporter().toString(h.e); w.fcl = F::FclExporter().toString(h.e);
    inputs(w.e.get(), 1); w.e->process();
}
// performs the operation; w.out is what it gives
void perform(World& w, int op) {
    F::Engine* e = w.e.get(); w.out.clear();
    switch (op) {
        case PROCESS: inputs(e, 0); e->process(); w.out = "done"; break;
        case RESTART: e->restart(); w.out = "done"; break;
        case COPY: w.made.reset(new F::Engine(*e)); break;
        case CLONE: w.made.reset(e->clone()); break;
        case ASSIGN: *w.other = *e; w.out = "done"; break;
        case FLL: w.out = F::FllExporter().toString(e); break;
        case FIS: try { w.out = F::FisExporter().toString(e); } catch (F::Exception&) { w.out = "refused"; } break;
        case FCL: w.out = F::FclExporter().toString(e); break;
        case CPP: w.out = F::CppExporter(true, true).toString(e); break;
        case JAVA: w.out = F::JavaExporter(true).toString(e); break;
        case DATASET: { w.made.reset(e->clone()); w.out = F::FldExporter().toString(w.made.get(), 9); w.made.reset(); break; }
        case READY: { std::string s; bool r = e->isReady(&s); w.out = vf::cat(r, s); break; }
        case TYPE: { std::string s, n; int t = (int) e->type(&n, &s); w.out = vf::cat(t, n); break; }
        case CONFIGURE: e->configure("Minimum", "Maximum", "Minimum", "Maximum", "Bisector", "General"); w.out = "done"; break;
        case RELOAD: for (auto* b : e->ruleBlocks()) b->reloadRules(e); w.out = "done"; break;
        case IMPORT_FLL: w.made.reset(F::FllImporter().fromString(w.fll)); break;
        case IMPORT_FIS: w.made.reset(F::FisImporter().fromString(w.fis)); break;
        case IMPORT_FCL: w.made.reset(F::FclImporter().fromString(w.fcl)); break;
        case FUZZY: { for (auto* v : e->inputVariables()) { w.out += v->fuzzify(0.3); F::scalar y; F::Term* t = v->highestMembership(0.4, &y); w.out += (t ? t->getName() : "-") + vf::num(y); } for (auto* v : e->outputVariables()) w.out += v->fuzzyOutputValue(); break; }
        case TERMS: { std::unique_ptr<F::Term> t(F::FactoryManager::instance()->term()->constructObject("Trapezoid")); t->setName("extra"); t->configure("0.1 0.2 0.3 0.4 0.5"); w.out = t->toString(); break; }
        case RULES: { std::unique_ptr<F::Rule> r(F::Rule::parse("if a is very low and (b is high or a is any) then x is " + e->getOutputVariable(0)->getTerm(0)->getName() + " and y is not " + e->getOutputVariable(1)->getTerm(2)->getName() + " with 0.5", e)); w.out = vf::cat(r->isLoaded(), r->getText(), r->getAntecedent()->toPrefix(), r->getConsequent()->toString()); break; }
        case FORMULA: { std::unique_ptr<F::Function> f(F::Function::create("f", "max(a, sin(x)) + 2 * b ^ 0.5 - 3.14", e)); w.out = vf::num(f->membership(0.4)) + f->toString() + f->root()->toPostfix(); break; }
        case FACTORIES: { std::unique_ptr<F::FactoryManager> m(new F::FactoryManager(*F::FactoryManager::instance())); std::vector<std::string> k = m->term()->available(); for (auto& x : k) w.out += x; k = m->function()->availableFunctions(); for (auto& x : k) w.out += x; std::unique_ptr<F::Hedge> h(m->hedge()->constructObject("not")); w.out += h->name(); break; }
        case BENCHMARK: { std::unique_ptr<F::Engine> k(e->clone()); F::Benchmark b("b", k.get()); b.prepare(4, F::FldExporter::EachVariable); b.run(2); w.out = vf::cat(b.getObtained().size(), " ", b.getTimes().size()); break; }
    }
    if (op == COPY || op == CLONE || (op >= IMPORT_FLL && op <= IMPORT_FCL)) { w.out = w.made->toString(); }
}
bool changes(int op) { return op == PROCESS || op == RESTART || op == CONFIGURE || op == RELOAD; }
int g_devnull = -1;
struct Quiet {   // importers log the rules they cannot load
    int err; Quiet() { fflush(stderr); err = dup(2); if (g_devnull < 0) g_devnull = open("/dev/null", O_WRONLY); dup2(g_devnull, 2); } ~Quiet() { std::cerr.clear(); dup2(err, 2); close(err); }
};
// one operation of a family with faults at every point of one stripe: kind 0: allocations, 1: calls of components
void faults(vf::Ctx& c, int kind, int op, int fam, int stripe, int stripes) {
    std::unique_ptr<Hedges> hedges; if (kind == 1) hedges.reset(new Hedges);
    std::string good, goodCourse, otherCourse, goodValues;
    { arm(-1); World w; prepare(w, fam, kind == 1); perform(w, op); good = w.out; goodValues = values(w.e.get()); goodCourse = course(w.e.get()); otherCourse = op == ASSIGN ? course(w.other.get()) : ""; }
    bool locks = false; for (auto& v : family(fam).out) locks = locks || v.lockPrev;
    std::unique_ptr<Quiet> quiet(new Quiet); std::string why; long k = stripe, points = 0;
    for (;; k += stripes) {
        World w; arm(-1); prepare(w, fam, kind == 1); std::string before = observe(w.e.get()), text = w.e->toString(), in0 = vf::cat(w.e->getInputVariable(0)->getValue()), caught; bool failed; c.step();
        if (kind == 0) vf::failAllocationAfter(k); else arm(k);
        try { perform(w, op); } catch (Boom&) { caught = "boom"; } catch (std::bad_alloc&) { caught = "bad_alloc"; } catch (F::Exception& x) { caught = "exception"; } catch (std::exception& x) { caught = x.what(); }
        if (kind == 0) { failed = vf::allocationFailed(); vf::failAllocationAfter(-1); } else { failed = g_calls > g_at; arm(-1); }
        if (!failed) { if (!caught.empty() || w.out != good) why = "without a failure: " + caught + w.out; break; }
        ++points; c.state(vf::cat(op, fam, kind, caught, w.made ? w.made->numberOfRuleBlocks() : 9)); auto at = [&](const std::string& m) { why = vf::cat(OPS[op], " of engine ", fam, " failing at ", kind ? "call " : "allocation ", k, " (", caught.empty() ? "not reported" : caught, "): ", m); };
        // a component that fails in the middle of processing is reported by its own exception
        if (kind == 1 && (op == PROCESS || op == COPY || op == CLONE || op == FUZZY) && caught.empty() && op == PROCESS) { at("processing did not report the failure"); break; }
        if (kind == 1 && op == PROCESS && caught != "boom") { at("processing reported another exception: " + caught); break; }
        c.checks(2); if (!changes(op)) { std::string now = observe(w.e.get()); if (now != before) { at("the engine changed: " + imex::firstDiff(now, before)); break; } }
        if (op == PROCESS || op == RESTART) { std::string now = w.e->toString(); if (now != text) { at("the configuration of the engine changed: " + imex::firstDiff(now, text)); break; } }
        // an incomplete result may be used and destroyed
        if (w.made) { w.made->restart(); try { inputs(w.made.get(), 0); w.made->process(); } catch (std::exception&) {} std::string s; w.made->isReady(&s); w.made->toString(); w.made.reset(); }
        if (op == ASSIGN) { w.other->restart(); try { inputs(w.other.get(), 0); w.other->process(); } catch (std::exception&) {} w.other->toString(); }
        // the copy of an engine that failed works
        if (op == PROCESS) { std::unique_ptr<F::Engine> copy(w.e->clone()); std::string s; try { s = course(copy.get()); } catch (std::exception& x) { s = x.what(); } if (fam >= 3 && s != goodCourse) { at("a copy of the engine behaves differently: " + imex::firstDiff(s, goodCourse)); break; } }
        std::string s; c.checks(2);
        if (op == PROCESS && !locks) { try { s = values(w.e.get()); } catch (std::exception& x) { s = x.what(); } if (s != goodValues) { at("processing the next inputs gives " + s + "\nexpected " + goodValues); break; } }
        // again, without the failure
        try { perform(w, op); s = w.out; } catch (std::exception& x) { s = x.what(); } if (s != good) { at("performing it again gives <" + s + ">, expected <" + good + ">"); break; }
        try { s = course(w.e.get()); } catch (std::exception& x) { s = x.what(); } if (s != goodCourse) { at("the engine behaves differently afterwards: " + imex::firstDiff(s, goodCourse)); break; }
        if (op == ASSIGN) { try { s = course(w.other.get()); } catch (std::exception& x) { s = x.what(); } if (s != otherCourse) { at("the assigned engine behaves differently afterwards: " + imex::firstDiff(s, otherCourse)); break; } }
    }
    quiet.reset(); arm(-1); if (!why.empty()) c.fail(kind ? "component" : "memory", why);
}
#ifdef __SANITIZE_ADDRESS__
const bool SAN = true;
#else
const bool SAN = false;
#endif
}
VF_SUITE(memory) { int op = c.choose(NOPS), fam = c.choose(c.thorough ? FAMILIES : SAN ? 2 : 3), st = c.choose(16); c.begin(); faults(c, 0, op, fam, st, SAN && !c.thorough ? 16 * 3 : 16); }
VF_SUITE(components) { int op = c.choose(NOPS), fam = c.choose(SAN && !c.thorough ? 2 : FAMILIES), st = c.choose(16); c.begin(); faults(c, 1, op, fam, st, SAN && !c.thorough ? 16 * 5 : 16); }
// the first use of the library when memory runs out, in a process of its own
VF_SUITE(first_use) {
    int k = c.choose(c.thorough || !SAN ? 500 : 60); c.begin(); if (SAN && !c.thorough) k *= 8; Quiet q; int p[2]; if (pipe(p)) return;
    // (a fresh process: this program, told to run the child's part)
    pid_t pid = fork(); if (!pid) { dup2(p[1], 1); close(p[0]); setenv("VF_C24_CHILD", vf::cat(k).c_str(), 1); alarm(30); execl("/proc/self/exe", "child", (char*) 0); _exit(99); }
    close(p[1]); std::string out; char b[512]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, (size_t) n); close(p[0]); int st = 0; waitpid(pid, &st, 0); c.step(); c.checks(); c.state(out.substr(0, 20));
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("first-use", vf::cat("the first use of the library failing at allocation ", k, " ended with status ", st, ": ", out));
}
namespace {
struct Child { Child() {
    const char* k = getenv("VF_C24_CHILD"); if (!k) return; long n = atol(k); std::string caught; std::string result; int code = 0;
    auto use = [&]() { F::FactoryManager* m = F::FactoryManager::instance(); std::unique_ptr<F::Engine> e(F::FllImporter().fromString("Engine: e\nInputVariable: a\n  range: 0 1\n  term: low Ramp 1 0\nOutputVariable: x\n  range: 0 1\n  aggregation: Maximum\n  defuzzifier: Centroid 10\n  term: t Triangle 0 0.5 1\nRuleBlock: b\n  conjunction: none\n  disjunction: none\n  implication: Minimum\n  activation: General\n  rule: if a is very low then x is t")); e->setInputValue("a", 0.25); e->process(); std::string s; for (auto& x : m->term()->available()) s += x + " "; for (auto& x : m->function()->availableOperators()) s += x + " "; for (auto& x : m->activation()->available()) s += x + " "; for (auto& x : m->hedge()->available()) s += x + " "; return s + e->toString() + vf::num(e->getOutputValue("x")); };
    { Quiet q; vf::failAllocationAfter(n); try { result = use(); } catch (std::exception& x) { vf::failAllocationAfter(-1); caught = x.what(); } vf::failAllocationAfter(-1); }
    std::string again; try { again = use(); } catch (std::exception& x) { again = x.what(); }
    if (again.find("Activated") != std::string::npos || again.find("Bell Binary Concave") == std::string::npos || again.find("rule: if a is very low then x is t") == std::string::npos || again.find("0.5") == std::string::npos) code = 7;
    if (write(1, (caught + "\n" + again).data(), caught.size() + 1 + again.size()) < 0) code = 8; _exit(code);
} } g_child;
}
// engines with a part missing refuse to process, and work once it is given
VF_SUITE(missing) {
    int fam = c.choose(FAMILIES), part = c.choose(12), when = c.choose(2), how = c.choose(3); c.begin(); std::unique_ptr<F::Engine> e(bld::engine(family(fam))), g(bld::engine(family(fam))); std::string good = course(g.get()), what; c.step();
    if (when) { inputs(e.get(), 1); e->process(); } else if (part % 2) e->restart();
    F::RuleBlock* b = e->getRuleBlock((size_t) (part / 2 % 2)); F::OutputVariable* o = e->getOutputVariable((size_t) (part / 2 % 2)); F::RuleBlock* gb = g->getRuleBlock((size_t) (part / 2 % 2)); F::OutputVariable* go = g->getOutputVariable((size_t) (part / 2 % 2));
    for (size_t i = 0; i < 2; ++i) e->getOutputVariable(i)->fuzzyOutput()->clear();
    switch (part) {
        case 0: case 2: b->setConjunction(0); what = "conjunction"; break;
        case 1: case 3: b->setDisjunction(0); what = "disjunction"; break;
        case 4: case 6: b->setImplication(0); what = "implication"; break;
        case 5: case 7: o->setDefuzzifier(0); what = "defuzzifier"; break;
        case 8: case 10: o->setAggregation(0); what = "aggregation"; break;
        case 9: b->getRule(0)->unload(); b->getRule(0)->setText("if a is unknown then x is small"); what = "rule"; break;
        case 11: b->setActivation(0); what = "activation"; break;
    }
    std::string text = e->toString(); bool threw = false; inputs(e.get(), how); try { e->process(); } catch (F::Exception&) { threw = true; } catch (std::exception& x) { c.fail("missing", vf::cat("processing without ", what, " raised ", x.what())); return; }
    c.checks(2); if (part == 5 || part == 7) { if (!threw) { c.fail("missing", "processing without a defuzzifier did not raise an exception"); return; } } if (part != 11 && e->toString() != text) { c.fail("missing", "the configuration changed: " + imex::firstDiff(e->toString(), text)); return; }
    try { for (int k = 0; k < how; ++k) e->process(); } catch (F::Exception&) {} std::string s; { std::unique_ptr<F::Engine> copy(e->clone()); copy->isReady(&s); try { copy->process(); } catch (F::Exception&) {} }
    switch (part) {
        case 0: case 2: b->setConjunction(gb->getConjunction() ? static_cast<F::TNorm*>(gb->getConjunction()->clone()) : 0); break;
        case 1: case 3: b->setDisjunction(gb->getDisjunction() ? static_cast<F::SNorm*>(gb->getDisjunction()->clone()) : 0); break;
        case 4: case 6: for (size_t i = 0; i < 2; ++i) e->getOutputVariable(i)->fuzzyOutput()->clear(); b->setImplication(gb->getImplication() ? static_cast<F::TNorm*>(gb->getImplication()->clone()) : 0); break;
        case 5: case 7: o->setDefuzzifier(go->getDefuzzifier()->clone()); break;
        case 8: case 10: o->setAggregation(go->getAggregation() ? static_cast<F::SNorm*>(go->getAggregation()->clone()) : 0); break;
        case 9: try { b->getRule(0)->load(e.get()); c.fail("missing", "a rule with an unknown term was loaded"); } catch (F::Exception&) {} b->getRule(0)->setText(gb->getRule(0)->getText()); b->getRule(0)->load(e.get()); break;
        case 11: b->setActivation(gb->getActivation() ? gb->getActivation()->clone() : 0); break;
    }
    s = course(e.get()); c.expect(s == good, "missing-then-given", [&] { return vf::cat("engine ", fam, " processed without ", what, " and then with it: ", imex::firstDiff(s, good)); }); c.state(vf::cat(fam, part, threw));
}
// texts that are refused leave nothing behind: no memory, no change of the factories
namespace {
const SV JUNK = {"", "bogus", "-1", "nan", ":", "(", "and", "0.5 0.5", "none", "1e400", "true"};
std::string leak(const std::function<void()>& f) { f(); long a = vf::liveBlocks(); f(); long b = vf::liveBlocks(); return a == b ? "" : vf::cat(b - a, " blocks of memory were not freed"); }
}
VF_SUITE(texts) {
    int format = c.choose(3), fam = c.choose(FAMILIES), how = 2 + c.choose((int) JUNK.size()); static std::map<int, std::string> cache; std::string& t = cache[format * 10 + fam];
    if (t.empty()) { Guard e(bld::engine(format == 1 ? fisAble() : family(fam))); if (fam > 2) e->setDescription("d"); t = format == 0 ? F::FllExporter().toString(e.e) : format == 1 ? F::FisExporter().toString(e.e) : F::FclExporter().toString(e.e); } if (format == 1 && fam) c.prune();
    std::vector<std::pair<size_t, size_t>> tok; for (size_t i = 0; i < t.size();) { while (i < t.size() && isspace((unsigned char) t[i])) ++i; size_t j = i; while (j < t.size() && !isspace((unsigned char) t[j])) ++j; if (j > i) tok.push_back({i, j}); i = j; }
    int block = c.choose(8); c.begin(); std::unique_ptr<Quiet> q(new Quiet); std::string why;
    for (size_t k = (size_t) block; k < tok.size() && why.empty(); k += 8) {
        std::string u = t.substr(0, tok[k].first) + JUNK[(size_t) (how - 2)] + t.substr(tok[k].second); bool refused = false; c.step(2); c.checks();
        std::string d = leak([&] { std::unique_ptr<F::Engine> e; try { e.reset(format == 0 ? F::FllImporter().fromString(u) : format == 1 ? F::FisImporter().fromString(u) : F::FclImporter().fromString(u)); } catch (F::Exception&) { refused = true; } });
        if (!d.empty()) why = vf::cat(d, refused ? " when this text was refused\n" : " after this text was read\n", u); c.state(vf::cat(format, refused, how));
    }
    q.reset(); if (!why.empty()) c.fail("text-leak", why);
}
// whatever reads a text or a name: refusing it raises the library's exception, frees what was made and changes nothing
namespace {
typedef std::function<void(const std::string&, F::Engine*)> Reader;
const std::vector<std::pair<std::string, Reader> >& readers() {
    static std::vector<std::pair<std::string, Reader> > r; if (!r.empty()) return r;
    auto add = [&](const std::string& n, Reader f) { r.push_back({n, f}); };
    add("Rule::parse", [](const std::string& t, F::Engine* e) { delete F::Rule::parse(t, e); });
    add("Rule::load", [](const std::string& t, F::Engine* e) { F::Rule k(t, 0.5); k.load(e); F::Rule m(k); m.load(t, e); });
    add("Function::create", [](const std::string& t, F::Engine* e) { delete F::Function::create("f", t, e); });
    add("Function::load", [](const std::string& t, F::Engine* e) { F::Function f("f", t, e); f.load(); f.load(t); std::unique_ptr<F::Function> g(f.clone()); g->load(t, e); });
    add("Function::parse", [](const std::string& t, F::Engine* e) { F::Function f("f", "x", e); delete f.parse(t); });
    add("Antecedent", [](const std::string& t, F::Engine* e) { F::Antecedent a; a.load(t, e); a.load(t, e); });
    add("Consequent", [](const std::string& t, F::Engine* e) { F::Consequent a; a.load(t, e); a.load(t, e); });
    for (auto& k : F::FactoryManager::instance()->term()->available()) if (!k.empty()) {
        add("configure " + k, [k](const std::string& t, F::Engine* e) { std::unique_ptr<F::Term> x(F::FactoryManager::instance()->term()->constructObject(k)); x->updateReference(e); x->configure(t); x->configure(t); });
        add("fll " + k, [k](const std::string& t, F::Engine*) { delete F::FllImporter().fromString("Engine: e\nInputVariable: a\nInputVariable: b\n term: t " + k + " " + t); });
        add("fcl " + k, [k](const std::string& t, F::Engine*) { delete F::FclImporter().fromString("FUNCTION_BLOCK e\nVAR_OUTPUT\no: REAL;\nEND_VAR\nDEFUZZIFY o\nTERM t := " + k + " " + t + ";\nEND_DEFUZZIFY\nEND_FUNCTION_BLOCK"); });
        add("fis " + k, [k](const std::string& t, F::Engine*) { delete F::FisImporter().fromString("[System]\n[Input1]\nName='a'\nMF1='t':'" + k + "',[" + t + "]\n"); });
    }
    for (auto& k : F::FactoryManager::instance()->activation()->available()) if (!k.empty()) {
        add("configure " + k, [k](const std::string& t, F::Engine*) { std::unique_ptr<F::Activation> x(F::FactoryManager::instance()->activation()->constructObject(k)); x->configure(t); });
        add("fll " + k, [k](const std::string& t, F::Engine*) { delete F::FllImporter().fromString("Engine: e\nRuleBlock: r\n activation: " + k + " " + t); });
    }
    for (auto& k : F::FactoryManager::instance()->defuzzifier()->available()) if (!k.empty()) add("fll " + k, [k](const std::string& t, F::Engine*) { delete F::FllImporter().fromString("Engine: e\nOutputVariable: r\n defuzzifier: " + k + " " + t); });
    for (const char* k : {"range", "default", "lock-range", "lock-previous", "enabled", "aggregation", "term", "description", "bogus"}) add(std::string("fll ") + k, [k](const std::string& t, F::Engine*) { delete F::FllImporter().fromString(std::string("Engine: e\nOutputVariable: o\n term: s Ramp 0 1\n ") + k + ": " + t); });
    for (const char* k : {"conjunction", "disjunction", "implication", "activation", "enabled", "rule", "bogus"}) add(std::string("fll block ") + k, [k](const std::string& t, F::Engine*) { Quiet q; delete F::FllImporter().fromString(std::string("Engine: e\nInputVariable: a\n term: low Ramp 1 0\nOutputVariable: x\n term: small Ramp 0 1\nRuleBlock: b\n rule: if a is low then x is small\n ") + k + ": " + t); });
    for (const char* k : {"RANGE := ", "METHOD : ", "ACCU : ", "DEFAULT := ", "LOCK : ", "ENABLED : ", "TERM u := ", "TERM ", ""}) add(std::string("fcl ") + k, [k](const std::string& t, F::Engine*) { delete F::FclImporter().fromString(std::string("FUNCTION_BLOCK e\nVAR_OUTPUT\no: REAL;\nEND_VAR\nDEFUZZIFY o\nTERM s := Ramp 0 1;\n") + k + t + ";\nEND_DEFUZZIFY\nEND_FUNCTION_BLOCK"); });
    for (const char* k : {"AND : ", "OR : ", "ACT : ", "ENABLED : ", "RULE 2 : ", ""}) add(std::string("fcl block ") + k, [k](const std::string& t, F::Engine*) { delete F::FclImporter().fromString(std::string("FUNCTION_BLOCK e\nVAR_INPUT\na: REAL;\nEND_VAR\nVAR_OUTPUT\nx: REAL;\nEND_VAR\nFUZZIFY a\nTERM low := Ramp 1 0;\nEND_FUZZIFY\nDEFUZZIFY x\nTERM small := Ramp 0 1;\nEND_DEFUZZIFY\nRULEBLOCK b\nRULE 1 : if a is low then x is small;\n") + k + t + ";\nEND_RULEBLOCK\nEND_FUNCTION_BLOCK"); });
    for (const char* k : {"AndMethod=", "OrMethod=", "ImpMethod=", "AggMethod=", "DefuzzMethod=", "NumInputs=", ""}) add(std::string("fis ") + k, [k](const std::string& t, F::Engine*) { delete F::FisImporter().fromString(std::string("[System]\n") + k + t + "\n[Input1]\nName='a'\nMF1='m':'trimf',[0 1 2]\n[Output1]\nName='x'\nMF1='m':'trimf',[0 1 2]\n[Rules]\n1, 1 (1) : 1\n"); });
    for (const char* k : {"Name=", "Range=", "Enabled=", "Default=", "LockPrevious=", "LockRange=", "MF2=", "MF2='m':", ""}) add(std::string("fis output ") + k, [k](const std::string& t, F::Engine*) { delete F::FisImporter().fromString(std::string("[System]\nName='e'\n[Input1]\nName='a'\nMF1='m':'trimf',[0 1 2]\n[Output1]\nName='x'\nMF1='m':'trimf',[0 1 2]\n") + k + t + "\n[Rules]\n1, 1 (1) : 1\n"); });
    add("fis rules", [](const std::string& t, F::Engine*) { delete F::FisImporter().fromString("[System]\nName='e'\n[Input1]\nName='a'\nMF1='m':'trimf',[0 1 2]\n[Output1]\nName='x'\nMF1='m':'trimf',[0 1 2]\n[Rules]\n1, 1 (1) : 1\n" + t + "\n"); });
    add("tnorm by formula", [](const std::string& t, F::Engine*) { F::TNormFunction n(t); n.setFormula(t); n.compute(0.5, 0.5); });
    add("snorm by formula", [](const std::string& t, F::Engine*) { F::SNormFunction n(t); n.setFormula(t); n.compute(0.5, 0.5); });
    add("hedge by formula", [](const std::string& t, F::Engine*) { F::HedgeFunction n(t); n.setFormula(t); n.hedge(0.5); });
    add("make t-norm", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->tnorm()->constructObject(t); });
    add("make s-norm", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->snorm()->constructObject(t); });
    add("make activation", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->activation()->constructObject(t); });
    add("make defuzzifier", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->defuzzifier()->constructObject(t); });
    add("make defuzzifier with resolution", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->defuzzifier()->constructDefuzzifier(t, 7, F::WeightedDefuzzifier::Tsukamoto); });
    add("make term", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->term()->constructObject(t); });
    add("make hedge", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->hedge()->constructObject(t); });
    add("make element", [](const std::string& t, F::Engine*) { delete F::FactoryManager::instance()->function()->cloneObject(t); });
    add("weighted type", [](const std::string& t, F::Engine*) { F::WeightedAverage d(t); F::WeightedSum s(t); });
    add("comparison", [](const std::string& t, F::Engine*) { F::Threshold x(t, 0.5); x.setComparison(x.parseComparison(t)); });
    add("names", [](const std::string& t, F::Engine* e) { e->getInputVariable(t); e->getOutputVariable(t); e->getInputVariable(0)->getTerm(t); e->getRuleBlock(t); });
    add("output by name", [](const std::string& t, F::Engine* e) { e->getOutputVariable(t); }); add("block by name", [](const std::string& t, F::Engine* e) { e->getRuleBlock(t); });
    add("remove input", [](const std::string& t, F::Engine* e) { std::unique_ptr<F::Engine> k(new F::Engine(*e)); delete k->removeInputVariable(t); });
    add("remove output", [](const std::string& t, F::Engine* e) { std::unique_ptr<F::Engine> k(new F::Engine(*e)); delete k->removeRuleBlock((std::size_t) 0); delete k->removeOutputVariable(t); });
    for (int i = 0; i < 6; ++i) add(vf::cat("configure operator ", i), [i](const std::string& t, F::Engine* e) { F::Engine k(*e); k.configure(i == 0 ? t : "Minimum", i == 1 ? t : "Maximum", i == 2 ? t : "Minimum", i == 3 ? t : "Maximum", i == 4 ? t : "Centroid", i == 5 ? t : "General"); });
    add("load rules", [](const std::string& t, F::Engine* e) { F::Engine k(*e); F::Rule* bad = new F::Rule; bad->setText(t); k.getRuleBlock(0)->insertRule(bad, 1); k.getRuleBlock(0)->reloadRules(&k); });
    add("dataset", [](const std::string& t, F::Engine* e) { F::Engine k(*e); std::istringstream in("a b\n0.5 0.5\n" + t + "\n0.1 0.2"); F::FldExporter().toString(&k, in); });
    add("benchmark", [](const std::string& t, F::Engine* e) { F::Engine k(*e); std::istringstream in("0.5 0.5\n" + t + "\n0.1 0.2"); F::Benchmark b("b", &k); b.prepare(in); b.run(2); });
    add("script", [](const std::string& t, F::Engine* e) { F::Engine k(*e); std::istringstream in("0.5 0.5\n" + t + "\n0.1 0.2"); F::RScriptExporter().toString(&k, k.getInputVariable(0), k.getInputVariable(1), in, k.outputVariables()); });
    add("files", [](const std::string& t, F::Engine*) { delete F::FllImporter().fromFile("/nonexistent/" + t); }); add("file to write", [](const std::string& t, F::Engine* e) { F::FllExporter().toFile("/nonexistent/" + t, e); }); add("dataset file to write", [](const std::string& t, F::Engine* e) { F::FldExporter().toFile("/nonexistent/" + t, e, 4, F::FldExporter::AllVariables); });
    add("numbers", [](const std::string& t, F::Engine*) { F::Op::toScalar(t); F::Op::toScalars(t); }); add("pairs", [](const std::string& t, F::Engine*) { F::Discrete d("d"); d.configure(t); F::Discrete::toPairs(F::Op::toScalars(t)); });
    add("whole fll", [](const std::string& t, F::Engine*) { delete F::FllImporter().fromString(t); }); add("whole fcl", [](const std::string& t, F::Engine*) { delete F::FclImporter().fromString(t); }); add("whole fis", [](const std::string& t, F::Engine*) { delete F::FisImporter().fromString(t); });
    return r;
}
const SV WORDS = {"", "0.5", "a", "(", "bogus", "if a is low then", "x is small", "Ramp", "Minimum", "-", "nan", ",", "sin", ")", "+", ":", "'", "[0 1]", "true", "=", "none", "with", "x", "1 2 3", "not"};
}
VF_SUITE(refusals) {
    const auto& rs = readers(); size_t k = (size_t) c.choose((int) rs.size()); int n = c.thorough ? 3 : SAN ? 2 : 3, N = c.thorough ? (int) WORDS.size() : SAN ? (int) WORDS.size() : 15; std::string head = c.pick(WORDS); c.begin();
    static std::unique_ptr<F::Engine> e; if (!e) { e.reset(bld::engine(ops::family(0))); inputs(e.get(), 0); e->process(); } std::string before = observe(e.get()), why; std::unique_ptr<Quiet> q(new Quiet);
    for (int j = 0; j < N && why.empty(); ++j) for (int i = 0; i < (n > 2 ? N : 1) && why.empty(); ++i) {
        std::string t = head + (j ? " " + WORDS[(size_t) j] : "") + (i ? " " + WORDS[(size_t) i] : ""); if (!j && i) continue; bool refused = false; c.step(2); c.checks(); std::string d;
        try { d = leak([&] { refused = false; try { rs[k].second(t, e.get()); } catch (F::Exception&) { refused = true; } }); } catch (std::exception& x) { d = vf::cat("raised ", x.what(), " which is not the library's exception"); }
        if (!d.empty()) why = rs[k].first + " of <" + t + ">" + (refused ? ", which is refused: " : ": ") + d; if (j < 4 && !i) c.state(vf::cat(k, head, refused, j));
    }
    q.reset(); if (why.empty()) { c.checks(); std::string now = observe(e.get()); if (now != before) why = rs[k].first + " of texts starting <" + head + "> changed the engine: " + imex::firstDiff(now, before); } if (!why.empty()) c.fail("refusal", why);
}
VF_SUITE(loads) {   // rules and formulas that are refused: nothing is left behind, and right ones load afterwards
    static const SV W = {"if", "a", "is", "low", "then", "x", "small", "and", "very", "(", ")", "with", "0.5", "or", "not", "with 2 3", "bogus"}, Wf = {"x", "+", "(", ")", "max", ",", "2", "sin", "-", "!", "bogus"};
    bool formula = c.flip(); const SV& A = formula ? Wf : W; std::string t; int n = 1 + c.choose(formula ? (SAN && !c.thorough ? 4 : 5) : 3);
    if (formula) { for (int i = 0; i < n; ++i) t += (i ? " " : "") + A[(size_t) c.choose((int) A.size() - (c.thorough ? 0 : i > 3 ? 6 : 0))]; if (n > 1) c.begin(); else c.begin(); }
    else {   // a right rule with up to n words replaced, removed or inserted
        SV r = {"if", "a", "is", "very", "low", "and", "(", "b", "is", "mid", "or", "a", "is", "any", ")", "then", "x", "is", "small", "and", "y", "is", "not", "large", "with", "0.5"}; if ((n == 3 && !c.thorough) || (n > 1 && SAN && !c.thorough)) c.prune();
        size_t from = 0; for (int i = 0; i < n; ++i) { int at = (int) from + c.choose((int) (r.size() - from)); int w = c.choose((int) W.size() * 2 + 1); if (i == 0) c.begin(); if (w == 0) r.erase(r.begin() + at); else if (w <= (int) W.size()) r[(size_t) at] = W[(size_t) w - 1]; else r.insert(r.begin() + at, W[(size_t) w - 1 - W.size()]); from = (size_t) at + 1; if (from >= r.size()) break; if (c.thorough && n == 3 && (at % 3)) c.prune(); }
        for (auto& x : r) t += (t.empty() ? "" : " ") + x;
    }
    static std::unique_ptr<F::Engine> e; if (!e) { e.reset(bld::engine(ops::family(0))); } bool refused = false; std::string d; c.step(); c.checks();
    if (formula) d = leak([&] { F::Function f("f", "x * 3", e.get()); f.load(); try { f.load(t, e.get()); } catch (F::Exception&) { refused = true; } f.setFormula("x * 4"); f.load(); if (f.membership(2) != 8) throw std::runtime_error("a right formula loaded afterwards gives another value"); });
    else d = leak([&] { F::Rule r; r.setText("if a is low then x is small"); r.load(e.get()); r.setText(t); try { r.load(e.get()); } catch (F::Exception&) { refused = true; if (r.isLoaded()) throw std::runtime_error("a rule that was refused is loaded"); } r.setText("if b is mid then y is large with 0.25"); r.load(e.get()); if (!r.isLoaded() || r.getWeight() != 0.25) throw std::runtime_error("a right rule loaded afterwards is not loaded"); });
    if (!d.empty()) c.fail("load-leak", d + ": " + t); c.state(vf::cat(formula, refused, n));
}
// The exception of the library carries what was said of the failure, in order, also as a standard exception and as a copy
VF_SUITE(messages) {
    int n = c.choose(4); std::vector<std::string> said; std::string log; bool first = c.choose(2); c.begin();
    auto where = [&](const std::string& f, int l, const std::string& fn) { said.push_back(f); said.push_back(fn); said.push_back(vf::cat(l)); };
    std::unique_ptr<fuzzylite::Exception> e; said.push_back("[first] message"); if (first) { e.reset(new fuzzylite::Exception("[first] message", "file0.cpp", 100, "function0")); where("file0.cpp", 100, "function0"); } else e.reset(new fuzzylite::Exception("[first] message"));
    for (int i = 1; i <= n; ++i) {
        std::string t = vf::cat("message", i), f = vf::cat("file", i, ".cpp"), fn = vf::cat("function", i);
        switch (c.choose(6)) {
            case 0: said.clear(); said.push_back(t); e->setWhat(t); log += "set "; break;
            case 1: said.push_back(t); e->append(t); log += "append "; break;
            case 2: where(f, 100 + i, fn); e->append(f, 100 + i, fn); log += "append-where "; break;
            case 3: said.push_back(t); where(f, 100 + i, fn); e->append(t, f, 100 + i, fn); log += "append-both "; break;
            case 4: { std::unique_ptr<fuzzylite::Exception> k(new fuzzylite::Exception(*e)); e->setWhat("gone"); e = std::move(k); log += "copy "; break; }
            case 5: { fuzzylite::Exception k("other"); k = *e; try { throw k; } catch (std::exception& x) { e.reset(new fuzzylite::Exception(x.what())); } log += "thrown "; break; }
        }
        c.step();
    }
    std::string w = e->what(), bad; if (w != e->getWhat()) bad = "what() and getWhat() differ; "; size_t at = 0;
    for (auto& x : said) { size_t p = w.find(x, at); if (p == std::string::npos) { bad += "<" + x + "> is missing; "; break; } at = p + x.size(); }
    if (!said.empty() && w.compare(0, said[0].size(), said[0])) bad += "the message does not come first; ";
    if (w.find("gone") != std::string::npos || w.find("other") != std::string::npos) bad += "a message of another exception; ";
    c.expect(bad.empty(), "message", [&] { return log + ": " + bad + "\n" + w; }); c.state(w);
}
