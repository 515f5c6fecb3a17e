// C19: engines in different threads do not disturb each other, whatever the schedule.
#include <fuzzylite/Headers.h>
#include <fstream>
#include <iomanip>
#include <memory>
#include "vfsched.h"
#include "vf.h"
namespace F = fuzzylite;
namespace {
typedef std::vector<std::string> SV;
typedef std::function<std::string()> Body;
const char* MAMDANI = "Engine: m\nInputVariable: a\n  range: 0 1\n  term: lo Triangle 0 0 1\n  term: hi Ramp 0 1\nInputVariable: b\n  range: 0 1\n  term: lo Discrete 0 1 0.5 0.5 1 0\n  term: fn Function a*x+0.25\nOutputVariable: o\n  range: 0 1\n  aggregation: Maximum\n  defuzzifier: Centroid 5\n  lock-previous: true\n  term: x Triangle 0 0.25 0.5\n  term: y Gaussian 0.75 0.125\nRuleBlock: r\n  conjunction: Minimum\n  disjunction: AlgebraicSum\n  implication: AlgebraicProduct\n  activation: Proportional\n  rule: if a is lo and b is very lo then o is x\n  rule: if a is hi or b is not fn then o is somewhat y with 0.5\n";
const std::string plain = [] { std::string t = MAMDANI; size_t k = t.find("Function a*x+0.25"); return t.replace(k, 17, "Ramp 1 0"); }(); const char* PLAIN = plain.c_str();   // evaluating the formula of a term writes its variables: such terms are not shared
const char* SUGENO = "Engine: s\nInputVariable: a\n  range: -1 1\n  term: lo Sigmoid 0 -4\n  term: hi Bell 0.5 0.25 2\nOutputVariable: o\n  range: -5 5\n  defuzzifier: WeightedAverage\n  default: 0.5\n  term: k Constant 2\n  term: l Linear 1 0.5\n  term: f Function sin(a)+a\nRuleBlock: r\n  activation: Highest 2\n  rule: if a is lo then o is k\n  rule: if a is extremely hi then o is l\n  rule: if a is any then o is f\n";
std::string run(F::Engine* e, double step) {
    std::ostringstream o; o << std::setprecision(17);
    for (double v = -0.25; v < 1; v += step) { for (auto i : e->inputVariables()) i->setValue(v); e->process(); for (auto x : e->outputVariables()) o << x->getValue() << " " << x->fuzzyOutputValue() << ";"; for (auto i : e->inputVariables()) o << i->fuzzyInputValue() << ";"; }
    return o.str();
}
std::string text(const char* t, double step) { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(t)); return run(e.get(), step); }
std::unique_ptr<F::Engine>*shared, *clones[3];
struct Program { const char* name; Body body; };
// each prepares, uses and destroys what it works with
std::vector<Program> programs() {
    std::vector<Program> p;
    p.push_back({"import and run", [] { return text(MAMDANI, 0.5); }});
    p.push_back({"import and run with functions", [] { return text(SUGENO, 0.5); }});
    p.push_back({"export", [] { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(MAMDANI)); std::string s = F::FllExporter().toString(e.get()) + F::CppExporter().toString(e.get()) + F::JavaExporter().toString(e.get()); try { s += F::FclExporter().toString(e.get()); } catch (F::Exception& x) { s += x.getWhat(); } e.reset(F::FllImporter().fromString(SUGENO)); try { s += F::FisExporter().toString(e.get()); } catch (F::Exception& x) { s += x.getWhat(); } return s; }});
    p.push_back({"datasets", [] { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(SUGENO)); std::string s = F::FldExporter().toString(e.get(), 3, F::FldExporter::AllVariables); std::istringstream in("a\n0.5\n# c\n-0.25\n"); return s + F::FldExporter().toString(e.get(), in) + F::RScriptExporter().toString(e.get(), e->getInputVariable((size_t) 0), e->getInputVariable((size_t) 0), 2, F::FldExporter::EachVariable, e->outputVariables()); }});
    p.push_back({"other formats", [] { std::unique_ptr<F::Engine> e(F::FllImporter().fromString("Engine: q\nInputVariable: a\n  range: 0 1\n  term: lo Ramp 1 0\nOutputVariable: o\n  range: 0 1\n  defuzzifier: WeightedAverage\n  term: x Ramp 0 1\nRuleBlock: r\n  implication: Minimum\n  activation: General\n  rule: if a is lo then o is x\n")); std::unique_ptr<F::Engine> g(F::FisImporter().fromString(F::FisExporter().toString(e.get()))), h(F::FclImporter().fromString(F::FclExporter().toString(e.get()))); return run(g.get(), 0.75) + run(h.get(), 0.75); }});
    p.push_back({"build, copy and configure", [] { F::Engine e("e"); for (int i = 0; i < 2; ++i) { F::InputVariable* v = new F::InputVariable(i ? "a" : "b", 0, 1); v->addTerm(new F::Cosine("c", 0.5, 1)); v->addTerm(new F::Spike("s", 0.5, 1)); e.addInputVariable(v); } F::OutputVariable* o = new F::OutputVariable("o", 0, 1); o->addTerm(new F::Trapezoid("t", 0, 0.25, 0.5, 1)); e.addOutputVariable(o); F::RuleBlock* b = new F::RuleBlock; b->addRule(F::Rule::parse("if a is c and b is seldom s then o is t", &e)); e.addRuleBlock(b); e.configure("Minimum", "Maximum", "Minimum", "Maximum", "LargestOfMaximum", "Threshold"); dynamic_cast<F::IntegralDefuzzifier*>(o->getDefuzzifier())->setResolution(5); std::string st; st += e.isReady(&st) ? "ready" : "not"; F::Engine f(e), g("g"); g = f; std::string n, r; st += vf::cat((int) g.type(&n, &r), n); return st + run(&g, 0.5) + f.toString(); }});
    p.push_back({"formulas", [] { std::string s; for (auto t : {"sin(x)^2+cos(x)^2", "max(x,2)*-x", "~x % 0.3 and 1", "round(x*7)/pi"}) { try { F::Function f("f", t, std::map<std::string, F::scalar>(), 0, true); s += vf::cat(f.membership(0.5), f.root() ? f.root()->toPostfix() : "", ";"); } catch (F::Exception& e) { s += e.getWhat(); } } return s; }});
    p.push_back({"errors", [] { std::string s; for (auto t : {"Engine: a\nInputVariable: b\n term: c Nothing 1", "Engine: a\n  colour: 3", "RuleBlock: r\n  activation: Unknown"}) try { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(t)); s += "?"; } catch (F::Exception& e) { s += e.getWhat(); } F::Rule r; try { r.load("if a is b", 0); } catch (F::Exception& e) { s += e.getWhat(); } try { F::Op::toScalar("1.5x"); } catch (F::Exception& e) { s += e.getWhat(); } return s; }});
    p.push_back({"text and numbers", [] { std::string s = F::Op::str(0.125) + F::Op::str(1e9 / 3, 5) + F::Op::join(F::Op::split("a,b,,c", ","), "|") + F::Op::findReplace("aXbXc", "X", "YY") + F::Op::trim("  q ") + F::Op::validName("9 a-b"); std::vector<F::scalar> v = F::Op::toScalars("1 -2.5 nan inf 1e-3"); for (double x : v) s += F::Op::str(x) + F::Op::str(F::Op::scale(x, 0, 1, 2, 4)); return s + vf::cat(F::Op::mean(v), F::Op::isEq(0.1, 0.1 + 1e-9)); }});
    p.push_back({"benchmark", [] { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(SUGENO)); F::Benchmark b("b", e.get()); std::istringstream in("a o\n0.5 1\n-0.25 0.5\n"); b.prepare(in); b.runOnce(); return vf::cat(b.meanSquaredError(), b.allErrors(), F::Op::join(F::Benchmark().header(2, true), ",")); }});
    p.push_back({"every component", [] { std::ostringstream o; o << std::setprecision(17); F::FactoryManager* m = F::FactoryManager::instance();
        for (auto& n : m->term()->available()) { std::unique_ptr<F::Term> t(m->term()->constructObject(n)); if (!t.get() || n == "Function" || n == "Linear") continue; try { t->configure(n == "Discrete" ? "0 0.1 0.5 1 1 0.2 0.9" : n == "Constant" ? "0.5" : "0.1 0.3 0.6 0.9"); } catch (F::Exception&) { t->configure("0.1 0.3"); } for (double x : {0.05, 0.2, 0.7}) o << t->membership(x) << " "; o << t->toString(); std::unique_ptr<F::Term> k(t->clone()); if (t->isMonotonic()) o << k->tsukamoto(0.4); }
        F::Triangle a("a", 0, 0.3, 1), b("b", 0.2, 0.6, 0.7); for (auto& n : m->snorm()->available()) { std::unique_ptr<F::SNorm> t(m->snorm()->constructObject(n)); if (!t.get() || n == "SNormFunction") continue; o << t->compute(0.3, 0.6) << " "; F::Aggregated g("g", 0, 1, t->clone()); F::AlgebraicProduct i; g.addTerm(&a, 0.4, &i); g.addTerm(&b, 0.7, &i); g.addTerm(&a, 0.2, &i); o << g.membership(0.35) << g.activationDegree(&a) << g.highestActivatedTerm().getDegree() << g.maximallyActivatedTerms().size() << g.groupedTerms().size() << g.fuzzyValue(); for (auto& d : m->defuzzifier()->available()) { std::unique_ptr<F::Defuzzifier> z(m->defuzzifier()->constructObject(d)); if (F::IntegralDefuzzifier* q = dynamic_cast<F::IntegralDefuzzifier*>(z.get())) { q->setResolution(3); o << q->defuzzify(&g, 0, 1) << " "; } } }
        for (auto& n : m->tnorm()->available()) { std::unique_ptr<F::TNorm> t(m->tnorm()->constructObject(n)); if (t.get() && n != "TNormFunction") o << t->compute(0.3, 0.6) << " "; }
        for (auto& n : m->hedge()->available()) { std::unique_ptr<F::Hedge> t(m->hedge()->constructObject(n)); if (t.get() && n != "HedgeFunction") o << t->hedge(0.3) << " "; }
        F::TNormFunction tf("a * b"); F::SNormFunction sf("a + b - a * b"); F::HedgeFunction hf("x * x"); o << tf.compute(0.5, 0.25) << sf.compute(0.5, 0.25) << hf.hedge(0.5); F::Ramp ra("r", 0, 1), rb("s", 1, 0); F::Constant ca("c", 2); F::Aggregated g("g", 0, 1); g.addTerm(&ra, 0.3, 0); g.addTerm(&rb, 0.6, 0); o << F::WeightedAverage().defuzzify(&g, 0, 1) << F::WeightedSum().defuzzify(&g, 0, 1); g.clear(); g.addTerm(&ca, 0.3, 0); o << F::WeightedAverage().defuzzify(&g, 0, 1) << F::WeightedSum().defuzzify(&g, 0, 1);
        for (const char* n : {"First", "Last", "Highest", "Lowest", "Threshold", "Proportional", "General"}) { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(std::string("Engine: e\nInputVariable: a\n  range: 0 1\n  term: t Ramp 0 1\nOutputVariable: o\n  range: 0 1\n  defuzzifier: WeightedSum\n  term: k Constant 2\n  term: l Constant 3\nRuleBlock: r\n  activation: ") + n + "\n  rule: if a is t then o is k\n  rule: if a is not t then o is l\n")); o << run(e.get(), 0.75); e->getOutputVariable((size_t) 0)->sort(); o << e->getOutputVariable((size_t) 0)->fuzzify(2); } return o.str(); }});
    p.push_back({"examples of the console", [] { std::unique_ptr<F::Engine> e(F::Console::mamdani()), f(F::Console::takagiSugeno()); return F::FllExporter().toString(e.get()) + F::FllExporter().toString(f.get()) + F::Console().usage(); }});
    return p;
}
// each works on its own clone of one engine, or reads the engine they share
std::vector<Program> sharing() {
    std::vector<Program> p;
    p.push_back({"copy the shared engine", [] { std::unique_ptr<F::Engine> e((*shared)->clone()); return run(e.get(), 0.5); }});
    p.push_back({"export the shared engine", [] { const F::Engine* e = shared->get(); return F::FllExporter().toString(e) + F::CppExporter().toString(e) + F::FclExporter().toString(e) + F::JavaExporter().toString(e); }});
    p.push_back({"ask the shared engine", [] { const F::Engine* e = shared->get(); std::string s; s += e->isReady(&s) ? "ready" : "not"; std::string n, r; s += vf::cat((int) e->type(&n, &r), n, r, e->toString().size()); for (auto v : e->inputVariables()) for (double x : {0.0, 0.3, 1.0}) { s += v->fuzzify(x); F::scalar y = 0; const F::Variable* c = v; F::Term* h = c->highestMembership(x, &y); s += h ? h->getName() + vf::num(y) : "-"; } for (auto t : e->outputVariables().front()->terms()) s += t->toString() + vf::num(t->membership(0.3)); s += e->ruleBlocks().front()->rules().front()->getText() + e->ruleBlocks().front()->rules().front()->toString(); return s; }});
    return p;
}
std::string globals() { return vf::cat(F::fuzzylite::decimals(), " ", F::fuzzylite::macheps(), " ", F::fuzzylite::isLogging(), F::fuzzylite::isDebugging(), " ", F::fuzzylite::version(), std::locale().name(), setlocale(LC_ALL, 0)); }
struct Scene { std::vector<Program> ps; std::function<void()> setup; };
const Scene& scene(int k) {
    static Scene s[3]; if (s[0].ps.empty()) {
        s[0].ps = programs(); s[1].ps = sharing();
        s[1].setup = [] { shared = new std::unique_ptr<F::Engine>(F::FllImporter().fromString(PLAIN)); for (auto v : (*shared)->inputVariables()) v->setValue(0.5); (*shared)->process(); };
        for (int i = 0; i < 3; ++i) { s[2].ps.push_back({"run a clone", [i] { std::string r = run(clones[i]->get(), 0.5 / (i + 1)); (*clones[i])->restart(); r += run(clones[i]->get(), 0.75) + (*clones[i])->toString(); clones[i]->reset(); return r; }}); }
        s[2].setup = [] { for (int i = 0; i < 3; ++i) clones[i] = new std::unique_ptr<F::Engine>(i ? (*clones[0])->clone() : F::FllImporter().fromString(MAMDANI)); };
    }
    return s[k];
}
const sched::Result& alone(int sc, int p, sched::Grain g) {
    static std::map<std::string, sched::Result> m; std::string k = vf::cat(sc, ".", p, ".", (int) g); auto i = m.find(k); if (i != m.end()) return i->second;
    sched::Plan plan; plan.grain = g; return m[k] = sched::run({scene(sc).ps[(size_t) p].body}, plan, scene(sc).setup, globals);
}
void judge(vf::Ctx& c, int sc, const std::vector<int>& ps, const sched::Plan& plan, const sched::Result& r) {
    std::string who; for (int p : ps) who += std::string(who.empty() ? "<" : ", <") + scene(sc).ps[(size_t) p].name + ">"; std::string when = vf::cat("threads ", who, ", thread ", plan.first, " first, preempted at"); for (auto x : plan.preempt) when += vf::cat(" ", x); when += ": ";
    c.step((sched::u64) r.accesses); c.checks((sched::u64) ps.size() + 3);
    if (!r.trouble.empty()) { c.fail("thread-trouble", when + r.trouble); return; }
    if (!r.race.empty()) c.fail("data-race", when + r.race);
    for (size_t i = 0; i < ps.size(); ++i) { const sched::Result& a = alone(sc, ps[i], plan.grain); if (!a.trouble.empty()) { c.fail("thread-trouble", when + "alone: " + a.trouble); return; } if (r.results[i] != a.results[0]) { size_t k = 0; while (k < r.results[i].size() && k < a.results[0].size() && r.results[i][k] == a.results[0][k]) ++k; size_t from = k > 60 ? k - 60 : 0; c.fail("thread-result", when + vf::cat("thread ", i, " gives <..", r.results[i].substr(from, 160), "> where it gives <..", a.results[0].substr(from, 160), "> alone")); } if (r.after != a.after) c.fail("thread-globals", when + "settings of the library are " + r.after + ", were " + a.after); }
    c.describe([&] { return when + vf::cat(r.accesses, " accesses, ", r.granules, " places, ", r.switches, " switches"); });
    std::string st = vf::cat(sc); for (size_t i = 0; i < ps.size(); ++i) st += vf::cat("/", ps[i], ":", r.results[i]); for (auto x : plan.preempt) st += vf::cat(",", x); c.state(st + vf::cat(plan.first));
}
// two threads, the first of them preempted once (or: taken up again and the second preempted too) at every point of the grain
void preempted(vf::Ctx& c, int sc, const std::vector<int>& ps, int bound, sched::Grain g, int stride = 1) {
    sched::Plan plan; plan.grain = g; plan.races = bound == 1 && g == sched::Statics; sched::u64 f = alone(sc, ps[0], g).points.at(0), all = f + alone(sc, ps[1], g).points.at(0); if (!f) c.prune();
    sched::u64 p = (sched::u64) c.choose(1 + ((int) f - 1) / stride) * (sched::u64) stride; plan.preempt.push_back(p); if (bound == 2) { if (all <= p + 1) c.prune(); plan.preempt.push_back(p + 1 + (sched::u64) c.choose((int) (all - p - 1))); } c.begin();
    judge(c, sc, ps, plan, sched::run({scene(sc).ps[(size_t) ps[0]].body, scene(sc).ps[(size_t) ps[1]].body}, plan, scene(sc).setup, globals));
}
int any(vf::Ctx& c, int sc) { return c.choose((int) scene(sc).ps.size()); }
}
VF_SUITE(traces) {     // all pairs and triples of programs: where no accesses depend on each other, one execution stands for all interleavings
    int sc = c.choose(3), n = 2 + c.choose(2); std::vector<int> ps; for (int i = 0; i < n; ++i) ps.push_back(any(c, sc)); c.begin(); if (sc == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (ps[(size_t) i] == ps[(size_t) j]) c.prune();
    sched::Plan plan; plan.grain = sched::Sync; std::vector<Body> b; for (int p : ps) b.push_back(scene(sc).ps[(size_t) p].body); judge(c, sc, ps, plan, sched::run(b, plan, scene(sc).setup, globals));
}
VF_SUITE(statics) {     // preemption at every access to static memory and at every synchronisation
    int sc = c.choose(3); int a = any(c, sc), b = any(c, sc); if (sc == 2 && a == b) c.prune(); if (!c.thorough && sc == 0 && scene(0).ps[(size_t) a].name == std::string("every component") && b != (a + 1) % (int) scene(0).ps.size() && b != a) c.prune(); preempted(c, sc, {a, b}, 1, sched::Statics);
}
VF_SUITE(functions) {     // preemption at every entry of a function as well
    int sc = c.choose(3); int a = any(c, sc), b = any(c, sc); if (sc == 2 && a == b) c.prune(); if (!c.thorough && b != (a + 1) % (int) scene(sc).ps.size()) c.prune();
    preempted(c, sc, {a, b}, 1, sched::Functions, c.thorough && b == (a + 1) % (int) scene(sc).ps.size() ? 1 : c.thorough ? 4 : 8);
}
VF_SUITE(twice) {     // both threads preempted
    static const int P[][3] = {{0, 8, 8}, {0, 8, 7}, {0, 7, 8}, {0, 7, 7}, {0, 6, 6}, {0, 6, 7}, {1, 0, 0}, {1, 0, 2}, {1, 2, 2}, {1, 1, 2}, {2, 0, 1}, {2, 1, 0}, {0, 0, 0}, {0, 1, 1}, {0, 0, 1}, {0, 9, 9}};
    auto& p = P[c.choose(c.thorough ? 16 : 4)]; preempted(c, p[0], {p[1], p[2]}, 2, sched::Statics);
}
VF_SUITE(accesses) {     // preemption at every single access to memory, of small programs
    static const int P[][2] = {{8, 8}, {8, 7}, {7, 8}, {7, 7}, {6, 6}, {6, 7}, {0, 0}, {1, 1}}; int k = c.choose(c.thorough ? 8 : 2); preempted(c, 0, {P[k][0], P[k][1]}, 1, sched::Accesses);
}
