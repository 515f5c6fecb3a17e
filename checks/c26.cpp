// C26: debugging, logging, the number format and the tolerance change only what they document, whenever they are changed.
#include <iostream>
#include "ops.h"
#include "imex.h"
using namespace ref; namespace F = fuzzylite;
namespace {
// What a program observes, without any printed digits: values by their bits, and words.
struct Obs {
    std::string s; std::function<void()> at;     // at: a point at which the settings may change
    Obs& operator<<(double d) { if (d != d) s += "nan;"; else { if (d == 0) d = 0; char b[40]; snprintf(b, sizeof b, "%a;", d); s += b; } if (at) at(); return *this; }
    Obs& w(const std::string& x) { s += x + ";"; if (at) at(); return *this; }
    template <class V> Obs& all(const V& v) { for (double d : v) *this << d; return *this; }
    void fails(const std::function<void()>& f) { try { f(); w("ok"); } catch (F::Exception&) { w("exception"); } }
};
void look(Obs& o, F::Engine* e) {
    for (auto b : e->ruleBlocks()) for (auto r : b->rules()) { o << r->getActivationDegree() << r->getWeight(); o.w(vf::cat(r->isTriggered(), r->isLoaded(), r->isEnabled())); }
    for (auto v : e->outputVariables()) { o << v->getValue() << v->getPreviousValue(); for (auto& a : v->fuzzyOutput()->terms()) { o.w(a.getTerm()->getName()); o << a.getDegree(); } }
}
void process(Obs& o, F::Engine* e, const DV& vals = {0.2, 0.123456789, 0.987654321, 0.5, NaN}) {
    for (double v : vals) { size_t k = 0; for (auto i : e->inputVariables()) { i->setValue(k ? 1 - v : v); ++k; } o.fails([&] { e->process(); }); look(o, e); }
}
F::Engine* odd(int fam) {     // parameters that no short text expresses
    ref::Engine s = ops::family(fam); std::unique_ptr<F::Engine> e(bld::engine(s)); double w = 0.123456789;
    for (auto b : e->ruleBlocks()) for (auto r : b->rules()) { r->setWeight(1 - w); w *= 0.654321; }
    for (auto v : e->inputVariables()) { v->addTerm(new F::Gaussian("odd", 0.314159265, 0.271828183, 0.987654321)); }
    return e.release();
}
const char* FLL = "Engine: m\nInputVariable: a\n  range: 0 1\n  term: lo Triangle 0 0.123456789 1\n  term: hi Ramp 0.0000012345 1 0.987654321\nOutputVariable: o\n  range: 0 1\n  aggregation: Maximum\n  defuzzifier: Centroid 7\n  default: 0.123456789\n  lock-previous: true\n  term: x Discrete 0 0.123456 0.3333333 1 1 0\n  term: y Gaussian 0.7654321 0.123456\nOutputVariable: k\n  range: -1 1\n  defuzzifier: WeightedAverage\n  term: c Constant 0.123456789\n  term: l Linear 0.333333333 0.00001234\n  term: f Function a*1.23456789+0.00000123\nRuleBlock: r\n  implication: AlgebraicProduct\n  activation: First 3 0.0001234\n  rule: if a is lo then o is x and k is c with 0.987654321\n  rule: if a is very hi then o is y and k is f\n  rule: if a is not lo then k is l with 0.00012345\n  rule: if a is nothing then o is x\n  rule: if a is lo then k is c with 0.3\n";
const char* FIS = "[System]\nName='s'\nType='mamdani'\nVersion=2.0\nNumInputs=1\nNumOutputs=1\nNumRules=2\nAndMethod='min'\nOrMethod='max'\nImpMethod='min'\nAggMethod='max'\nDefuzzMethod='centroid'\n[Input1]\nName='a'\nRange=[0 1.123456789]\nNumMFs=2\nMF1='lo':'trimf',[0 0.123456789 1]\nMF2='hi':'gaussmf',[0.2345678 0.9]\n[Output1]\nName='o'\nRange=[0 1]\nNumMFs=2\nMF1='x':'trimf',[0 0.25 0.512345678]\nMF2='y':'smf',[0.3 0.87654321]\n[Rules]\n1, 1 (0.987654321) : 1\n2, 2 (1) : 1\n";
const char* FCL = "FUNCTION_BLOCK f\nVAR_INPUT\n a: REAL;\nEND_VAR\nVAR_OUTPUT\n o: REAL;\nEND_VAR\nFUZZIFY a\n RANGE := (0 .. 1);\n TERM lo := Triangle 0 0.123456789 1;\n TERM hi := (0.1234567, 0) (0.8765432, 1);\nEND_FUZZIFY\nDEFUZZIFY o\n RANGE := (0 .. 1);\n TERM x := Ramp 0 0.8765432;\n TERM y := Cosine 0.54321 0.3456789;\n METHOD : COG;\n ACCU : MAX;\n DEFAULT := 0.123456789;\nEND_DEFUZZIFY\nRULEBLOCK r\n AND : MIN;\n ACT : MIN;\n RULE 1 : if a is lo then o is x with 0.123456789\n RULE 2 : if a is hi then o is y\nEND_RULEBLOCK\nEND_FUNCTION_BLOCK\n";
struct Program { const char* name; std::function<void(Obs&)> run; };
const std::vector<Program>& programs() {
    static std::vector<Program> p; if (!p.empty()) return p;
    for (int k = 0; k < 3; ++k) p.push_back({k == 0 ? "process a Mamdani engine" : k == 1 ? "process a Takagi-Sugeno engine" : "process a Tsukamoto engine", [k](Obs& o) { std::unique_ptr<F::Engine> e(odd(k)); process(o, e.get()); e->restart(); look(o, e.get()); process(o, e.get(), {0.3}); }});
    for (int k = 0; k < 3; ++k) p.push_back({"copy an engine", [k](Obs& o) { std::unique_ptr<F::Engine> e(odd(k)); process(o, e.get(), {0.3}); std::unique_ptr<F::Engine> c(e->clone()); F::Engine d; d = *c; look(o, &d); e.reset(); process(o, c.get(), {0.123456789, NaN}); process(o, &d, {0.4}); }});
    for (const char* act : {"First", "Last", "Highest", "Lowest", "Threshold", "Proportional"}) p.push_back({"process with an activation method", [act](Obs& o) { std::unique_ptr<F::Engine> e(odd(0)); for (auto b : e->ruleBlocks()) { F::Activation* a = F::FactoryManager::instance()->activation()->constructObject(act); std::string k = act; a->configure(k == "First" || k == "Last" ? "2 0.01234567" : k == "Threshold" ? "> 0.01234567" : "2"); b->setActivation(a->clone()); delete a; } process(o, e.get()); }});
    p.push_back({"import the FuzzyLite Language", [](Obs& o) { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(FLL)); process(o, e.get()); for (auto v : e->outputVariables()) o << v->getMinimum() << v->getMaximum() << v->getDefaultValue(); }});
    p.push_back({"import FIS", [](Obs& o) { std::unique_ptr<F::Engine> e(F::FisImporter().fromString(FIS)); process(o, e.get()); o << e->getInputVariable((size_t) 0)->getMaximum(); }});
    p.push_back({"import FCL", [](Obs& o) { std::unique_ptr<F::Engine> e(F::FclImporter().fromString(FCL)); process(o, e.get()); }});
    p.push_back({"rules and texts", [](Obs& o) { std::unique_ptr<F::Engine> e(odd(0)); for (const char* t : {"if a is low and b is very odd then x is small with 0.123456789", "if a is low or (b is any and a is not mid) then x is small and y is seldom large", "if a is then x is small", "if a is low then x is nothing", "if", "if a is low then x is small with", "if a is low and then x is small", "if a is low b is low then x is small"}) { F::Rule r; o.fails([&] { r.load(t, e.get()); }); o.w(vf::cat(r.isLoaded())); o << r.getWeight(); if (r.isLoaded()) { F::Minimum m; F::Maximum s; e->getInputVariable((size_t) 0)->setValue(0.123456789); e->getInputVariable((size_t) 1)->setValue(0.3); o << r.activateWith(&m, &s); o.w(r.getAntecedent()->toPrefix()); o.w(r.getConsequent()->toString()); } } F::RuleBlock b; b.addRule(new F::Rule("if a is low then x is small")); b.addRule(new F::Rule("if a is wrong then x is small")); b.addRule(new F::Rule("if b is odd then y is large with 0.987654321")); o.fails([&] { b.loadRules(e.get()); }); for (auto r : b.rules()) { o.w(vf::cat(r->isLoaded())); o << r->getWeight(); } }});
    p.push_back({"formulas", [](Obs& o) { for (const char* t : {"sin(x)^2 + 0.123456789*x", "max(x, 2.3456789) * -x / 0.000123456", "~x % 0.3 and 1", "round(x * 7) / 1.23456789e4", "x +", "", "x 2", "1 and 1 or x"}) { F::Function f("f", t); o.fails([&] { f.load(); }); for (double x : {0.123456789, -0.5}) { o.fails([&] { o << f.membership(x); }); std::unique_ptr<F::Function> g(f.clone()); F::Function h("h"); h = *g; o.fails([&] { o << h.membership(x); }); } } }});
    p.push_back({"terms", [](Obs& o) { for (const ref::Term& t : termZoo()) { std::unique_ptr<F::Term> a(bld::term(t)); a->setHeight(0.987654321); std::unique_ptr<F::Term> b(a->clone()); for (double x : {0.0, 0.123456789, 0.5, 0.87654321, 1.0, NaN}) { o << a->membership(x) << b->membership(x); } o.w(b->className()); o.fails([&] { o << b->tsukamoto(0.123456789); }); std::unique_ptr<F::Term> d(F::FactoryManager::instance()->term()->constructObject(t.cls)); o.fails([&] { d->configure("0.123456789 0.3456789 0.56789 0.789 0.987654321"); o << d->membership(0.4) << d->getHeight(); }); o.fails([&] { d->configure("0.1 x 0.3"); }); } }});
    p.push_back({"variables", [](Obs& o) { F::OutputVariable v("v", 0, 1); v.addTerm(new F::Triangle("t2", 0.1, 0.50001, 0.9)); v.addTerm(new F::Triangle("t1", 0.1, 0.5, 0.9)); v.addTerm(new F::Gaussian("t0", 0.2, 0.1)); v.addTerm(new F::Constant("k", 0.123456789)); v.addTerm(new F::Function("bad", "x +")); v.setAggregation(new F::AlgebraicSum); for (double x : {0.12345, 0.5, 0.77777}) { v.fuzzify(x); double y = 0; F::Term* h = v.highestMembership(x, &y); o.w(h ? h->getName() : "-"); o << y; for (auto& a : v.maxActivations(x)) { o.w(a.getTerm()->getName()); o << a.getDegree(); } } v.sort(); for (auto t : v.terms()) o.w(t->getName()); F::Minimum m; for (int i = 0; i < 3; ++i) { v.fuzzyOutput()->addTerm(v.getTerm((size_t) (i % 2)), 0.123456789 * (i + 1), &m); v.fuzzyOutputValue(); v.fuzzyOutput()->toString(); } o << v.fuzzyOutput()->activationDegree(v.getTerm((size_t) 0)); for (auto& a : v.fuzzyOutput()->groupedTerms()) { o.w(a.getTerm()->getName()); o << a.getDegree(); } o << v.fuzzyOutput()->highestActivatedTerm().getDegree(); }});
    p.push_back({"defuzzifiers", [](Obs& o) { F::Trapezoid t("t", 0.123456789, 0.3, 0.51234567, 0.9); for (const char* n : {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}) { std::unique_ptr<F::Defuzzifier> d(F::FactoryManager::instance()->defuzzifier()->constructObject(n)); o << d->defuzzify(&t, 0, 1) << d->defuzzify(&t, 0.0012345, 1.2345678) << d->defuzzify(&t, 0, INF); } F::Aggregated a("a", 0, 1); F::Constant k("k", 0.123456789); F::Ramp r("r", 0, 1.23456789); F::Minimum m; a.addTerm(&k, 0.123456789, &m); for (const char* n : {"WeightedAverage", "WeightedSum"}) { std::unique_ptr<F::Defuzzifier> d(F::FactoryManager::instance()->defuzzifier()->constructObject(n)); o << d->defuzzify(&a, 0, 1); } a.clear(); a.addTerm(&r, 0.3456789, &m); for (const char* n : {"WeightedAverage", "WeightedSum", "Centroid"}) { std::unique_ptr<F::Defuzzifier> d(F::FactoryManager::instance()->defuzzifier()->constructObject(n)); o.fails([&] { o << d->defuzzify(&a, 0, 1); }); } }});
    p.push_back({"norms and hedges", [](Obs& o) { const DV g = {0.0, 0.123456789, 0.5, 0.98765432, 1.0}; for (auto& n : F::FactoryManager::instance()->tnorm()->available()) { std::unique_ptr<F::TNorm> t(F::FactoryManager::instance()->tnorm()->constructObject(n)); if (t.get() && n != "NormFunction") for (double a : g) for (double b : g) o << t->compute(a, b); } for (auto& n : F::FactoryManager::instance()->hedge()->available()) { std::unique_ptr<F::Hedge> h(F::FactoryManager::instance()->hedge()->constructObject(n)); if (h.get() && n != "HedgeFunction") for (double a : g) o << h->hedge(a); } F::HedgeFunction h("x * 0.123456789"); F::HedgeFunction i(h); o << h.hedge(0.3) << i.hedge(0.4); F::SNormFunction f("a * 0.123456789 + b"); F::SNormFunction q(f); o << f.compute(0.3, 0.4) << q.compute(0.5, 0.6); }});
    p.push_back({"benchmark", [](Obs& o) { std::unique_ptr<F::Engine> e(odd(0)); F::Benchmark b("b", e.get(), 1e-3); b.prepare(5, F::FldExporter::EachVariable); for (auto& r : b.getExpected()) o.all(r); b.run(2); for (auto& r : b.getObtained()) o.all(r); std::istringstream in("a b x y\n0.123456789 0.3 0.25 0.75\n# c\n0.98765432 0.1234567 nan 1e-7\n"); b.prepare(in); b.runOnce(); for (auto& r : b.getExpected()) o.all(r); for (auto& r : b.getObtained()) o.all(r); o << b.meanSquaredError(); o.w(vf::cat(b.allErrors(), b.nonFiniteErrors(), b.accuracyErrors(), b.canComputeErrors())); b.results(); }});
    p.push_back({"export and go on", [](Obs& o) { std::unique_ptr<F::Engine> e(odd(0)); process(o, e.get(), {0.123456789}); F::FllExporter().toString(e.get()); F::FclExporter().toString(e.get()); o.fails([&] { F::FisExporter().toString(e.get()); }); F::CppExporter().toString(e.get()); F::JavaExporter().toString(e.get()); look(o, e.get()); for (auto i : e->inputVariables()) { o << i->getValue() << i->getMinimum() << i->getMaximum(); for (auto t : i->terms()) o << t->getHeight() << t->membership(0.123456789); } process(o, e.get(), {0.4}); }});
    p.push_back({"datasets and go on", [](Obs& o) { std::unique_ptr<F::Engine> e(odd(1)); process(o, e.get(), {0.123456789}); F::FldExporter f; f.toString(e.get(), 3, F::FldExporter::EachVariable); for (auto i : e->inputVariables()) o << i->getValue(); look(o, e.get()); std::istringstream in("0.123456789 0.3\n0.4 0.56789012\n"); f.toString(e.get(), in); for (auto i : e->inputVariables()) o << i->getValue(); look(o, e.get()); o.fails([&] { std::istringstream bad("0.1 0.2\n0.3\n"); f.toString(e.get(), bad); }); }});
    p.push_back({"missing parts", [](Obs& o) { for (int k = 0; k < 6; ++k) { std::unique_ptr<F::Engine> e(odd(k == 5 ? 2 : 0)); if (k == 0) e->ruleBlocks()[0]->setConjunction(0); if (k == 1) e->ruleBlocks()[0]->setImplication(0); if (k == 2) e->outputVariables()[0]->setDefuzzifier(0); if (k == 3) e->outputVariables()[0]->setAggregation(0); if (k == 4) e->ruleBlocks()[0]->setActivation(0); std::string s; o.w(vf::cat(e->isReady(&s))); o.w(s); std::string n, r; e->type(&n, &r); o.w(n + r); process(o, e.get(), {0.3, 0.7}); } }});
    p.push_back({"terms that cannot be evaluated", [](Obs& o) { for (int k = 0; k < 6; ++k) { std::unique_ptr<F::Engine> e(odd(k % 2)); F::Variable* v = k < 3 ? static_cast<F::Variable*>(e->inputVariables()[0]) : static_cast<F::Variable*>(e->outputVariables()[0]); v->addTerm(k % 3 == 0 ? static_cast<F::Term*>(new F::Function("unused", "x +")) : k % 3 == 1 ? static_cast<F::Term*>(new F::Discrete("unused")) : static_cast<F::Term*>(new F::Function("unused", "x + nothing"))); process(o, e.get(), {0.3, NaN, INF, 0.7}); o.fails([&] { v->highestMembership(0.3); }); o.fails([&] { v->maxActivations(0.3); }); o.fails([&] { v->fuzzify(0.3); }); o.fails([&] { v->sort(); }); for (auto t : v->terms()) o.w(t->getName()); process(o, e.get(), {0.4}); } }});
    p.push_back({"numbers of texts", [](Obs& o) { o.all(F::Op::toScalars("0.123456789 -1e-9 inf -inf nan 12345678.9")); o << F::Op::scale(0.123456789, 0, 1, -1, 2) << F::Op::round(2.5) << F::Op::mean(DV{0.1, 0.22222222, 3.3}) << F::Op::standardDeviation(DV{0.1, 0.22222222, 3.3}) << F::Op::variance(DV{0.1, 0.22222222, 3.3}); for (double d : F::Op::midpoints(0, 1.23456789, 5)) o << d; o.fails([&] { F::Op::toScalar("1.5x"); }); for (auto& x : F::Op::split("a,b,,c", ",")) o.w(x); o.w(F::Op::validName("9 a-b")).w(F::Op::trim("  q ")); }});
    return p;
}
struct Setting { bool debug, log; int decimals; std::ios_base::fmtflags fmt; double atol; };
const Setting NORMAL = {false, true, 3, std::ios_base::fixed, 1e-3};
const std::vector<Setting>& settings() { static std::vector<Setting> v; if (v.empty()) { v.push_back(NORMAL); for (int d = 0; d < 2; ++d) for (int l = 0; l < 2; ++l) for (int n : {0, 3, 12}) for (int f = 0; f < 3; ++f) v.push_back({d == 1, l == 1, n, f == 0 ? std::ios_base::fixed : f == 1 ? std::ios_base::scientific : std::ios_base::fmtflags(0), n ? 1e-3 : 0.5}); } return v; }
std::string show(const Setting& s) { return vf::cat("debugging ", s.debug, ", logging ", s.log, ", ", s.decimals, " decimals, format ", s.fmt == std::ios_base::fixed ? "fixed" : s.fmt == std::ios_base::scientific ? "scientific" : "default", ", tolerance of tests ", s.atol); }
void set(const Setting& s) { F::fuzzylite::setDebugging(s.debug); F::fuzzylite::setLogging(s.log); F::fuzzylite::setDecimals(s.decimals); F::fuzzylite::setScalarFormat(s.fmt); F::fuzzylite::setAbsoluteTolerance(s.atol); }
struct Mute { std::ostringstream sink; std::streambuf* old; std::ios_base::fmtflags fl; std::streamsize pr; Mute() : old(std::cout.rdbuf(sink.rdbuf())), fl(std::cout.flags()), pr(std::cout.precision()) {} ~Mute() { std::cout.rdbuf(old); set(NORMAL); } bool touched() const { return std::cout.flags() != fl || std::cout.precision() != pr; } };
std::string observe(int p, const Setting& s, const Setting* later, long when, size_t* printed, long* points, const Setting* last = 0, long then = -1) {
    Mute m; set(s); Obs o; long n = 0; if (later || points) o.at = [&] { if (n == then) set(*last); if (n++ == when) set(*later); };
    programs()[(size_t) p].run(o); if (points) *points = n; if (printed) *printed = m.sink.str().size(); if (m.touched()) o.w("the format of the standard output is changed"); return o.s;
}
const std::string& normally(int p, long* points = 0) { static std::map<int, std::pair<std::string, long> > m; auto i = m.find(p); if (i == m.end()) { long n = 0; static const Setting quiet = {false, false, 3, std::ios_base::fixed, 1e-3}; std::string s = observe(p, quiet, &quiet, -1, 0, &n); i = m.insert({p, {s, n}}).first; } if (points) *points = i->second.second; return i->second.first; }
void judge(vf::Ctx& c, int p, const std::string& got, const std::string& how) {
    const std::string& want = normally(p); c.step(); c.state(vf::cat(p, got)); if (got == want) { c.checks(); return; }
    size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; size_t from = k > 30 ? k - 30 : 0;
    c.fail("setting-changes-result", vf::cat("<", programs()[(size_t) p].name, "> with ", how, " gives <..", got.substr(from, 90), "> where it gives <..", want.substr(from, 90), ">"));
}
}
VF_SUITE(settings) {     // every program under every setting; with neither debugging nor logging, nothing is printed
    int p = c.choose((int) programs().size()), s = c.choose((int) settings().size()); c.begin(); const Setting& S = settings()[(size_t) s]; size_t n = 0;
    judge(c, p, observe(p, S, 0, -1, &n, 0), show(S)); if (!S.debug && !S.log) c.expect(n == 0, "printed", [&] { return vf::cat("<", programs()[(size_t) p].name, "> prints ", n, " characters without debugging and logging"); });
    if (c.thorough) { int q = c.choose((int) programs().size()); judge(c, q, observe(q, NORMAL, 0, -1, 0, 0), "normal settings after <" + std::string(programs()[(size_t) p].name) + "> with " + show(S)); }
}
VF_SUITE(switching) {     // the settings change at any one point of a program
    int p = c.choose((int) programs().size()); static const std::vector<Setting> A = {NORMAL, {true, true, 0, std::ios_base::scientific, 0.5}, {false, false, 12, std::ios_base::fmtflags(0), 1e-9}, {true, false, 1, std::ios_base::fixed, 1}};
    int a = c.choose((int) A.size()), b = c.choose((int) A.size()); if (a == b) { c.begin(); c.prune(); } long pts = 0; normally(p, &pts); int stride = c.thorough ? 1 : 1 + (int) (pts / 60); int k = c.choose((int) (pts / stride)); c.begin();
    judge(c, p, observe(p, A[(size_t) a], &A[(size_t) b], (long) k * stride, 0, 0), vf::cat(show(A[(size_t) a]), " and, from point ", k * stride, " of ", pts, ", ", show(A[(size_t) b])));
}
// ---- the digits that are printed are those of the setting of the moment
namespace {
SV words(const std::string& s) { SV r; std::string t; for (char ch : s + " ") if (isspace((unsigned char) ch) || strchr("/(),;'\"[]=:", ch)) { if (!t.empty()) r.push_back(t); t.clear(); } else t += ch; return r; }
bool number(const std::string& s, double& v) { char* e = 0; if (s.empty() || !(isdigit((unsigned char) s[0]) || s[0] == '-' || s[0] == '+' || s[0] == '.')) return false; v = strtod(s.c_str(), &e); return *e == 0; }
std::string text(int k, F::Engine* e) { if (k >= 8) e->inputVariables()[0]->setValue(0.123456789), e->inputVariables()[1]->setValue(0.987654321), e->process();
    return k == 8 ? e->outputVariables()[0]->fuzzyOutput()->toString() : k == 9 ? e->outputVariables()[0]->fuzzyOutputValue() : k == 10 ? F::Op::join(DV{0.123456789, -3.14159265, 1e-7, NaN, INF}, " ") + " " + F::Op::join(3, " ", 0.987654321, 2.7182818284, -0.000123) : k == 11 ? F::Discrete::create("d", 6, 0.0, 0.123456789, 0.5, 0.87654321, 1.0, 0.5)->toString() : k == 12 ? F::RScriptExporter().toString(e, e->inputVariables()[0], e->inputVariables()[1], 4, F::FldExporter::AllVariables, e->outputVariables()) : k == 0 ? F::FllExporter().toString(e) : k == 1 ? F::FclExporter().toString(e) : k == 2 ? F::FisExporter().toString(std::unique_ptr<F::Engine>(F::FisImporter().fromString(FIS)).get()) : k == 3 ? F::CppExporter().toString(e) : k == 4 ? F::JavaExporter().toString(e) : k == 5 ? F::FldExporter().toString(e, 3, F::FldExporter::EachVariable) : k == 6 ? e->getInputVariable((size_t) 0)->fuzzify(0.123456789) + " " + e->getInputVariable((size_t) 0)->toString() : e->getRuleBlock((size_t) 0)->getRule((size_t) 0)->toString() + " " + e->getInputVariable((size_t) 0)->getTerm((size_t) 0)->toString(); }
}
VF_SUITE(digits) {
    int k = c.choose(13), fam = c.choose(2) * 2, d1 = c.choose(13), f1 = c.choose(2), d2 = c.choose(13), f2 = c.choose(2); c.begin(); Mute m;
    std::unique_ptr<F::Engine> e(odd(fam)); auto put = [](int d, int f) { F::fuzzylite::setDecimals(d); F::fuzzylite::setScalarFormat(f ? std::ios_base::scientific : std::ios_base::fixed); };
    F::fuzzylite::setDecimals(15); std::string fine = text(k, e.get()); put(d1, f1); std::string a = text(k, e.get()); put(d2, f2); std::string b = text(k, e.get()); put(d1, f1); std::string a2 = text(k, e.get()); c.step(4);
    c.expect(a == a2, "digits-history", [&] { return vf::cat("the text with ", d1, " decimals is different after a text with ", d2); }); SV w = words(fine), g = words(b); bool same = w.size() == g.size(); std::string why; double x, y;
    for (size_t i = 0; same && i < w.size(); ++i) { bool nw = number(w[i], x), ng = number(g[i], y); if (!nw || !ng) { if (w[i] != g[i] && !(nw && ng)) { same = false; why = w[i] + " / " + g[i]; } continue; } double unit = std::pow(10.0, -d2) * (f2 ? std::pow(10.0, std::floor(std::log10(std::fabs(x) + 1e-300))) : 1); bool whole = w[i].size() < 16 || w[i][w[i].size() - 16] != '.'; if (whole ? w[i] != g[i] : !(std::fabs(x - y) <= 0.5000001 * unit + 1e-9 * std::fabs(x) + (f2 ? 10.0 * std::pow(10.0, -d2) * std::fabs(x) : 0) || (std::fabs(x) < std::pow(10.0, -d2) && y == 0))) { same = false; why = w[i] + " / " + g[i]; } size_t dot = g[i].find('.'); if (!whole && !f2 && d2 && (dot == std::string::npos || g[i].size() - dot - 1 != (size_t) d2)) { same = false; why = g[i] + " has other decimals"; } if (!same) break; }
    c.expect(same, "digits", [&] { return vf::cat("text ", k, " with ", d2, " decimals, format ", f2, " has other numbers: ", why, "\n", b); }); c.state(b);
}
// ---- the tolerance of comparisons is the one of the moment
VF_SUITE(tolerance) {
    const double E[] = {0, 1e-12, 1e-6, 1e-3, 0.125}; double e0 = c.pick(E), e1 = c.pick(E), e2 = c.pick(E); c.begin(); struct Restore { ~Restore() { F::fuzzylite::setMachEps(1e-6); } } restore; std::vector<double> D = {0, INF}; for (double e : E) for (double f : {0.5, 0.99, 1.0, 1.01, 2.0}) D.push_back(e * f);
    for (double e : {e0, e1, e2, e0}) { F::fuzzylite::setMachEps(e); c.step(); c.expect(F::fuzzylite::macheps() == e, "macheps", [&] { return "the tolerance set is not the one given back"; });
        for (double a : {0.0, 0.5, -2.0, INF, (double) NaN}) for (double d : D) for (int sgn = -1; sgn < 2; sgn += 2) { double b = a + sgn * d; auto eqv = [&](double t) { return a == b || std::fabs(a - b) < t || (a != a && b != b); }; for (int x = 0; x < 2; ++x) { double t = x ? 0.01 : e; bool q = eqv(t);
            bool g[6] = {x ? F::Op::isEq(a, b, t) : F::Op::isEq(a, b), x ? F::Op::isLt(a, b, t) : F::Op::isLt(a, b), x ? F::Op::isLE(a, b, t) : F::Op::isLE(a, b), x ? F::Op::isGt(a, b, t) : F::Op::isGt(a, b), x ? F::Op::isGE(a, b, t) : F::Op::isGE(a, b), x ? q : (F::Op::eq(a, b) == 1.0)}; bool w[6] = {q, !q && a < b, q || a < b, !q && a > b, q || a > b, q};
            for (int i = 0; i < 6; ++i) c.expect(g[i] == w[i], "comparison", [&] { return vf::cat("comparison ", i, " of ", a, " and ", b, " with tolerance ", t, " is ", g[i]); }); } } }
}
VF_SUITE(selection) {     // what activation methods and rules compare, they compare with the tolerance of the moment
    const double E[] = {1e-12, 1e-6, 1e-3, 0.125}; double e1 = c.pick(E), e2 = c.pick(E); int act = c.choose(8); static const SV A = {"General", "First", "Last", "Highest", "Lowest", "Threshold", "Threshold", "Proportional"}; static const SV CMPS = {">", ">", ">", ">", ">", ">=", "==", ">"};
    struct Restore { ~Restore() { F::fuzzylite::setMachEps(1e-6); EPS = 1e-6; } } restore; ref::Block b; b.name = "b"; b.impl = "Minimum"; b.act = A[(size_t) act]; b.cmp = CMPS[(size_t) act]; b.n = 2; b.thr = act >= 3 && act <= 4 ? 0 : c.flip() ? 0.5 : 0; int k0 = c.choose(9), k1 = c.choose(9), k2 = c.choose(3); c.begin();
    ref::Engine s; s.name = "t"; for (int i = 0; i < 3; ++i) { s.in.push_back(inVar(vf::cat("i", i), 0, 1, {T("Constant", "t", {0})})); b.rules.push_back(R(P(i, 0), {C(0, i)})); } s.out = {outVar("x", 0, 1, {T("Ramp", "o0", {0, 1}), T("Ramp", "o1", {0, 1}), T("Ramp", "o2", {0, 1})}, "Maximum", "Centroid", 4)}; s.blocks = {b};
    std::unique_ptr<F::Engine> e; for (double t : {e1, e2, e1}) { DV D = {0, t * 0.5, t * 1.5, 0.5, 0.5 - t * 0.5, 0.5 - t * 1.5, 0.5 + t * 0.5, 0.5 + t * 1.5, 1}; DV v = {D[(size_t) k0], D[(size_t) k1], D[(size_t) k2]}; for (int i = 0; i < 3; ++i) s.in[(size_t) i].terms[0].p[0] = v[(size_t) i];
        F::fuzzylite::setMachEps(t); EPS = t; if (!e.get()) e.reset(bld::engine(s)); ref::State st = initial(s); for (int i = 0; i < 3; ++i) { static_cast<F::Constant*>(e->getInputVariable((size_t) i)->getTerm((size_t) 0))->setValue(v[(size_t) i]); e->getInputVariable((size_t) i)->setValue(0.5); st.in[(size_t) i] = 0.5; }
        ref::process(s, st); e->process(); c.step(); std::string bad; if (!st.ambiguous) for (size_t r = 0; r < 3; ++r) if (e->getRuleBlock((size_t) 0)->getRule(r)->isTriggered() != st.triggered[0][r]) bad += vf::cat("rule ", r, " is ", st.triggered[0][r] ? "not " : "", "triggered; "); if (!bad.empty()) { c.fail("tolerance-selection", vf::cat(b.act, " ", b.cmp, " ", b.thr, " with tolerance ", t, " of degrees ", v[0], " ", v[1], " ", v[2], ": ", bad)); return; } c.checks(3); c.state(vf::cat(act, st.triggered[0][0], st.triggered[0][1], st.triggered[0][2])); }
}
VF_SUITE(restored) {     // what was done with another tolerance or other settings leaves nothing behind
    static const DV E = {0, 1e-12, 1e-3, 0.125}; int p = c.choose((int) programs().size()), q = c.choose((int) programs().size()), e = c.choose((int) E.size()); int k = c.choose(2); c.begin(); normally(q); struct Restore { ~Restore() { F::fuzzylite::setMachEps(1e-6); } } restore;
    Setting other = settings()[k ? 30 : 0]; F::fuzzylite::setMachEps(E[(size_t) e]); std::string a = observe(p, other, 0, -1, 0, 0), b = observe(p, NORMAL, 0, -1, 0, 0); c.step(3);
    c.expect(a == b, "setting-changes-result", [&] { return vf::cat("<", programs()[(size_t) p].name, "> with tolerance ", E[(size_t) e], " depends on ", show(other)); });
    F::fuzzylite::setMachEps(1e-6); judge(c, q, observe(q, NORMAL, 0, -1, 0, 0), vf::cat("normal settings after <", programs()[(size_t) p].name, "> with tolerance ", E[(size_t) e]));
}
VF_SUITE(twice) {     // the settings change at one point and again at a later one
    int p = c.choose((int) programs().size()); static const std::vector<Setting> A = {NORMAL, {true, true, 0, std::ios_base::scientific, 0.5}, {false, false, 12, std::ios_base::fmtflags(0), 1e-9}};
    int a = c.choose(3), b = c.choose(2), d = c.choose(2); b += b >= a; d += d >= b; long pts = 0; normally(p, &pts); int stride = 1 + (int) (pts / (c.thorough ? 60 : 14)); int n = (int) ((pts + stride - 1) / stride), i = c.choose(n), j = c.choose(n); if (j <= i) { c.begin(); c.prune(); } c.begin();
    judge(c, p, observe(p, A[(size_t) a], &A[(size_t) b], (long) i * stride, 0, 0, &A[(size_t) d], (long) j * stride), vf::cat(show(A[(size_t) a]), ", from point ", i * stride, " of ", pts, " ", show(A[(size_t) b]), ", from point ", j * stride, " ", show(A[(size_t) d])));
}
