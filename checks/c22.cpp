// C22: the C++ and the Java code written for an engine builds that engine.
#include "imex.h"
#include <dlfcn.h>
#include <fstream>
#include <glob.h>
#include <unistd.h>
using namespace ref;
namespace F = fuzzylite;
namespace {
typedef std::vector<ref::Engine> Engines;
ref::Term fn(const std::string& n, const std::string& f, std::function<double(double, const DV&, const DV&)> g) { ref::Term t; t.cls = "Function"; t.name = n; t.formula = f; t.f = g; return t; }
ref::Engine base() {
    ref::Engine e; e.name = "my engine";
    e.in = {inVar("a", 0, 1, {T("Ramp", "low", {1, 0}), T("Triangle", "mid", {0, 0.5, 1}), T("Ramp", "high", {0, 1})}), inVar("b", 0, 1, {T("Ramp", "low", {1, 0}), T("Gaussian", "high", {1, 0.25})})};
    e.out = {outVar("x", 0, 1, {T("Triangle", "small", {0, 0.25, 0.5}), T("Ramp", "large", {0.5, 1})}, "Maximum", "Centroid", 25)};
    ref::Block b; b.name = "rb"; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "Minimum"; b.act = "General";
    b.rules = {R(And(P(0, 0), P(1, 1)), {C(0, 0)}), R(Or(P(0, 2, {"very"}), P(1, 0)), {C(0, 1)}, 0.75)};
    e.blocks = {b};
    return e;
}
const std::vector<DV> IN = {{0.2, 0.7, 0.4}, {0.65, 0.1, 0.9}};
SV none(SV v) { v.push_back(""); return v; }
bool runnable(const ref::Engine& s) { for (auto& v : s.out) if (v.defuzz.empty()) return false; return true; }
void hush(ref::Engine& e) { for (auto& b : e.blocks) b.rules.clear(); }
std::vector<ref::Term> zoo() {
    std::vector<ref::Term> z = termZoo(); z.push_back(T("Constant", "t", {-2.5})); z.push_back(T("Constant", "t", {INF})); z.push_back(T("Constant", "t", {NaN})); z.push_back(T("Discrete", "t", {0, 1})); z.push_back(T("Discrete", "t", {})); z.push_back(T("Discrete", "t", {-INF, 0, -0.5, 0.25, 1000, 1, INF, 0.5}));
    z.push_back(T("Trapezoid", "t", {-INF, 0, 0.5, INF})); z.push_back(T("Rectangle", "t", {-INF, 0.5})); z.push_back(T("Triangle", "t", {-INF, 0, INF})); z.push_back(T("Bell", "t", {-1000.5, 0.001, 123456})); z.push_back(T("SigmoidDifference", "t", {-0.2, -20, -30, -0.8})); z.push_back(T("GaussianProduct", "t", {0.6, 0.1, 0.3, 0.2}));
    z.push_back(fn("t", "x", [](double x, const DV&, const DV&) { return x; })); z.push_back(fn("t", "max(a, x) * (1 - b) ^ 2", [](double x, const DV& in, const DV&) { return (in[0] != in[0] ? x : std::max(in[0], x)) * std::pow(1 - in[1], 2); }));
    z.push_back(fn("t", "10 % 4 + x", [](double x, const DV&, const DV&) { return 2 + x; }));
    return z;
}
// ---- the engines of each suite
Engines terms(bool thorough) {
    Engines r; std::vector<ref::Term> z = zoo();
    for (size_t k = 0; k < z.size(); ++k) for (int h = 0; h < (thorough ? 5 : 3); ++h) for (int out = 0; out < 2; ++out) for (int pos = 0; pos < (thorough ? 3 : 1); ++pos) {
        static const double H[] = {1, 0.5, 0, 2, 0.001}; ref::Term t = z[k]; t.h = H[h]; t.name = "T_1"; if ((t.cls == "Constant" || t.cls == "Function") && h) continue; if (t.p.empty() && t.cls == "Discrete" && h) continue; if (t.cls == "Function" && !out) continue;
        ref::Engine e = base(); Var& v = out ? e.out[0] : e.in[k % 2]; hush(e); int p = thorough ? pos : (int) (k + (size_t) h) % 3; if (p == 0) v.terms = {t}; else if (p == 1) v.terms.push_back(t); else v.terms.insert(v.terms.begin(), t); r.push_back(e);
    }
    // linear terms with every number of coefficients, for every number of inputs
    for (int ni = 0; ni < 4; ++ni) for (int nc = 0; nc <= ni + 1; ++nc) for (int sp = 0; sp < (nc ? 3 : 1); ++sp) {
        ref::Engine e = base(); hush(e); Var i = e.in[0]; e.in.clear(); for (int k = 0; k < ni; ++k) { i.name = vf::cat("in", k); e.in.push_back(i); }
        DV p; for (int k = 0; k < nc; ++k) p.push_back(sp == 1 ? (k % 2 ? INF : -INF) : sp == 2 && k == 0 ? NaN : 0.5 * k - 1); e.out[0].terms = {T("Linear", "l", p), T("Linear", "m", p)}; e.out[0].defuzz = "WeightedSum"; r.push_back(e);
    }
    return r;
}
Engines operators(bool thorough) {
    Engines r; SV tn = none(NAMES(TNORMS)), sn = none(NAMES(SNORMS)), df = none(NAMES(DEFUZZIFIERS));
    for (size_t i = 0; i < tn.size(); ++i) for (size_t j = 0; j < sn.size(); ++j) for (size_t k = 0; k < tn.size(); ++k) {
        if (!thorough && (i + j + k) % 4) continue; ref::Engine e = base(); Block& b = e.blocks[0]; b.conj = tn[i]; b.disj = sn[j]; b.impl = tn[k]; e.out[0].aggregation = sn[(i + j + 2 * k) % sn.size()]; if (b.conj.empty() || b.disj.empty() || b.impl.empty() || e.out[0].aggregation.empty()) hush(e); r.push_back(e);
    }
    for (auto& a : sn) for (auto& d : df) for (int m = 0; m < 3; ++m) {
        ref::Engine e = base(); Var& v = e.out[0]; v.aggregation = a; v.defuzz = d; if (d.empty()) { if (m) continue; hush(e); } else if (d[0] == 'W') { static const char* W[] = {"", "TakagiSugeno", "Tsukamoto"}; v.wtype = W[m]; v.terms = {T(m < 2 ? "Constant" : "Ramp", "small", m < 2 ? DV{0.25} : DV{0.25, 1.5}), T(m < 2 ? "Linear" : "Sigmoid", "large", m < 2 ? DV{1, -2, 0.5} : DV{0.5, 8})}; } else { static const int N[] = {1, 100, 1000}; v.res = N[m]; }
        if (a.empty()) hush(e); r.push_back(e);
    }
    for (auto& act : none(NAMES(ACTIVATIONS))) for (int n = 0; n < 4; ++n) for (double thr : {0.0, 0.25, 1.0, -0.5, INF}) for (auto& cmp : SV({"<", "<=", "==", "!=", ">=", ">"})) {
        bool t = act == "Threshold", hl = act == "Highest" || act == "Lowest", fl = act == "First" || act == "Last"; if (!t && cmp != ">=") continue; if (n && !hl && !fl) continue; if (thr != 0 && !t && !fl) continue; ref::Engine e = base(); Block& b = e.blocks[0]; b.act = act; b.n = n; b.thr = thr; b.cmp = cmp; if (act == "Proportional" && false) continue; r.push_back(e);
    }
    return r;
}
Engines variables(bool thorough) {
    Engines r; static const std::vector<DV> RG = {{0, 1}, {-1.5, 2.25}, {1, 0}, {-INF, INF}, {NaN, NaN}, {0, 0}, {-1000000, 1000000}};
    for (size_t g = 0; g < RG.size(); ++g) for (int f = 0; f < 4; ++f) for (int second = 0; second < 2; ++second) {
        ref::Engine e = base(); if (second) { Var v = e.in[1]; v.name = "c"; e.in.push_back(v); } Var& v = e.in[1]; v.enabled = f & 1; v.lockRange = f & 2; v.min = RG[g][0]; v.max = RG[g][1]; if (!v.enabled) hush(e); r.push_back(e);
        for (double d : {NaN, 0.0, -0.5, INF, -INF, 123.456}) for (int lp = 0; lp < 2; ++lp) {
            if (!thorough && (g + (size_t) f + (size_t) second + (size_t) lp + (d < 0) + 2 * (d > 0)) % 2) continue; ref::Engine o = base(); if (second) { Var w = o.out[0]; w.name = "y"; o.out.insert(o.out.begin(), w); } Var& w = o.out[0]; w.enabled = f & 1; w.lockRange = f & 2; w.min = RG[g][0]; w.max = RG[g][1]; w.def = d; w.lockPrev = lp; if (!w.enabled || !(w.min < w.max) || std::isinf(w.min)) hush(o); r.push_back(o);
        }
    }
    for (int f = 0; f < 4; ++f) { ref::Engine e = base(); e.blocks.push_back(e.blocks[0]); e.blocks[1].name = "second"; e.blocks[0].enabled = f & 1; e.blocks[1].enabled = f & 2; r.push_back(e); }
    return r;
}
Engines structure(bool thorough) {
    Engines r;
    for (int ni = 0; ni < 4; ++ni) for (int no = 0; no < 4; ++no) for (int nb = 0; nb < 4; ++nb) for (int shape = 0; shape < (thorough ? 4 : 2); ++shape) {
        ref::Engine p = base(), e = p; e.in.clear(); e.out.clear(); e.blocks.clear();
        for (int i = 0; i < ni; ++i) { Var v = p.in[(size_t) (i % 2)]; v.name = vf::cat("i", i, "_v"); if (i == 2) v.terms.clear(); e.in.push_back(v); }
        for (int i = 0; i < no; ++i) { Var v = p.out[0]; v.name = vf::cat("out", i); if (shape % 2) v.terms.push_back(T("Discrete", "d", {0, 0, 1, 1}, 0.5)); if (i == 2) { v.terms.clear(); } e.out.push_back(v); }
        for (int i = 0; i < nb; ++i) {
            Block b = p.blocks[0]; b.name = shape == 2 ? "" : vf::cat("block", i); b.rules.clear();
            if (ni >= 1 && no >= 1) {
                b.rules.push_back(R(P(0, 0), {C(0, 0)})); if (shape > 0) b.rules.push_back(R(P(0, 1, {"not", "very"}), {C(0, 1, {"somewhat"})}, 0.125));
                if (ni >= 2) { b.rules.push_back(R(And(Or(P(0, 0), P(1, 1)), P(0, 1)), {C(0, 0)})); b.rules.push_back(R(Or(P(0, -1, {"any"}), And(P(1, 0), P(0, 0, {"extremely"}))), {C(no >= 2 ? 1 : 0, 0), C(0, 1)}, 0)); }
                if (i) b.rules.push_back(R(And(P(0, 0, {}, true), P(0, 0)), {C(no >= 2 ? 1 : 0, 1)}));
            }
            e.blocks.push_back(b);
        }
        r.push_back(e);
    }
    return r;
}
Engines texts(bool thorough) {   // names and descriptions over an alphabet with all that strings of the languages treat specially
    Engines r; const SV A = {"a", " ", "\"", "\\", "\n", "'", "n", "u", "%", "{", "}", "?", "/", "*", ";", "0", "$", "\t", "\r", "#"}; SV w = {""}; size_t from = 0;
    for (int len = 1; len <= (thorough ? 3 : 2); ++len) { size_t to = w.size(); for (size_t i = from; i < to; ++i) for (size_t k = 0; k < (len == 3 ? 8 : A.size()); ++k) w.push_back(w[i] + A[k]); from = to; }
    for (size_t i = 0; i < w.size(); ++i) for (int where = 0; where < (thorough ? 4 : 1); ++where) { ref::Engine e = base(); int k = thorough ? where : (int) (i % 5); if (i % 3 == 0) hush(e); if (k == 0) e.desc = w[i]; if (k == 1) e.in[0].desc = w[i]; if (k == 2) e.out[0].desc = w[i]; if (k == 3) e.blocks[0].desc = w[i]; if (k == 4) e.name = w[i]; r.push_back(e); }
    for (const char* n : {"b", "x_1", "Name2", "x__", "is_not"}) { ref::Engine e = base(); e.in[1].name = n; e.out[0].terms[0].name = n; r.push_back(e); }
    return r;
}
struct Dec { int d; Dec() : d(F::fuzzylite::decimals()) {} ~Dec() { F::fuzzylite::setDecimals(d); } };
const char* optionText(int o) { static const char* N[] = {"plain", "with namespaces", "with variable names", "with namespaces and variable names"}; return N[o]; }
bool sh(const std::string& cmd) { return system(cmd.c_str()) == 0; }
std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
std::string repo() { const char* r = getenv("VP_REPO"); return r ? r : "/repo"; }
// compiles the code of several engines together; the engines built, null for code that does not compile or raises
struct Built { std::vector<F::Engine*> e; SV error; void* lib = 0; Built() {} Built(const Built&) = delete; ~Built() { for (auto x : e) delete x; if (lib) dlclose(lib); } };
void compile(const SV& code, Built& b, const std::string& dir) {
    static int serial = 0; std::string f = vf::cat(dir, "/g", getpid(), "_", serial++); b.e.assign(code.size(), 0); b.error.assign(code.size(), "");
    for (int round = 0; round < 2; ++round) {
        { std::ofstream o(f + ".cpp"); o << "#include \"fuzzylite/Headers.h\"\n"; for (size_t i = 0; i < code.size(); ++i) if (b.error[i].empty()) o << "extern \"C\" fuzzylite::Engine* make_" << i << "() {\n" << code[i] << "\nreturn engine;\n}\n"; }
        std::string cmd = "g++ -std=gnu++11 -O0 -g0 -w -fPIC -shared -fmax-errors=0 -DFL_BACKTRACE -I" + repo() + " " + f + ".cpp -o " + f + ".so > " + f + ".log 2>&1";
        if (sh(cmd)) break;
        // which engines? the compiler names the function of every error
        std::string log = slurp(f + ".log"); bool any = false; size_t at = 0;
        while ((at = log.find("make_", at)) != std::string::npos) { size_t i = (size_t) atoi(log.c_str() + at + 5); at += 5; if (i < code.size() && b.error[i].empty()) { b.error[i] = "the code does not compile: " + log.substr(at, 500); any = true; } }
        if (round || !any) { for (auto& x : b.error) if (x.empty()) x = "the code does not compile: " + log.substr(0, 800); unlink((f + ".cpp").c_str()); unlink((f + ".log").c_str()); return; }
    }
    b.lib = dlopen((f + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!b.lib) { for (auto& x : b.error) if (x.empty()) x = std::string("the code does not link: ") + dlerror(); }
    else for (size_t i = 0; i < code.size(); ++i) if (b.error[i].empty()) { typedef F::Engine* (*Make)(); Make m = (Make) dlsym(b.lib, vf::cat("make_", i).c_str()); try { b.e[i] = m(); } catch (std::exception& x) { b.error[i] = std::string("the code raised ") + x.what(); } }
    for (const char* x : {".cpp", ".log", ".so"}) unlink((f + x).c_str());
}
const int BATCH = 60;
struct Resolution { int r; Resolution() : r(F::IntegralDefuzzifier::defaultResolution()) {} ~Resolution() { F::IntegralDefuzzifier::setDefaultResolution(r); } };   // (the code does not depend on the defaults of where it is written or run)
void cpp(vf::Ctx& c, const char* key, const Engines& all, int optionsEach) {
    int n = (int) (all.size() + BATCH - 1) / BATCH; int batch = c.choose(n), oi = c.choose(optionsEach); c.begin();
    SV code; std::vector<size_t> id; std::vector<int> opt;
    for (size_t i = (size_t) batch * BATCH; i < all.size() && i < (size_t) (batch + 1) * BATCH; ++i) {
        int o = (int) ((i + (size_t) oi) % 4); if (optionsEach == 4) o = oi; Guard e(bld::engine(all[i])); c.step(); Resolution keep; F::IntegralDefuzzifier::setDefaultResolution(i % 3 == 2 ? 100 : i % 3 ? 1000 : 25); F::CppExporter x(o & 1, o & 2); if (x.isUsingNamespace() != bool(o & 1) || x.isUsingVariableNames() != bool(o & 2)) c.fail("options", optionText(o));
        std::string t = x.toString(e.e), again = x.toString(e.e); c.expect(t == again, "export-twice", [&] { return imex::firstDiff(again, t); }); std::string d = imex::specDiff(e.e, all[i], c); c.expect(d.empty(), "export-changes-the-engine", [&] { return d; }); code.push_back(t); id.push_back(i); opt.push_back(o);
    }
    Built b; { Resolution keep; F::IntegralDefuzzifier::setDefaultResolution(37); compile(code, b, c.scratch); }
    for (size_t i = 0; i < code.size(); ++i) {
        ref::Engine s = all[id[i]]; c.state(code[i]); std::string d = b.error[i];
        for (auto& v : s.out) for (auto& t : v.terms) if (t.cls == "Linear") while (t.p.size() < s.in.size() + 1) t.p.push_back(0);   // (the code reads a coefficient for each input and a constant)
        if (d.empty()) { d = imex::specDiff(b.e[i], s, c); if (d.empty() && runnable(s)) d = imex::behaves(b.e[i], s, c, IN); }
        if (!d.empty()) { c.fail(vf::cat("cpp-", key), vf::cat("the code of engine ", id[i], " written ", optionText(opt[i]), ": ", d, "\n", code[i])); return; }
    }
}
// ---- Java: the classes below stand in for jfuzzylite's, and record what the code does
std::string javaClasses() {
    std::ostringstream o; o << R"J(
import java.util.*;
class N { static String s(double d) { return Double.isNaN(d) ? "nan" : Double.isInfinite(d) ? (d > 0 ? "inf" : "-inf") : String.format("%.9f", d); } static String q(String t) { StringBuilder b = new StringBuilder("\""); for (char c : t.toCharArray()) { if (c < ' ' || c == '"' || c == '\\' || c > 126) b.append(String.format("\\%03d", (int) c)); else b.append(c); } return b + "\""; } }
class Op { String text; Op(Object... p) { StringBuilder b = new StringBuilder(getClass().getSimpleName()); for (Object x : p) b.append(" ").append(x instanceof String ? x : x instanceof Integer ? "" + x : N.s(((Number) x).doubleValue())); text = b.toString(); } static String of(Op o) { return o == null ? "none" : o.text; } }
class TNorm extends Op {} class SNorm extends Op {} class Defuzzifier extends Op { Defuzzifier(Object... p) { super(p); } } class Activation extends Op { Activation(Object... p) { super(p); } }
class Term extends Op { String name; Term(String name, Object... p) { super(p); this.name = name; } }
class Variable { String name = "", description = ""; boolean enabled = true, lock; double lo = Double.NaN, hi = Double.NaN; List<Term> terms = new ArrayList<>(); void setName(String n) { name = n; } void setDescription(String d) { description = d; } void setEnabled(boolean e) { enabled = e; } void setRange(double l, double h) { lo = l; hi = h; } void setLockValueInRange(boolean l) { lock = l; } void addTerm(Term t) { terms.add(t); }
  void show(StringBuilder b) { b.append(getClass().getSimpleName() + " " + N.q(name) + " " + N.q(description) + " " + enabled + " " + N.s(lo) + " " + N.s(hi) + " " + lock); } void showTerms(StringBuilder b) { b.append("\n"); for (Term t : terms) b.append("term " + N.q(t.name) + " " + t.text + "\n"); } }
class InputVariable extends Variable {}
class OutputVariable extends Variable { SNorm a; Defuzzifier d; double v = Double.NaN; boolean lp; void setAggregation(SNorm n) { a = n; } void setDefuzzifier(Defuzzifier x) { d = x; } void setDefaultValue(double x) { v = x; } void setLockPreviousValue(boolean x) { lp = x; } void show(StringBuilder b) { super.show(b); b.append(" " + Op.of(a) + " " + Op.of(d) + " " + N.s(v) + " " + lp); } }
class Rule { String text; static Rule parse(String t, Engine e) { if (e == null) throw new NullPointerException(); Rule r = new Rule(); r.text = t; return r; } }
class RuleBlock { String name = "", description = ""; boolean enabled = true; TNorm c, i; SNorm d; Activation a; List<Rule> rules = new ArrayList<>(); void setName(String n) { name = n; } void setDescription(String x) { description = x; } void setEnabled(boolean e) { enabled = e; } void setConjunction(TNorm n) { c = n; } void setDisjunction(SNorm n) { d = n; } void setImplication(TNorm n) { i = n; } void setActivation(Activation x) { a = x; } void addRule(Rule r) { rules.add(r); }
  void show(StringBuilder b) { b.append("RuleBlock " + N.q(name) + " " + N.q(description) + " " + enabled + " " + Op.of(c) + " " + Op.of(d) + " " + Op.of(i) + " " + Op.of(a) + "\n"); for (Rule r : rules) b.append("rule " + N.q(r.text) + "\n"); } }
class Engine { String name = "", description = ""; List<Variable> in = new ArrayList<>(), out = new ArrayList<>(); List<RuleBlock> blocks = new ArrayList<>(); void setName(String n) { name = n; } void setDescription(String d) { description = d; } void addInputVariable(InputVariable v) { in.add(v); } void addOutputVariable(OutputVariable v) { out.add(v); } void addRuleBlock(RuleBlock b) { blocks.add(b); }
  String show() { StringBuilder b = new StringBuilder("Engine " + N.q(name) + " " + N.q(description) + "\n"); for (Variable v : in) { v.show(b); v.showTerms(b); } for (Variable v : out) { v.show(b); v.showTerms(b); } for (RuleBlock r : blocks) r.show(b); return b.toString(); } }
class Discrete extends Term { Discrete(String n, Object... p) { super(n, p); } static Discrete create(String n, double... p) { Object[] o = new Object[p.length]; for (int i = 0; i < p.length; ++i) o[i] = p[i]; return new Discrete(n, o); } }
class Linear extends Term { Linear(String n, Object... p) { super(n, p); } static Linear create(String n, Engine e, double... p) { if (e == null) throw new NullPointerException(); Object[] o = new Object[p.length]; for (int i = 0; i < p.length; ++i) o[i] = p[i]; return new Linear(n, o); } }
class Function extends Term { Function(String n, String f) { super(n, f); } static Function create(String n, String f, Engine e) { if (e == null) throw new NullPointerException(); return new Function(n, f); } }
class Constant extends Term { Constant(String n, double v) { super(n, v); } }
)J";
    struct { const char* c; int n; } T_[] = {{"Bell", 3}, {"Binary", 2}, {"Concave", 2}, {"Cosine", 2}, {"Gaussian", 2}, {"GaussianProduct", 4}, {"PiShape", 4}, {"Ramp", 2}, {"Rectangle", 2}, {"SShape", 2}, {"Sigmoid", 2}, {"SigmoidDifference", 4}, {"SigmoidProduct", 4}, {"Spike", 2}, {"Trapezoid", 4}, {"Triangle", 3}, {"ZShape", 2}};
    for (auto& t : T_) { o << "class " << t.c << " extends Term {"; for (int h = 0; h < 2; ++h) { o << " " << t.c << "(String n"; for (int i = 0; i < t.n + h; ++i) o << ", double p" << i; o << ") { super(n"; for (int i = 0; i < t.n + h; ++i) o << ", p" << i; o << "); }"; } o << " }\n"; }
    for (auto& n : NAMES(TNORMS)) o << "class " << n << " extends TNorm {}\n"; for (auto& n : NAMES(SNORMS)) o << "class " << n << " extends SNorm {}\n";
    for (auto& n : NAMES(DEFUZZIFIERS)) o << "class " << n << " extends Defuzzifier { " << n << "(" << (n[0] == 'W' ? "String" : "int") << " r) { super(r); } }\n";
    o << "class General extends Activation {} class Proportional extends Activation {} class Highest extends Activation { Highest(int n) { super(n); } } class Lowest extends Activation { Lowest(int n) { super(n); } } class First extends Activation { First(int n, double t) { super(n, t); } } class Last extends Activation { Last(int n, double t) { super(n, t); } } class Threshold extends Activation { Threshold(String c, double t) { super(c, t); } }\n";
    return o.str();
}
std::string quoted(const std::string& t) { std::string r = "\""; for (char ch : t) { if (ch < ' ' || ch == '"' || ch == '\\') { char b[8]; snprintf(b, sizeof b, "\\%03d", (int) ch); r += b; } else r += ch; } return r + "\""; }
std::string javaExpected(const ref::Engine& e) {
    std::ostringstream o; auto N = [](double v) { return fmt(v, 9); }; auto B = [](bool b) { return b ? "true" : "false"; }; auto W = [](const std::string& s) { return s.empty() ? std::string("none") : s; };
    o << "Engine " << quoted(e.name) << " " << quoted(e.desc) << "\n";
    for (int out = 0; out < 2; ++out) for (auto& v : out ? e.out : e.in) {
        o << (out ? "OutputVariable " : "InputVariable ") << quoted(v.name) << " " << quoted(v.desc) << " " << B(v.enabled) << " " << N(v.min) << " " << N(v.max) << " " << B(v.lockRange);
        if (out) { o << " " << W(v.aggregation) << " " << W(v.defuzz); if (!v.defuzz.empty()) { if (v.defuzz[0] == 'W') o << " " << (v.wtype.empty() ? "Automatic" : v.wtype); else o << " " << v.res; } o << " " << N(v.def) << " " << B(v.lockPrev); }
        o << "\n"; for (auto& t : v.terms) { o << "term " << quoted(t.name) << " " << t.cls; if (t.cls == "Function") o << " " << t.formula; else { for (double p : t.p) o << " " << N(p); if (t.h != 1 && t.cls != "Constant" && t.cls != "Linear") o << " " << N(t.h); } o << "\n"; }
    }
    for (auto& b : e.blocks) { o << "RuleBlock " << quoted(b.name) << " " << quoted(b.desc) << " " << B(b.enabled) << " " << W(b.conj) << " " << W(b.disj) << " " << W(b.impl) << " " << W(b.act); if (b.act == "First" || b.act == "Last") o << " " << b.n << " " << N(b.thr); if (b.act == "Highest" || b.act == "Lowest") o << " " << b.n; if (b.act == "Threshold") o << " " << b.cmp << " " << N(b.thr); o << "\n"; for (auto& r : b.rules) o << "rule " << quoted(ruleText(e, r)) << "\n"; }
    return o.str();
}
void java(vf::Ctx& c, const char* key, const Engines& all) {
    const int JB = 400; int n = (int) (all.size() + JB - 1) / JB; int batch = c.choose(n); c.begin(); static int serial = 0;
    std::string dir = vf::cat(c.scratch, "/j", getpid(), "_", serial++), log = dir + "/log"; sh("mkdir -p " + dir); SV code; std::vector<size_t> id;
    for (size_t i = (size_t) batch * JB; i < all.size() && i < (size_t) (batch + 1) * JB; ++i) { Guard e(bld::engine(all[i])); c.step(); Resolution keep; F::IntegralDefuzzifier::setDefaultResolution(i % 3 == 2 ? 100 : i % 3 ? 1000 : 25); std::string t = F::JavaExporter(i % 2).toString(e.e); std::string d = imex::specDiff(e.e, all[i], c); c.expect(d.empty(), "export-changes-the-engine", [&] { return d; }); code.push_back(t); id.push_back(i); }
    SV error(code.size()); bool ok = false;
    for (int round = 0; round < 2 && !ok; ++round) {
        // one file per engine, named in the errors of the compiler
        std::ofstream m(dir + "/Main.java"); m << javaClasses() << "class Main { public static void main(String[] a) {\n"; std::string files = " Main.java";
        for (size_t i = 0; i < code.size(); ++i) if (error[i].empty()) { std::string k = vf::cat("G", i, "X"); m << "System.out.print(\"#" << i << "\\n\" + " << k << ".make().show());\n"; std::ofstream g(dir + "/" + k + ".java"); g << "class " << k << " { static Engine make() {\n" << code[i] << "\nreturn engine; } }\n"; files += " " + k + ".java"; }
        m << "} }\n"; m.close(); ok = sh("cd " + dir + " && javac -nowarn -proc:none -g:none -J-XX:TieredStopAtLevel=1 -J-XX:+UseSerialGC -Xmaxerrs 1000 -d . " + files + " > log 2>&1"); if (ok) break;
        std::string l = slurp(log); size_t at = 0; bool any = false; while ((at = l.find('G', at)) != std::string::npos) { char* end; size_t i = (size_t) strtol(l.c_str() + at + 1, &end, 10); if (!strncmp(end, "X.java:", 7) && i < code.size() && error[i].empty()) { error[i] = "the code does not compile: " + l.substr(at, 400); any = true; } ++at; } if (!any) { for (auto& x : error) x = "the code does not compile: " + l.substr(0, 600); break; }
    }
    std::map<size_t, std::string> got; if (ok) { sh("cd " + dir + " && java -XX:TieredStopAtLevel=1 -XX:+UseSerialGC -Xshare:auto Main > out 2> log"); std::istringstream s(slurp(dir + "/out")); std::string l; size_t k = 0; while (std::getline(s, l)) if (l[0] == '#') k = (size_t) atoi(l.c_str() + 1), got[k]; else got[k] += l + "\n"; }
    std::string err = ok ? slurp(log) : "";
    for (size_t i = 0; i < code.size(); ++i) { c.state(code[i]); std::string d = error[i], want = javaExpected(all[id[i]]); c.checks(1); if (d.empty() && !got.count(i)) d = "the code raised " + err.substr(0, 500); if (d.empty()) d = imex::firstDiff(got[i], want); if (!d.empty()) { c.fail(vf::cat("java-", key), vf::cat("the code of engine ", id[i], (id[i] % 2 ? " with variable names: " : ": "), d, "\n", code[i])); break; } }
    sh("rm -rf " + dir);
}
}
VF_SUITE(cpp_terms) { static Engines e = terms(true); cpp(c, "terms", e, c.thorough ? 4 : 1); }
VF_SUITE(cpp_operators) { static Engines e = operators(true); cpp(c, "operators", e, 1); }
VF_SUITE(cpp_variables) { static Engines e = variables(true); cpp(c, "variables", e, 1); }
VF_SUITE(cpp_structure) { static Engines e = structure(true); cpp(c, "structure", e, c.thorough ? 4 : 2); }
VF_SUITE(cpp_texts) { static Engines e = texts(c.thorough); cpp(c, "texts", e, 1); }
VF_SUITE(java_terms) { static Engines e = terms(true); java(c, "terms", e); }
VF_SUITE(java_operators) { static Engines e = operators(true); java(c, "operators", e); }
VF_SUITE(java_variables) { static Engines e = variables(true); java(c, "variables", e); }
VF_SUITE(java_structure) { static Engines e = structure(true); java(c, "structure", e); }
VF_SUITE(java_texts) { static Engines e = texts(c.thorough); java(c, "texts", e); }
// numbers are written with the decimals of the library
VF_SUITE(decimals) {
    Dec keep; int dec = c.choose(10), o = c.choose(2); c.begin(); F::fuzzylite::setDecimals(dec); double u = std::floor(0.123456789 * std::pow(10, dec) + 0.5) / std::pow(10, dec); SV code; std::vector<ref::Engine> es;
    for (int k = 0; k < 6; ++k) for (int neg = 0; neg < 2; ++neg) {
        double v = neg ? -u : u; ref::Engine e = base(); hush(e); e.in[1].terms[1].p[1] = 1; for (auto& i : e.in) for (auto& t : i.terms) for (double& p : t.p) p = std::ceil(p); for (auto& t : e.out[0].terms) for (double& p : t.p) p = std::ceil(p); if (k == 0) e.in[0].terms = {T("Triangle", "t", {v - 1, v, v + 1}, 1 - u)}; if (k == 1) e.in[0].terms = {T("Discrete", "t", {v, 1 - u, v + 1, u}, 1 - u)}; if (k == 2) e.out[0].terms = {T("Constant", "t", {v}), T("Linear", "l", {v, -v, 1 + v})}; if (k == 3) { e.in[0].min = v - 1; e.in[0].max = v + 1; e.out[0].def = v; } if (k == 4) { e.blocks[0].act = "Threshold"; e.blocks[0].thr = v; } if (k == 5) { e.blocks[0].act = "First"; e.blocks[0].n = 2; e.blocks[0].thr = v; }
        es.push_back(e); Guard g(bld::engine(e)); code.push_back(F::CppExporter(o, o).toString(g.e)); c.step();
    }
    Built b; compile(code, b, c.scratch); F::fuzzylite::setDecimals(9);
    for (size_t i = 0; i < code.size(); ++i) { std::string d = b.error[i]; if (d.empty()) { Guard g(bld::engine(es[i])); d = imex::firstDiff(F::FllExporter().toString(b.e[i]), F::FllExporter().toString(g.e)); } c.checks(); c.state(code[i]); if (!d.empty()) { c.fail("cpp-decimals", vf::cat("with ", dec, " decimals: ", d, "\n", code[i])); return; } }
}
// the engines of the repository
VF_SUITE(examples) {
    static SV files; if (files.empty()) { glob_t g; for (const char* p : {"/examples/*/*.fll", "/examples/*/*/*.fll", "/examples/*/*/*/*.fll"}) if (!glob((repo() + p).c_str(), 0, 0, &g)) { for (size_t i = 0; i < g.gl_pathc; ++i) files.push_back(g.gl_pathv[i]); globfree(&g); } std::sort(files.begin(), files.end()); if (files.empty()) return; }
    const size_t EB = 4; int n = (int) ((files.size() + EB - 1) / EB), batch = c.choose(n), o = c.choose(c.thorough ? 4 : 1); c.begin(); if (!c.thorough) o = batch % 4; SV code, text; std::vector<std::string> id;
    for (size_t i = (size_t) batch * EB; i < files.size() && i < (size_t) (batch + 1) * EB; ++i) { std::unique_ptr<F::Engine> e; try { e.reset(F::FllImporter().fromFile(files[i])); } catch (F::Exception&) { continue; } id.push_back(files[i]); text.push_back(F::FllExporter().toString(e.get())); code.push_back(F::CppExporter(o & 1, o & 2).toString(e.get())); c.step(); }
    Built b; compile(code, b, c.scratch);
    for (size_t i = 0; i < code.size(); ++i) { std::string d = b.error[i]; if (d.empty()) d = imex::firstDiff(F::FllExporter().toString(b.e[i]), text[i]); c.checks(); c.state(code[i]); if (!d.empty()) { c.fail("cpp-examples", vf::cat(id[i], " written ", optionText(o), ": ", d)); return; } }
}
// many parts of each kind
namespace { Engines sizes() { Engines r; for (int dim = 0; dim < 7; ++dim) for (int n : {9, 10, 11, 12, 21}) r.push_back(sized(dim, n)); return r; } }
VF_SUITE(cpp_sizes) { static Engines e = sizes(); cpp(c, "sizes", e, c.thorough ? 4 : 1); }
VF_SUITE(java_sizes) { static Engines e = sizes(); java(c, "sizes", e); }
