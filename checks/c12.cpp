// C12: the Fuzzy Inference System (FIS) and Fuzzy Control Language (FCL) formats preserve the engines they can express.
#include "imex.h"
#include <fstream>
using namespace ref;
namespace F = fuzzylite;
namespace {
typedef std::map<std::string, std::string> M;
const M FIS_NORM = {{"", ""}, {"Minimum", "min"}, {"AlgebraicProduct", "prod"}, {"BoundedDifference", "bounded_difference"}, {"DrasticProduct", "drastic_product"}, {"EinsteinProduct", "einstein_product"}, {"HamacherProduct", "hamacher_product"}, {"NilpotentMinimum", "nilpotent_minimum"},
    {"Maximum", "max"}, {"AlgebraicSum", "probor"}, {"BoundedSum", "bounded_sum"}, {"NormalizedSum", "normalized_sum"}, {"DrasticSum", "drastic_sum"}, {"EinsteinSum", "einstein_sum"}, {"HamacherSum", "hamacher_sum"}, {"NilpotentMaximum", "nilpotent_maximum"}, {"UnboundedSum", "sum"}};
const M FIS_DEFUZZ = {{"", ""}, {"Centroid", "centroid"}, {"Bisector", "bisector"}, {"LargestOfMaximum", "lom"}, {"MeanOfMaximum", "mom"}, {"SmallestOfMaximum", "som"}, {"WeightedAverage", "wtaver"}, {"WeightedSum", "wtsum"}};
const M FIS_TERM = {{"Binary", "binarymf"}, {"Concave", "concavemf"}, {"Constant", "constant"}, {"Cosine", "cosinemf"}, {"Discrete", "discretemf"}, {"Function", "function"}, {"Bell", "gbellmf"}, {"Gaussian", "gaussmf"}, {"GaussianProduct", "gauss2mf"}, {"Linear", "linear"}, {"PiShape", "pimf"}, {"Ramp", "rampmf"}, {"Rectangle", "rectmf"},
    {"SShape", "smf"}, {"Sigmoid", "sigmf"}, {"SigmoidDifference", "dsigmf"}, {"SigmoidProduct", "psigmf"}, {"Spike", "spikemf"}, {"Trapezoid", "trapmf"}, {"Triangle", "trimf"}, {"ZShape", "zmf"}};
const M FCL_NORM = {{"Minimum", "MIN"}, {"AlgebraicProduct", "PROD"}, {"BoundedDifference", "BDIF"}, {"DrasticProduct", "DPROD"}, {"EinsteinProduct", "EPROD"}, {"HamacherProduct", "HPROD"}, {"NilpotentMinimum", "NMIN"}, {"Maximum", "MAX"}, {"AlgebraicSum", "ASUM"}, {"BoundedSum", "BSUM"}, {"NormalizedSum", "NSUM"}, {"DrasticSum", "DSUM"}, {"EinsteinSum", "ESUM"}, {"HamacherSum", "HSUM"}, {"NilpotentMaximum", "NMAX"}, {"UnboundedSum", "UnboundedSum"}};
const M FCL_DEFUZZ = {{"Centroid", "COG"}, {"Bisector", "COA"}, {"SmallestOfMaximum", "LM"}, {"LargestOfMaximum", "RM"}, {"MeanOfMaximum", "MM"}, {"WeightedAverage", "COGS"}, {"WeightedSum", "COGSS"}};
ref::Term fn(const std::string& n, const std::string& f, std::function<double(double, const DV&, const DV&)> g) { ref::Term t; t.cls = "Function"; t.name = n; t.formula = f; t.f = g; return t; }
// the parameters in the order that the FIS format documents for its own classes
DV fisParams(const ref::Term& t) {
    DV p = t.p; const std::string& c = t.cls;
    if (c == "Bell") p = {t.p[1], t.p[2], t.p[0]}; if (c == "Gaussian" || c == "Sigmoid") p = {t.p[1], t.p[0]}; if (c == "GaussianProduct") p = {t.p[1], t.p[0], t.p[3], t.p[2]}; if (c == "SigmoidDifference" || c == "SigmoidProduct") p = {t.p[1], t.p[0], t.p[2], t.p[3]};
    return p;
}
double hedgeCode(const SV& h) { double k = 0; for (auto& x : h) k += x == "extremely" ? 0.3 : x == "very" ? 0.2 : x == "somewhat" ? 0.05 : x == "seldom" ? 0.01 : x == "any" ? 0.99 : 0; return k; }
std::string code(int term, const SV& h) { bool neg = false; for (auto& x : h) if (x == "not") neg = !neg; return (neg ? "-" : "") + fmt(term + 1 + hedgeCode(h)); }
void props(const Expr& x, std::vector<Prop>& out) { if (x.kind == 0) out.push_back(x.p); else { props(*x.l, out); props(*x.r, out); } }
int connector(const Expr& x) { return x.kind == 2 ? 2 : 1; }
std::string fisRule(const ref::Engine& e, const ref::Rule& r) {
    std::string s; std::vector<Prop> ps; props(r.ante, ps);
    for (size_t i = 0; i < e.in.size(); ++i) { std::string k = "0.000"; for (auto& p : ps) if (p.var == (int) i) { k = code(p.term, p.hedges); break; } s += (i ? " " : "") + k; }
    s += ", "; for (size_t i = 0; i < e.out.size(); ++i) { std::string k = "0.000"; for (auto& q : r.cons) if (q.var == (int) i) { k = code(q.term, q.hedges); break; } s += k + " "; }
    return s + "(" + fmt(r.weight) + ") : " + vf::cat(connector(r.ante));
}
SV fis(const ref::Engine& e) {
    SV s = {"[System]", "Name='" + e.name + "'", vf::cat("NumInputs=", e.in.size()), vf::cat("NumOutputs=", e.out.size())};
    const Block& b = e.blocks[0]; Var none; const Var& o = e.out.empty() ? none : e.out[0]; auto D = [](const std::string& x, const char* d) { return x.empty() ? std::string(d) : x; };
    s.push_back(vf::cat("NumRules=", b.rules.size())); s.push_back("AndMethod='" + FIS_NORM.at(D(b.conj, "Minimum")) + "'"); s.push_back("OrMethod='" + FIS_NORM.at(D(b.disj, "Maximum")) + "'"); s.push_back("ImpMethod='" + FIS_NORM.at(D(b.impl, "Minimum")) + "'"); s.push_back("AggMethod='" + FIS_NORM.at(D(o.aggregation, "Maximum")) + "'"); s.push_back("DefuzzMethod='" + FIS_DEFUZZ.at(o.defuzz) + "'");
    for (int out = 0; out < 2; ++out) for (size_t i = 0; i < (out ? e.out : e.in).size(); ++i) {
        const Var& v = (out ? e.out : e.in)[i]; s.push_back(vf::cat("[", out ? "Output" : "Input", i + 1, "]")); s.push_back("Name='" + v.name + "'"); s.push_back("Range=[" + fmt(v.min) + " " + fmt(v.max) + "]"); s.push_back(vf::cat("NumMFs=", v.terms.size()));
        for (size_t t = 0; t < v.terms.size(); ++t) { std::string p; if (v.terms[t].cls == "Function") p = v.terms[t].formula; else for (double z : fisParams(v.terms[t])) p += (p.empty() ? "" : " ") + fmt(z); s.push_back(vf::cat("MF", t + 1, "='", v.terms[t].name, "':'", FIS_TERM.at(v.terms[t].cls), "',[", p, "]")); }
    }
    s.push_back("[Rules]"); for (auto& r : b.rules) s.push_back(fisRule(e, r));
    return s;
}
std::string fclTerm(const ref::Term& t) {
    if (t.cls == "Discrete") { std::string s; for (size_t i = 0; i + 1 < t.p.size(); i += 2) s += (i ? " (" : "(") + fmt(t.p[i]) + ", " + fmt(t.p[i + 1]) + ")"; return s; }
    if (t.cls == "Constant") return fmt(t.p[0]);
    return t.cls + " " + imex::params(t);
}
SV fcl(const ref::Engine& e) {
    SV s = {"FUNCTION_BLOCK " + e.name, "VAR_INPUT"}; for (auto& v : e.in) s.push_back(v.name + ": REAL;"); s.push_back("END_VAR"); s.push_back("VAR_OUTPUT"); for (auto& v : e.out) s.push_back(v.name + ": REAL;"); s.push_back("END_VAR");
    for (int out = 0; out < 2; ++out) for (auto& v : out ? e.out : e.in) {
        s.push_back((out ? "DEFUZZIFY " : "FUZZIFY ") + v.name); s.push_back("RANGE := (" + fmt(v.min) + " .. " + fmt(v.max) + ");");
        for (auto& t : v.terms) s.push_back("TERM " + t.name + " := " + fclTerm(t) + ";");
        if (out) { if (!v.defuzz.empty()) s.push_back("METHOD : " + FCL_DEFUZZ.at(v.defuzz) + ";"); if (!v.aggregation.empty()) s.push_back("ACCU : " + FCL_NORM.at(v.aggregation) + ";"); s.push_back("DEFAULT := " + fmt(v.def) + (v.lockPrev ? " | NC;" : ";")); }
        s.push_back(out ? "END_DEFUZZIFY" : "END_FUZZIFY");
    }
    for (auto& b : e.blocks) {
        s.push_back("RULEBLOCK " + b.name); if (!b.conj.empty()) s.push_back("AND : " + FCL_NORM.at(b.conj) + ";"); if (!b.disj.empty()) s.push_back("OR : " + FCL_NORM.at(b.disj) + ";"); if (!b.impl.empty()) s.push_back("ACT : " + FCL_NORM.at(b.impl) + ";");
        for (size_t r = 0; r < b.rules.size(); ++r) s.push_back(vf::cat("RULE ", r + 1, " : ", ruleText(e, b.rules[r]))); s.push_back("END_RULEBLOCK");
    }
    s.push_back("END_FUNCTION_BLOCK"); return s;
}
std::string lines(const SV& s) { std::string t; for (auto& x : s) t += x + "\n"; return t; }
// the lines of a text that matter, with single spaces
std::string canon(const std::string& text) {
    std::istringstream i(text); std::string l, r;
    while (std::getline(i, l)) { l = imex::squeeze(l); size_t p; while ((p = l.find(" ,")) != std::string::npos) l.erase(p, 1); if (l.empty() || l[0] == '#' || l.compare(0, 2, "//") == 0 || l.compare(0, 5, "Type=") == 0 || l.compare(0, 8, "Version=") == 0) continue; r += l + "\n"; }
    return r;
}
ref::Engine base() {
    ref::Engine e; e.name = "engine";
    e.in = {inVar("a", 0, 1, {T("Ramp", "low", {1, 0}), T("Ramp", "high", {0, 1})}), inVar("b", 0, 1, {T("Ramp", "low", {1, 0}), T("Gaussian", "high", {1, 0.25})})};
    e.out = {outVar("x", 0, 1, {T("Triangle", "small", {0, 0.25, 0.5}), T("Ramp", "large", {0.5, 1})}, "Maximum", "Centroid", 1000), outVar("y", -1, 1, {T("Triangle", "neg", {-1, -0.5, 0}), T("Ramp", "pos", {0, 1})}, "Maximum", "Centroid", 1000)};
    Block b; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "Minimum";
    b.rules = {R(And(P(0, 0), P(1, 1)), {C(0, 0)}), R(Or(P(0, 1, {"very"}), P(1, 0)), {C(0, 1), C(1, 0)}, 0.75), R(P(1, 0, {"not"}), {C(1, 1)})};
    e.blocks = {b};
    return e;
}
const std::vector<DV> IN = {{0.2, 0.7}, {0.65, 0.1}};
bool runnable(const ref::Engine& s) { for (auto& v : s.out) if (v.defuzz.empty()) return false; return true; }
void round(vf::Ctx& c, bool isFis, const ref::Engine& s, const char* key, bool run = true) {
    std::unique_ptr<F::Exporter> ex(isFis ? (F::Exporter*) new F::FisExporter : new F::FclExporter); std::unique_ptr<F::Importer> im(isFis ? (F::Importer*) new F::FisImporter : new F::FclImporter);
    std::string want = lines(isFis ? fis(s) : fcl(s)), k = std::string(isFis ? "fis-" : "fcl-") + key; c.describe([&] { return want; });
    Guard e(bld::engine(s)); c.step(); std::string t1;
    try { t1 = ex->toString(e.e); } catch (F::Exception& x) { c.fail(k + "-export", vf::cat("exporting raised ", x.what(), "\n", want)); return; }
    c.expect(imex::firstDiff(canon(t1), canon(want)).empty(), (k + "-export").c_str(), [&] { return "the text of the engine differs: " + imex::firstDiff(canon(t1), canon(want)); });
    for (int j = 0; j < 2; ++j) {
        std::unique_ptr<F::Engine> f; const std::string& text = j ? want : t1;
        try { f.reset(im->fromString(text)); } catch (F::Exception& x) { c.fail(k + (j ? "-import" : "-roundtrip"), vf::cat("importing raised ", x.what(), "\n", text)); return; }
        c.step(); std::string d = imex::specDiff(f.get(), s, c); if (!d.empty()) { c.fail(k + (j ? "-import" : "-roundtrip"), d + "\nafter importing\n" + text); return; }
        c.expect(canon(ex->toString(f.get())) == canon(t1), (k + "-fixpoint").c_str(), [&] { return imex::firstDiff(canon(ex->toString(f.get())), canon(t1)); });
        if (run && runnable(s)) { d = imex::behaves(f.get(), s, c, IN); if (!d.empty()) { c.fail(k + "-behaviour", d + "\n" + text); return; } }
    }
    c.state(t1);
}
void oneOperator(ref::Engine& e, const std::string& agg, const std::string& defuzz) { for (auto& v : e.out) { v.aggregation = agg; v.defuzz = defuzz; if (!defuzz.empty() && defuzz[0] == 'W') { v.terms = {T("Constant", v.terms[0].name, {0.25}), T("Linear", v.terms[1].name, {1, -2, 0.5})}; } } }
// terms that the formats can hold, with representative parameters; Function last
std::vector<ref::Term> zoo() {
    std::vector<ref::Term> z = termZoo(); z.push_back(T("Constant", "t", {-2.5})); z.push_back(T("Constant", "t", {INF})); z.push_back(T("Linear", "t", {1, -2, 0.5})); z.push_back(T("Linear", "t", {0.25})); z.push_back(T("Discrete", "t", {-1, 1, 0, 0.5, 2, 0})); z.push_back(T("Trapezoid", "t", {-INF, 0, 0.5, INF}));
    z.push_back(fn("t", "x", [](double x, const DV&, const DV&) { return x; })); z.push_back(fn("t", "2*x^2-1", [](double x, const DV&, const DV&) { return 2 * x * x - 1; })); z.push_back(fn("t", "(x + 1) * (x - 0.5)", [](double x, const DV&, const DV&) { return (x + 1) * (x - 0.5); }));
    z.push_back(fn("t", "max(x, 0.25) / 2", [](double x, const DV&, const DV&) { return std::max(x, 0.25) / 2; })); z.push_back(fn("t", "x and 1 or 0", [](double x, const DV&, const DV&) { return eq(x, 1) ? 1.0 : 0.0; })); z.push_back(fn("t", "min(x, max(0, 1 - x))", [](double x, const DV&, const DV&) { return std::min(x, std::max(0.0, 1 - x)); }));
    return z;
}
}
VF_SUITE(fis_operators) {
    ref::Engine e = base(); Block b = e.blocks[0]; b.conj = c.pick(NAMES(TNORMS)); b.disj = c.pick(NAMES(SNORMS)); b.impl = c.pick(NAMES(TNORMS)); c.begin();
    for (size_t k = 0; k < 9; ++k) { std::string d = k < 7 ? DEFUZZIFIERS[(k + b.conj.size()) % 7] : ""; e = base(); e.blocks[0] = b; oneOperator(e, SNORMS[(k + b.impl.size() + b.disj.size()) % 9], d); if (k && (k + b.disj.size()) % 3) continue; round(c, true, e, "operators", k == 0); }
}
VF_SUITE(fis_output_operators) { ref::Engine e = base(); std::string a = c.pick(NAMES(SNORMS)); SV d = NAMES(DEFUZZIFIERS); d.push_back(""); std::string z = c.pick(d); c.begin(); oneOperator(e, a, z); round(c, true, e, "operators"); }
VF_SUITE(fis_terms) {
    ref::Term t = c.pick(zoo()); bool out = c.flip(); int pos = c.choose(3); c.begin(); ref::Engine e = base(); Var& v = out ? e.out[0] : e.in[1]; t.name = "T_1"; if (pos == 0) v.terms = {t}; else if (pos == 1) v.terms.push_back(t); else v.terms.insert(v.terms.begin(), t); e.blocks[0].rules.clear(); round(c, true, e, "terms");
}
VF_SUITE(fis_rules) {   // every rule over two inputs and two outputs whose hedges have a code
    static const std::vector<SV> H = {{}, {"seldom"}, {"somewhat"}, {"very"}, {"extremely"}, {"very", "very"}, {"not"}, {"not", "seldom"}, {"not", "somewhat"}, {"not", "very"}, {"not", "extremely"}, {"not", "very", "very"}};
    std::vector<Expr> p; ref::Engine e = base();
    for (int v = 0; v < 2; ++v) { int k = c.choose(27); if (k == 0) continue; --k; if (k < 24) p.push_back(P(v, k / 12, H[(size_t) (k % 12)])); else p.push_back(P(v, -1, k == 24 ? SV{"any"} : SV{"not", "any"})); }
    if (p.empty()) return; int conn = p.size() == 2 ? c.choose(2) : 0; int o = 1 + c.choose(c.thorough ? 48 : 24); c.begin();
    int w = c.thorough ? 7 : 5; std::vector<Concl> cs; const std::vector<SV> OH = {{}, {"very"}, {"not"}}; auto conc = [&](int v, int k) { if (k == 0) return; --k; cs.push_back(C(v, k % 2, OH[(size_t) (k / 2)])); }; conc(0, o % w); conc(1, o / w); if (cs.empty()) return;
    if (cs.size() == 2 && !cs[0].hedges.empty()) std::swap(cs[0].hedges, cs[1].hedges);   // (hedges leak into later conclusions: a known finding of C01)
    Expr a = p.size() == 1 ? p[0] : Bin(1 + conn, p[0], p[1]); static const double W[] = {1, 0.5, 0, 0.123}; e.blocks[0].rules = {R(a, cs, W[(p.size() + (size_t) o + (size_t) conn) % 4])}; if (cs.size() == 2 && (!cs[0].hedges.empty())) e.blocks[0].rules.clear();
    round(c, true, e, "rules");
}
VF_SUITE(fis_structure) {
    int ni = c.choose(5), no = c.choose(4), nr = c.choose(4), nt = c.choose(4); std::string name = c.pick(SV{"engine", "an engine", ""}); static const std::vector<DV> RG = {{0, 1}, {-1.5, 2.25}, {-INF, INF}, {NaN, NaN}, {1, 0}}; DV rg = c.pick(RG); c.begin();
    ref::Engine p = base(), e = p; e.name = name; e.in.clear(); e.out.clear(); e.blocks[0].rules.clear();
    for (int i = 0; i < ni; ++i) { Var v = inVar(vf::cat("in_", i), i == 1 ? rg[0] : 0, i == 1 ? rg[1] : 1, {}); for (int t = 0; t < nt; ++t) v.terms.push_back(T(t % 2 ? "Ramp" : "Gaussian", vf::cat("t", t), {0.25 * t, 1})); e.in.push_back(v); }
    for (int i = 0; i < no; ++i) { Var v = outVar(vf::cat("out_", i), 0, 1, {}, "Maximum", "Centroid", 1000); for (int t = 0; t < nt; ++t) v.terms.push_back(T("Triangle", vf::cat("t", t), {0, 0.25 * t, 1})); e.out.push_back(v); }
    if (no == 0) { Var v; }
    if (nt && ni && no) for (int r = 0; r < nr; ++r) { Expr a = P(0, r % nt); for (int i = 1; i < ni; ++i) if ((r + i) % 3) a = Bin(1 + r % 2, a, P(i, (r + i) % nt)); std::vector<Concl> cs; for (int i = 0; i < no; ++i) if (i == 0 || (r + i) % 2) cs.push_back(C(i, (r + i) % nt)); e.blocks[0].rules.push_back(R(a, cs, r == 2 ? 0.25 : 1)); }
    round(c, true, e, "structure", !(rg[0] >= rg[1]) || true);
}
VF_SUITE(fis_blocks) {     // the format has one list of rules: rules of all blocks in order, with the first operators there are
    int nb = 1 + c.choose(3); ref::Engine p = base(), e = p, m = p; e.blocks.clear(); m.blocks[0].rules.clear(); Block& q = m.blocks[0]; q.conj = q.disj = q.impl = ""; bool same = true;
    for (int i = 0; i < nb; ++i) {
        Block b = p.blocks[0]; b.name = vf::cat("b", i); int rules = c.choose(4), op = c.choose(4); b.rules.clear(); for (int r = 0; r < 3; ++r) if (rules == 3 || (rules == 1 && r == 0) || (rules == 2 && r > 0)) b.rules.push_back(p.blocks[0].rules[(size_t) r]);
        if (op == 1) { b.conj = "AlgebraicProduct"; b.disj = "AlgebraicSum"; b.impl = "AlgebraicProduct"; } if (op == 2) b.conj = b.disj = b.impl = ""; if (op == 3) { b.conj = "EinsteinProduct"; b.disj = b.impl = ""; } same = same && op == 0;
        if (q.conj.empty()) q.conj = b.conj; if (q.disj.empty()) q.disj = b.disj; if (q.impl.empty()) q.impl = b.impl; q.rules.insert(q.rules.end(), b.rules.begin(), b.rules.end()); e.blocks.push_back(b);
    }
    c.begin(); if (q.conj.empty()) q.conj = "Minimum"; if (q.disj.empty()) q.disj = "Maximum"; if (q.impl.empty()) q.impl = "Minimum";
    Guard g(bld::engine(e)); std::string t = F::FisExporter().toString(g.e), want = lines(fis(m)); c.step(); c.expect(canon(t) == canon(want), "fis-blocks", [&] { return "the text of an engine with several rule blocks differs: " + imex::firstDiff(canon(t), canon(want)); });
    std::unique_ptr<F::Engine> f(F::FisImporter().fromString(t)); std::string d = imex::specDiff(f.get(), m, c); if (d.empty() && same) d = imex::behaves(f.get(), m, c, IN); c.expect(d.empty(), "fis-blocks-import", [&] { return d + "\n" + t; }); c.state(t);
}
// the importer reads the format however it is styled, and the keys that fuzzylite added to it
VF_SUITE(fis_reading) {
    ref::Engine e = base(); int style = c.choose(6), keys = c.choose(16), sys = c.choose(3); c.begin();
    e.in[0].enabled = !(keys & 1); e.out[0].enabled = !(keys & 2); if (keys & 4) { e.out[0].def = 0.25; e.out[0].lockPrev = true; } if (keys & 8) { e.out[1].lockRange = true; e.out[1].def = -INF; }
    SV s = fis(e), r; for (auto& x : s) { r.push_back(x); if (x == "Name='a'") r.push_back(keys & 1 ? "Enabled=0" : "Enabled=1"); if (x == "Name='x'") { r.push_back(keys & 2 ? "Enabled=0" : "Enabled=1"); r.push_back(keys & 4 ? "Default=0.25" : "Default=nan"); r.push_back(vf::cat("LockPrevious=", keys & 4 ? 1 : 0)); } if (x == "Name='y'") { r.push_back(vf::cat("LockRange=", keys & 8 ? 1 : 0)); if (keys & 8) r.push_back("Default=-inf"); } if (x == "[System]" && sys == 1) { r.push_back("Type='mamdani'"); r.push_back("Version=2.0"); } }
    if (sys == 2) { r.erase(std::remove_if(r.begin(), r.end(), [](const std::string& x) { return x.compare(0, 3, "Num") == 0; }), r.end()); }
    std::string t; for (auto& x : r) { std::string y = x; if (style == 1) y = "   " + x + "\t"; if (style == 2) y = x + " // a comment"; if (style == 3) y = x + "# comment\n\n% comment = 1\n"; if (style == 4) { y.clear(); for (char ch : x) if (ch == '=') y += " = "; else y += ch; } if (style == 5) { y.clear(); for (char ch : x) if (ch != '\'') y += ch; } t += y + "\n"; }
    c.step(); c.describe([&] { return t; }); std::unique_ptr<F::Engine> f; try { f.reset(F::FisImporter().fromString(t)); } catch (F::Exception& x) { c.fail("fis-reading-refused", vf::cat(x.what(), "\n", t)); return; }
    std::string d = imex::specDiff(f.get(), e, c); if (d.empty()) d = imex::behaves(f.get(), e, c, IN); c.expect(d.empty(), "fis-reading", [&] { return d + "\n" + t; }); c.state(t);
}
// what the format cannot express is refused: connectives that differ within a rule, hedges without a code
VF_SUITE(fis_inexpressible) {
    ref::Engine e = base(); e.in.push_back(inVar("d", 0, 1, {T("Ramp", "low", {1, 0})})); int k = c.choose(6); Expr a = P(0, c.choose(2)), b = P(1, c.choose(2)), d = P(2, 0); c.begin();
    if (k == 0) e.blocks[0].rules = {R(Or(And(a, b), d), {C(0, 0)})}; if (k == 1) e.blocks[0].rules = {R(And(a, Or(b, d)), {C(0, 0)})}; if (k == 2) e.blocks[0].rules = {R(Or(a, And(b, d)), {C(0, 0)})}; if (k == 3) { Expr z = P(0, 1 - a.p.term); e.blocks[0].rules = {R(Bin(1 + b.p.term, a, z), {C(0, 0)})}; }
    if (k == 4) e.blocks[0].rules = {R(And(a, P(0, b.p.term, {}, true)), {C(1, 0)})}; if (k == 5) e.blocks[0].rules = {R(And(a, b), {C(1, 0), C(1, 1)})};
    Guard g(bld::engine(e)); bool threw = false; std::string t; c.step(); try { t = F::FisExporter().toString(g.e); } catch (F::Exception&) { threw = true; }
    c.expect(threw, k >= 3 ? "fis-drops-propositions" : "fis-inexpressible", [&] { return t; }); c.state(t);
}
VF_SUITE(fcl_operators) {
    ref::Engine e = base(); Block& b = e.blocks[0]; SV tn = NAMES(TNORMS), sn = NAMES(SNORMS), df = NAMES(DEFUZZIFIERS); tn.push_back(""); sn.push_back(""); df.push_back(""); b.name = "rb";
    b.conj = c.pick(tn); b.disj = c.pick(sn); b.impl = c.pick(tn); c.begin(); e.out[0].aggregation = sn[(b.conj.size() + b.disj.size()) % sn.size()]; e.out[1].aggregation = sn[b.impl.size() % sn.size()];
    if (b.conj.empty() || b.disj.empty() || b.impl.empty() || e.out[0].aggregation.empty() || e.out[1].aggregation.empty()) b.rules.clear(); round(c, false, e, "operators");
}
VF_SUITE(fcl_output) {
    ref::Engine e = base(); e.blocks[0].name = "rb"; SV sn = NAMES(SNORMS), df = NAMES(DEFUZZIFIERS); sn.push_back(""); df.push_back(""); std::string a = c.pick(sn), d = c.pick(df); double def = c.pick(DV{NaN, 0, -0.5, INF, 123.456}); bool lp = c.flip(); int which = c.choose(2); c.begin();
    ref::Engine k = e; oneOperator(k, a, d); e.out[(size_t) which] = k.out[(size_t) which]; e.out[(size_t) which].def = def; e.out[(size_t) which].lockPrev = lp; if (a.empty() && !(d.size() && d[0] == 'W')) e.blocks[0].rules.clear(); round(c, false, e, "output");
}
VF_SUITE(fcl_terms) {
    std::vector<ref::Term> z = zoo(); ref::Term t = c.pick(z); t.h = c.pick(DV{1, 0.5, 0, 2}); bool out = c.flip(); int pos = c.choose(3); c.begin(); if (t.cls == "Constant" || t.cls == "Linear" || t.cls == "Function" || t.cls == "Discrete") t.h = 1;   // (the format writes discrete terms as pairs only)
    ref::Engine e = base(); e.blocks[0].name = "rb"; Var& v = out ? e.out[0] : e.in[1]; t.name = "T_1"; if (pos == 0) v.terms = {t}; else if (pos == 1) v.terms.push_back(t); else v.terms.insert(v.terms.begin(), t); e.blocks[0].rules.clear(); round(c, false, e, "terms");
}
VF_SUITE(fcl_structure) {
    int ni = c.choose(4), no = c.choose(3), nb = c.choose(4), shape = c.choose(4); std::string name = c.pick(SV{"engine", "an engine name", ""}); std::string bn = c.pick(SV{"block", "a block", ""}); static const std::vector<DV> RG = {{0, 1}, {-1.5, 2.25}, {-INF, INF}, {NaN, NaN}, {1, 0}}; DV rg = c.pick(RG); c.begin();
    ref::Engine p = base(), e = p; e.name = name; e.in.clear(); e.out.clear(); e.blocks.clear();
    for (int i = 0; i < ni; ++i) { Var v = p.in[(size_t) (i % 2)]; v.name = vf::cat("i", i, "_v"); if (i == 1) { v.min = rg[0]; v.max = rg[1]; } if (i == 2) v.terms.clear(); e.in.push_back(v); }
    for (int i = 0; i < no; ++i) { Var v = p.out[(size_t) i]; v.name = vf::cat("out", i); if (shape == 3) v.terms.push_back(T("Discrete", "d", {0, 0, 1, 1})); e.out.push_back(v); }
    for (int i = 0; i < nb; ++i) {
        Block b = p.blocks[0]; b.name = bn.empty() ? "" : vf::cat(bn, i); b.rules.clear();
        if (ni >= 1 && no >= 1) {
            b.rules.push_back(R(P(0, 0), {C(0, 0)})); if (shape > 0) b.rules.push_back(R(P(0, 1, {"not", "very"}), {C(0, 1, {"somewhat"})}, 0.125));
            if (ni >= 2) { b.rules.push_back(R(And(Or(P(0, 0), P(1, 1)), P(0, 1)), {C(0, 0)})); b.rules.push_back(R(Or(P(0, -1, {"any"}), And(P(1, 0), P(0, 0, {"extremely"}))), {C(no - 1, 0), C(0, 1)}, 0)); }
            if (i) b.rules.push_back(R(And(P(0, 0, {}, true), P(0, 0)), {C(no - 1, 1)}));
        }
        e.blocks.push_back(b);
    }
    round(c, false, e, "structure");
}
VF_SUITE(fcl_reading) {
    ref::Engine e = base(); e.blocks[0].name = "rb"; int style = c.choose(8), keys = c.choose(64); c.begin();
    e.in[0].enabled = !(keys & 1); e.out[0].enabled = !(keys & 2); e.blocks[0].enabled = !(keys & 4); if (keys & 8) e.out[0].lockPrev = true; if (keys & 16) e.out[0].lockRange = true; if (keys & 32) { e.in[0].terms[0] = T("Discrete", "low", {0, 1, 1, 0}); e.out[1].terms[0] = T("Constant", "neg", {-0.5}); e.out[1].terms[1] = T("Linear", "pos", {1, 2, 3}); e.out[1].defuzz = "WeightedAverage"; }
    ref::Engine plain = e; plain.out[0].lockPrev = false; SV s = fcl(plain), r; std::string in;
    for (auto& x : s) {
        r.push_back(x); if (x.compare(0, 8, "FUZZIFY ") == 0 || x.compare(0, 10, "DEFUZZIFY ") == 0) in = x; if (x.compare(0, 9, "RULEBLOCK") == 0) in = x;
        if (x == "FUZZIFY a") r.push_back(std::string("ENABLED : ") + (keys & 1 ? "FALSE;" : "TRUE;")); if (x == "DEFUZZIFY x") { r.push_back(std::string("ENABLED : ") + (keys & 2 ? "FALSE;" : "TRUE;")); } if (x == "RULEBLOCK rb") r.push_back(std::string("ENABLED : ") + (keys & 4 ? "FALSE;" : "TRUE;"));
        if (in == "DEFUZZIFY x" && x.compare(0, 7, "DEFAULT") == 0) { if ((keys & 24) == 24) r.push_back(style % 2 ? "LOCK : PREVIOUS | RANGE;" : "LOCK : RANGE | PREVIOUS;"); else if (keys & 8) r.push_back("LOCK : PREVIOUS;"); else if (keys & 16) r.push_back("LOCK : RANGE;"); }
    }
    std::string t; for (auto& x : r) {
        std::string y = x; bool rule = x.compare(0, 5, "RULE ") == 0, def = x.compare(0, 8, "FUNCTION") == 0;
        if (style == 1) y = "   " + x + "\t"; if (style == 2) y = x + " // a comment"; if (style == 3) y = x + "# comment\n\n% comment\n"; if (style == 4 && !rule) { y.clear(); for (char ch : x) if (ch != ';') y += ch; } if (style == 5 && !rule && !def) { y.clear(); size_t w = x.find(' '); for (size_t i = 0; i < x.size(); ++i) if (x[i] == ' ' && i != w && (x[i + 1] == ':' || x[i - 1] == '=' || (i && x[i - 1] == '.') || x[i + 1] == '.' || (x[i - 1] == ':'))) continue; else y += x[i]; }
        if (style == 6) y = x + "\r"; if (style == 7 && rule) { size_t p = x.find(':'); y = "RULE 99: " + x.substr(p + 2) + ";"; }
        t += y + "\n"; }
    c.step(); c.describe([&] { return t; }); std::unique_ptr<F::Engine> f; try { f.reset(F::FclImporter().fromString(t)); } catch (F::Exception& x) { c.fail("fcl-reading-refused", vf::cat(x.what(), "\n", t)); return; }
    std::string d = imex::specDiff(f.get(), e, c); if (d.empty()) d = imex::behaves(f.get(), e, c, IN); c.expect(d.empty(), "fcl-reading", [&] { return d + "\n" + t; }); c.state(t);
}
// the entries of a block may come in any order (terms and rules keep theirs among themselves)
VF_SUITE(entry_order) {
    int where = c.choose(6), flags = c.choose(2); ref::Engine e = base(); e.blocks[0].name = "rb"; bool isFis = where >= 3; if (isFis) e.blocks[0].name = "";
    e.in[0].enabled = false; e.in[0].max = 2; ref::Var& o = e.out[0]; o.enabled = flags == 0; o.def = 0.25; o.lockPrev = true; o.lockRange = flags == 1; if (!isFis) { e.blocks[0].enabled = flags == 1; o.lockPrev = o.lockPrev; } e.blocks[0].conj = "AlgebraicProduct"; e.blocks[0].disj = "AlgebraicSum"; if (!isFis) { o.defuzz = "MeanOfMaximum"; o.aggregation = "AlgebraicSum"; }
    SV s = isFis ? fis(e) : fcl(e); std::string first = where == 0 ? "DEFUZZIFY x" : where == 1 ? "FUZZIFY a" : where == 2 ? "RULEBLOCK rb" : where == 3 ? "[System]" : where == 4 ? "[Output1]" : "[Input1]"; SV r; std::string in;
    auto head = [&](const std::string& x) { return isFis ? x[0] == '[' : x.compare(0, 7, "FUZZIFY") == 0 || x.compare(0, 9, "DEFUZZIFY") == 0 || x.compare(0, 9, "RULEBLOCK") == 0; };
    for (auto& x : s) {
        std::string y = x; if (head(x)) in = x; if (!isFis && in == "DEFUZZIFY x" && x.compare(0, 7, "DEFAULT") == 0) y = "DEFAULT := 0.25;"; r.push_back(y); if (!head(x)) continue;
        if (x == "DEFUZZIFY x") { r.push_back(o.enabled ? "ENABLED : TRUE;" : "ENABLED : FALSE;"); r.push_back(o.lockRange ? "LOCK : PREVIOUS | RANGE;" : "LOCK : PREVIOUS;"); } if (x == "FUZZIFY a" || (x == "RULEBLOCK rb")) r.push_back(x == "FUZZIFY a" || !e.blocks[0].enabled ? "ENABLED : FALSE;" : "ENABLED : TRUE;");
        if (x == "[Output1]") { r.push_back(o.enabled ? "Enabled=1" : "Enabled=0"); r.push_back("Default=0.25"); r.push_back("LockPrevious=1"); r.push_back(o.lockRange ? "LockRange=1" : "LockRange=0"); } if (x == "[Input1]") r.push_back("Enabled=0");
    }
    size_t a = 0; while (r[a] != first) ++a; size_t b = a + 1; while (isFis ? r[b][0] != '[' : r[b].compare(0, 4, "END_") != 0) ++b;
    SV lines; std::string glued; auto ordered = [&](const std::string& x) { return x.compare(0, 5, "TERM ") == 0 || x.compare(0, 5, "RULE ") == 0 || x.compare(0, 2, "MF") == 0; };
    SV keep; for (size_t i = a + 1; i < b; ++i) { if (!isFis ? false : r[i].compare(0, 3, "Num") == 0) keep.push_back(r[i]); else if (ordered(r[i])) { glued += (glued.empty() ? "" : "\n") + r[i]; } else lines.push_back(r[i]); }
    size_t loose = lines.size(); bool split = c.thorough && !glued.empty(); if (!glued.empty() && !split) lines.push_back(glued); SV ts; if (split) { std::istringstream g(glued); std::string l; while (std::getline(g, l)) ts.push_back(l); for (size_t i = 0; i < ts.size(); ++i) lines.push_back(""); } (void) loose;
    SV chosen; size_t nextTerm = 0; while (!lines.empty()) { SV distinct; for (auto& x : lines) if (std::find(distinct.begin(), distinct.end(), x) == distinct.end()) distinct.push_back(x); std::string x = c.pick(distinct); lines.erase(std::find(lines.begin(), lines.end(), x)); chosen.push_back(x.empty() ? ts[nextTerm++] : x); }
    c.begin(); std::string t; for (size_t i = 0; i <= a; ++i) t += r[i] + "\n"; for (auto& x : chosen) t += x + "\n"; for (auto& x : keep) t += x + "\n"; for (size_t i = b; i < r.size(); ++i) t += r[i] + "\n";
    c.step(); c.describe([&] { return t; }); std::unique_ptr<F::Engine> f; try { f.reset(isFis ? F::FisImporter().fromString(t) : F::FclImporter().fromString(t)); } catch (F::Exception& x) { c.fail("entry-order-refused", vf::cat(x.what(), "\n", t)); return; }
    std::string d = imex::specDiff(f.get(), e, c); c.expect(d.empty(), "entry-order", [&] { return d + "\n" + t; }); c.state(t);
}
// one engine through all three formats: whatever the order of conversions, the engine stays the same
VF_SUITE(conversions) {
    ref::Engine e = base(); e.blocks[0].name = ""; int n = c.thorough ? 5 : 4; std::vector<int> path; for (int i = 0; i < n; ++i) path.push_back(c.choose(3)); int kind = c.choose(3); c.begin();
    if (kind == 1) { oneOperator(e, "AlgebraicSum", "WeightedSum"); } if (kind == 2) { e.in[0].terms[0] = T("SigmoidDifference", "low", {0.2, 20, 30, 0.8}); e.in[1].terms[1] = T("Bell", "high", {0.5, 0.25, 3}); e.out[1].terms[1] = T("GaussianProduct", "pos", {0.3, 0.1, 0.6, 0.2}); }
    std::unique_ptr<F::Engine> f(bld::engine(e)); std::string trace;
    for (int k : path) { std::string t = k == 0 ? F::FllExporter().toString(f.get()) : k == 1 ? F::FisExporter().toString(f.get()) : F::FclExporter().toString(f.get()); c.step(); trace += k == 0 ? " fll" : k == 1 ? " fis" : " fcl";
        f.reset(k == 0 ? F::FllImporter().fromString(t) : k == 1 ? F::FisImporter().fromString(t) : F::FclImporter().fromString(t)); std::string d = imex::specDiff(f.get(), e, c); if (!d.empty()) { c.fail("conversions", "after" + trace + ": " + d); return; } }
    std::string d = imex::behaves(f.get(), e, c, IN); c.expect(d.empty(), "conversions-behaviour", [&] { return "after" + trace + ": " + d; }); c.state(trace);
}
// what a text says is read in full whatever the number of decimals that the library writes at that time
VF_SUITE(precision) {
    int k = c.choose(3), was = F::fuzzylite::decimals(), out = c.pick(std::vector<int>{3, 6, 9}), in = c.choose(10), what = c.choose(6); bool neg = c.flip(); c.begin(); double v = out == 3 ? 0.123 : out == 6 ? 0.123457 : 0.123456789, u = neg ? -v : v;
    ref::Engine e = base(); e.blocks[0].name = ""; if (what == 0) e.in[0].terms[0] = T("Triangle", e.in[0].terms[0].name, {u - 1, u, u + 2}); if (what == 1) { e.in[0].min = u - 1; e.in[0].max = u + 2; } if (what == 2) for (size_t i = 0; i < e.blocks[0].rules.size(); ++i) e.blocks[0].rules[i].weight = i % 2 ? 1 - v : v; if (what == 3) { oneOperator(e, "", "WeightedAverage"); e.out[1].terms[0] = T("Constant", e.out[1].terms[0].name, {u}); e.out[1].terms[1] = T("Linear", e.out[1].terms[1].name, {u, 1 + u, 2 * u}); } if (what == 4) e.in[1].terms[1] = T("Discrete", e.in[1].terms[1].name, {u, 1 - v, 1 + u, v, 2 + u, 0}); if (what == 5) { if (k == 1) c.prune(); e.out[0].def = u; }
    struct Dec { int d; ~Dec() { F::fuzzylite::setDecimals(d); } } keep = {was}; F::fuzzylite::setDecimals(out); Guard g(bld::engine(e)); if (what == 2) for (auto r : g->getRuleBlock(0)->rules()) { std::string x = r->getText(); size_t p = x.find(" with"); r->setText(x.substr(0, p) + " with " + vf::num(x.find("0.8") == std::string::npos ? v : 1 - v)); r->load(g.e); } std::string t = k == 0 ? F::FllExporter().toString(g.e) : k == 1 ? F::FisExporter().toString(g.e) : F::FclExporter().toString(g.e); F::fuzzylite::setDecimals(in); std::unique_ptr<F::Engine> f(k == 0 ? F::FllImporter().fromString(t) : k == 1 ? F::FisImporter().fromString(t) : F::FclImporter().fromString(t)); F::fuzzylite::setDecimals(out); c.step(2);
    std::string d; for (size_t i = 0; i < e.blocks[0].rules.size(); ++i) if (!vf::near(f->getRuleBlock(0)->getRule(i)->getWeight(), e.blocks[0].rules[i].weight)) d += vf::cat("the weight of rule ", i, " is ", f->getRuleBlock(0)->getRule(i)->getWeight(), ", expected ", e.blocks[0].rules[i].weight, "; "); if (d.empty()) d = imex::behaves(f.get(), e, c, IN); std::string again = k == 0 ? F::FllExporter().toString(f.get()) : k == 1 ? F::FisExporter().toString(f.get()) : F::FclExporter().toString(f.get()); if (d.empty()) { std::unique_ptr<F::Engine> h(k == 0 ? F::FllImporter().fromString(again) : k == 1 ? F::FisImporter().fromString(again) : F::FclImporter().fromString(again)); d = imex::behaves(h.get(), e, c, IN); if (!d.empty()) d = "exported again: " + d; }
    c.expect(d.empty(), "precision", [&] { return vf::cat("written with ", out, " decimals, read while ", in, " are set: ", d, "\n", t); }); c.state(vf::cat(t, in));
}
// entries whose value is not one of the format are refused
VF_SUITE(refused) {
    static const SV FCL = {"RANGE := (0.000 1.000);", "RANGE := (zero .. 1.000);", "RANGE := (0.000 .. one);", "RANGE := (0.000 .. 1.000 .. 2.000);", "TERM low := Bogus 1.000 0.000;", "TERM low := Ramp 1.000;", "TERM low := Ramp one 0.000;", "TERM low Ramp 1.000 0.000;", "METHOD : COX;", "METHOD COG;", "ACCU : MAXI;", "ACCU : MIN;", "DEFAULT := none;", "DEFAULT := 0.500 | PREVIOUS;", "LOCK : PREVIOUS | VALID;", "LOCK : VALID | RANGE;", "LOCK : RANGE | RANGES;", "LOCK : VALID;", "LOCK : PREVIOUS | RANGE | PREVIOUS;", "ENABLED : YES;", "ENABLED : true;", "AND : MAX;", "AND : MINI;", "OR : MIN;", "ACT : MAX;", "AND MIN;", "BOGUS : 1;"};
    static const SV FIS = {"AndMethod='mini'", "OrMethod='min'", "ImpMethod='max'", "AggMethod='min'", "DefuzzMethod='cog'", "Range=[0.000 one]", "Range=[zero 1.000]", "Range=[0.000]", "Range=[0 1 2]", "MF1='low':'bogus',[1 0]", "MF1='low':'trimf',[1 0]", "MF1='low':'trimf',[a b c]", "MF1='low'", "MF1='low':'trimf'", "Enabled=maybe", "LockRange=maybe", "LockPrevious=x", "Default=none", "Bogus=1", "1 1, 1 (1) : 1", "1 1, 1 1 (1) : 3", "1 1, 1 1 (one) : 1", "one 1, 1 1 (1) : 1", "1 1, 3 1 (1) : 1", "4 1, 1 1 (1) : 1", "1 1 1 1 (1) : 1", "1 1, 1 1 (1)"};
    bool isFis = c.choose(2); const SV& L = isFis ? FIS : FCL; int k = c.choose((int) L.size()); c.begin(); ref::Engine e = base(); SV s = isFis ? fis(e) : fcl(e); auto keyOf = [&](const std::string& x) { return x.substr(0, x.find_first_of(isFis ? "=" : " ")); };
    std::string key = keyOf(L[(size_t) k]); bool rule = isFis && key == L[(size_t) k]; int n = 0;
    for (size_t i = 0; i <= s.size(); ++i) {   // in the place of every entry with its key
        bool here = i < s.size() && (rule ? i > 0 && s[i - 1] == "[Rules]" : keyOf(s[i]) == key); bool extra = i < s.size() && !here && n == 0 && (isFis ? s[i] == "Name='x'" || (key == "Enabled" && s[i] == "Name='a'") || s[i] == "[System]" : s[i] == "DEFUZZIFY x" || (key == "ENABLED" && (s[i] == "FUZZIFY a" || s[i] == "RULEBLOCK ")) || (key == "BOGUS" && (s[i].compare(0, 8, "FUZZIFY ") == 0 || s[i].compare(0, 9, "RULEBLOCK") == 0)));
        if (isFis ? (extra && s[i] == "[System]" && key != "Bogus") : (extra && key != "LOCK" && key != "ENABLED" && key != "BOGUS")) extra = false; if (isFis && extra && key != "Enabled" && key != "LockRange" && key != "LockPrevious" && key != "Default" && key != "Bogus") extra = false;
        if (!here && !extra) continue; SV t = s; if (here) t[i] = L[(size_t) k]; else t.insert(t.begin() + (long) i + 1, L[(size_t) k]); std::string text = lines(t); bool threw = false; c.step();
        try { std::unique_ptr<F::Engine> f(isFis ? F::FisImporter().fromString(text) : F::FclImporter().fromString(text)); } catch (F::Exception&) { threw = true; }
        if (!threw) { c.fail("accepted-entry", vf::cat("the entry <", L[(size_t) k], "> was accepted in\n", text)); return; }
        c.checks(1);
    }
    c.state(L[(size_t) k]);
}
// many parts of each kind: indices of two and three digits
VF_SUITE(sizes) { bool isFis = c.choose(2); int dim = c.choose(isFis ? 6 : 7), n = c.choose(c.thorough ? 60 : 25); c.begin(); static const int N[] = {99, 100, 101, 110, 128}; n = n < 5 ? N[n] : n; ref::Engine e = sized(dim, n, isFis ? 1000 : 1000); if (!isFis) for (size_t i = 0; i < e.blocks.size(); ++i) if (e.blocks[i].name.empty()) e.blocks[i].name = ""; round(c, isFis, e, "sizes"); }
