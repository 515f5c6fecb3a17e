// C13: whatever text is imported, the importers answer with an engine that can be used or with the library's exception.
#include "imex.h"
#include <fstream>
#include <typeinfo>
namespace F = fuzzylite;
namespace {
const char* const KIND[] = {"FLL", "FIS", "FCL"};
const std::string FLL = R"(Engine: tipper
description: an engine
InputVariable: a
  description: first
  enabled: true
  range: 0.000 1.000
  lock-range: false
  term: low Ramp 1.000 0.000
  term: d Discrete 0.0 0.5 1.0 1.0 0.5
  term: f Function (x + 1) ^ 2
InputVariable: b
  range: -inf inf
  term: g Gaussian 0.5 0.25 0.5
OutputVariable: x
  enabled: true
  range: 0.000 1.000
  lock-range: true
  aggregation: Maximum
  defuzzifier: Centroid 10
  default: nan
  lock-previous: true
  term: s Triangle 0 0.5 1
  term: t Trapezoid 0 0.25 0.5 1
OutputVariable: y
  range: 0 1
  aggregation: none
  defuzzifier: WeightedAverage TakagiSugeno
  term: k Constant 0.5
  term: l Linear 1 2 3
RuleBlock: rb
  enabled: true
  conjunction: Minimum
  disjunction: AlgebraicSum
  implication: Minimum
  activation: First 2 0.25
  rule: if a is very low and (b is not g or a is any) then x is somewhat s and y is k with 0.5
RuleBlock: two
  implication: none
  activation: Threshold >= 0.5
  rule: if x is s then y is l
)";
const std::string FIS = R"([System]
Name='tipper'
Type='mamdani'
Version=2.0
NumInputs=2
NumOutputs=1
NumRules=2
AndMethod='min'
OrMethod='max'
ImpMethod='prod'
AggMethod='probor'
DefuzzMethod='centroid'
[Input1]
Name='a'
Enabled=1
Range=[0 1]
NumMFs=2
MF1='low':'rampmf',[1 0]
MF2='d':'discretemf',[0 0.5 1 1]
[Input2]
Name='b'
Range=[-inf 10]
MF1='g':'gauss2mf',[0.25 0.5 0.25 0.75]
MF2='f':'function',[max(a, 1)]
[Output1]
Name='x'
Range=[0 1]
Default=0.5
LockPrevious=1
LockRange=0
MF1='s':'trimf',[0 0.5 1]
MF2='l':'linear',[1 2 3]
[Rules]
1 2, 1 (1) : 1
-1.2 0.99, -2.3 (0.5) : 2
)";
const std::string FCL = R"(FUNCTION_BLOCK tipper
VAR_INPUT
  a: REAL;
  b: REAL;
END_VAR
VAR_OUTPUT
  x: REAL;
END_VAR
FUZZIFY a
  RANGE := (0 .. 1);
  ENABLED : TRUE;
  TERM low := Ramp 1 0;
  TERM d := (0, 0.5) (1, 1);
END_FUZZIFY
FUZZIFY b
  RANGE := (-inf .. 1);
  TERM g := Gaussian 0.5 0.25;
  TERM f := Function max(a, 1);
END_FUZZIFY
DEFUZZIFY x
  RANGE := (0 .. 1);
  TERM s := Triangle 0 0.5 1;
  TERM k := 0.5;
  METHOD : COG;
  ACCU : MAX;
  DEFAULT := nan | NC;
  LOCK : PREVIOUS | RANGE;
END_DEFUZZIFY
RULEBLOCK rb
  AND : MIN;
  OR : ASUM;
  ACT : PROD;
  RULE 1 : if a is very low and (b is g) then x is s with 0.5;
END_RULEBLOCK
END_FUNCTION_BLOCK
)";
const std::string& base(int k) { return k == 0 ? FLL : k == 1 ? FIS : FCL; }
F::Importer* importer(int k) { return k == 0 ? (F::Importer*) new F::FllImporter : k == 1 ? (F::Importer*) new F::FisImporter : new F::FclImporter; }
template <class Fn> bool guarded(vf::Ctx& c, const char* what, const std::string& text, Fn f) {
    try { f(); return true; }
    catch (F::Exception&) { return false; }
    catch (std::exception& x) { std::string n = typeid(x).name(); c.fail(vf::cat("foreign-exception-", what), vf::cat(what, " raised ", n, ": ", x.what(), " for the text\n", text)); return false; }
}
void use(vf::Ctx& c, F::Engine* e, const std::string& text) {
    guarded(c, "export-fll", text, [&] { F::FllExporter().toString(e); }); guarded(c, "export-fis", text, [&] { F::FisExporter().toString(e); }); guarded(c, "export-fcl", text, [&] { F::FclExporter().toString(e); });
    guarded(c, "export-cpp", text, [&] { F::CppExporter().toString(e); }); guarded(c, "export-java", text, [&] { F::JavaExporter().toString(e); });
    guarded(c, "isReady", text, [&] { std::string s; e->isReady(&s); }); guarded(c, "type", text, [&] { std::string n, r; e->type(&n, &r); });
    guarded(c, "copy", text, [&] { F::Engine k(*e); k.toString(); });
    for (auto* v : e->outputVariables()) if (auto* d = dynamic_cast<F::IntegralDefuzzifier*>(v->getDefuzzifier())) if (d->getResolution() > 2000) d->setResolution(10);
    for (int k = 0; k < 2; ++k) guarded(c, "process", text, [&] { for (auto* v : e->inputVariables()) v->setValue(k ? 0.75 : 0.25); e->process(); });
    guarded(c, "restart", text, [&] { e->restart(); });
}
void attempt(vf::Ctx& c, int kind, const std::string& text, bool exercise = true) {
    static bool warm = false; if (!warm) { warm = true; for (int k = 0; k < 3; ++k) { std::unique_ptr<F::Importer> i(importer(k)); std::unique_ptr<F::Engine> e(i->fromString(base(k))); use(c, e.get(), base(k)); } }
    c.step(); c.describe([&] { return text; }); long before = vf::liveBlocks(); bool ok = false; size_t shape = 0;
    {
        std::unique_ptr<F::Importer> im(importer(kind)); std::unique_ptr<F::Engine> e;
        ok = guarded(c, "import", text, [&] { e.reset(im->fromString(text)); });
        if (c.failed) return;
        if (ok && !e) { c.fail("null-engine", text); return; }
        if (ok && exercise) { use(c, e.get(), text); shape = e->numberOfInputVariables() * 100 + e->numberOfOutputVariables() * 10 + e->numberOfRuleBlocks(); }
    }
    if (c.failed) return;
    long leaked = vf::liveBlocks() - before;
    c.expect(leaked == 0, (std::string(ok ? "leak-after-import-" : "leak-when-refused-") + KIND[kind]).c_str(), [&] { return vf::cat(leaked, " blocks of memory are lost after ", ok ? "importing" : "refusing", " the text\n", text); });
    c.state(vf::mix(vf::hashStr(text), shape + ok));
}
SV linesOf(const std::string& t) { SV r; std::istringstream i(t); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
std::string joinLines(const SV& v) { std::string r; for (auto& x : v) r += x + "\n"; return r; }
const std::string CHARS = std::string(": ;#'\"[](),=.-+%/|\t\n\r09azZ_^<~!*&") + '\0' + "\xff\xc3";
// pieces of a text: maximal runs of letters/digits/dots, or single other characters
std::vector<std::string> tokens(const std::string& t) { std::vector<std::string> r; for (size_t i = 0; i < t.size();) { size_t j = i + 1; auto w = [](char ch) { return isalnum((unsigned char) ch) || ch == '.' || ch == '_'; }; if (w(t[i])) while (j < t.size() && w(t[j])) ++j; r.push_back(t.substr(i, j - i)); i = j; } return r; }
}
VF_SUITE(truncated) { int k = c.choose(3); int at = c.choose((int) base(k).size() + 1); int way = c.choose(2); c.begin(); attempt(c, k, way ? base(k).substr((size_t) at) : base(k).substr(0, (size_t) at)); }
VF_SUITE(characters) {
    int k = c.choose(3); const std::string& b = base(k); int at = c.choose((int) b.size()); c.begin(); int way = c.choose(3); std::string t = b;
    if (way == 0) t.erase((size_t) at, 1); else { char ch = CHARS[(size_t) c.choose((int) CHARS.size())]; if (way == 1) t[(size_t) at] = ch; else t.insert((size_t) at, 1, ch); }
    attempt(c, k, t);
}
VF_SUITE(words) {   // every word replaced by every other, removed or repeated
    static const SV V = {"", " ", "none", "nan", "inf", "-1", "0", "1e400", "99999999999", "-99999999999", "0.5.5", "true", "Any", "any", "and", "or", "then", "if", "is", "with", "(", ")", "x", "a", "low", "Function", "Linear", "Discrete", "Minimum", "Maximum", "General", "Centroid", "WeightedSum", "First", "constant", "function", "max", "END_VAR", "[Rules]", "RuleBlock:", "NONE", "-0.99", "3", "2.35"};
    int k = c.choose(3); std::vector<std::string> t = tokens(base(k)); int at = c.choose((int) t.size()); c.begin(); int w = c.choose((int) V.size() + 1); std::string& x = t[(size_t) at]; x = w == (int) V.size() ? x + " " + x : V[(size_t) w];
    std::string s; for (auto& y : t) s += y; attempt(c, k, s);
}
VF_SUITE(lines) {   // every pair of lines swapped, the second copied or moved before the first; every range of lines removed
    int k = c.choose(3); SV l = linesOf(base(k)); int i = c.choose((int) l.size()), j = c.choose((int) l.size()); c.begin(); int way = c.choose(4);
    if (way == 0) std::swap(l[(size_t) i], l[(size_t) j]); else if (way == 1) l.insert(l.begin() + i, std::string(l[(size_t) j])); else if (way == 2) { std::string x = l[(size_t) j]; l.erase(l.begin() + j); l.insert(l.begin() + std::min(i, (int) l.size()), x); } else { if (j < i) return; l.erase(l.begin() + i, l.begin() + j + 1); }
    attempt(c, k, joinLines(l));
}
VF_SUITE(documents) {   // every short document over an alphabet of lines
    static const std::vector<SV> A = {
        {"Engine: e", "description: d", "InputVariable: a", "OutputVariable: x", "RuleBlock: rb", "InputVariable:", "RuleBlock", ":", "range: 0", "range: 0 1", "term: t Triangle 0 1 2", "term: t", "term: t none", "term: t Function", "term: t Linear", "term: f Function x +", "aggregation: none", "aggregation: ", "defuzzifier: ", "defuzzifier: none", "defuzzifier: Centroid nan", "defuzzifier: WeightedSum Bogus", "activation: none", "activation: ", "activation: Threshold", "activation: Minimum", "conjunction: ", "rule: ", "rule: if a is t then x is t", "enabled: true", "term: d Discrete 0", "activation: Highest x", "term:  Triangle 0 1 2", "default: x"},
        {"[System]", "[Input1]", "[Output1]", "[Rules]", "[", "[Other]", "Name='a'", "Name=", "=", "Range=[0 1]", "Range=0 1", "Range=[ ]", "Range=", "MF1='t':'trimf',[0 1 2]", "MF1=", "MF1='t'", "MF1='t':'',[]", "MF1='t':'none',[1]", "MF1='t':'trimf',[0 1]", "MF2='f':'function',[x+]", "MF1='t':'linear',[]", "1, 1 (1) : 1", ", (1) : 1", "1, 1 : 1", "1 1, 1 (1) : 2", "0, 0 (1) : 1", "9, 1 (1) : 1", "x, 1 (1) : 1", "nan, 1 (1) : 1", "1, 1 () : 3", "1,1,1:1", "AndMethod='none'", "DefuzzMethod='bogus'", "AggMethod=", "MF1='d':'discretemf',[0]"},
        {"FUNCTION_BLOCK", "FUNCTION_BLOCK e", "VAR_INPUT", "a : REAL;", "END_VAR", "VAR_OUTPUT", "x : REAL;", "FUZZIFY a", "FUZZIFY", "END_FUZZIFY", "DEFUZZIFY x", "END_DEFUZZIFY", "RULEBLOCK", "RULEBLOCK rb", "END_RULEBLOCK", "END_FUNCTION_BLOCK", "RANGE := (0 .. 1);", "RANGE := ( .. );", "RANGE", "RANGE := 0", "TERM t := Triangle 0 1 2;", "TERM t := ;", "TERM", "TERM t := (", "TERM t := none", "TERM t := Function", "TERM t := 1 2", "METHOD : ", "METHOD : COG;", "ACCU : NONE;", "DEFAULT := ", "DEFAULT := 1 | X;", "LOCK : ", "LOCK : RANGE | RANGE;", "RULE", "RULE 1 : if a is t then x is t;", "AND : ", "ACT : MIN;", ":"}};
    // a document starts with a context that makes the following lines meaningful
    static const std::vector<SV> CONTEXT = {{"", "InputVariable: a\nterm: t Ramp 0 1\n", "InputVariable: a\nterm: t Ramp 0 1\nOutputVariable: x\nterm: t Constant 1\n", "InputVariable: a\nterm: t Ramp 0 1\nOutputVariable: x\nterm: t Constant 1\nRuleBlock:\n"}, {"", "[System]\n", "[Input1]\nName=a\nMF1=t:rampmf,[0 1]\n", "[Input1]\nName=a\nMF1=t:rampmf,[0 1]\n[Output1]\nName=x\nMF1=t:constant,[1]\n", "[Input1]\nName=a\nMF1=t:rampmf,[0 1]\n[Output1]\nName=x\nMF1=t:constant,[1]\n[Rules]\n"}, {"", "VAR_INPUT\na : REAL\nEND_VAR\nFUZZIFY a\n", "VAR_OUTPUT\nx : REAL\nEND_VAR\nDEFUZZIFY x\n", "RULEBLOCK rb\n", "VAR_INPUT\na : REAL\nEND_VAR\nVAR_OUTPUT\nx : REAL\nEND_VAR\n"}};
    int k = c.choose(3); int ctx = c.choose((int) CONTEXT[(size_t) k].size()); std::string t = CONTEXT[(size_t) k][(size_t) ctx]; int n = c.choose(c.thorough && ctx + 1 == (int) CONTEXT[(size_t) k].size() ? 4 : 3) + 1;
    for (int i = 0; i < n; ++i) { t += c.pick(A[(size_t) k]) + "\n"; if (i == 0) c.begin(); }
    if (k == 2 && c.flip()) t += ctx == 1 ? "END_FUZZIFY\n" : ctx == 2 ? "END_DEFUZZIFY\n" : ctx == 3 ? "END_RULEBLOCK\n" : "END_FUNCTION_BLOCK\n";
    attempt(c, k, t);
}
VF_SUITE(parameters) {   // every class of term, defuzzifier and activation method with every short list of parameters
    static const SV V = {"0", "1", "-1", "nan", "inf", "x", "1e999", "0.5"}; std::vector<std::string> cls; for (auto& x : NAMES(ref::TERMS)) cls.push_back("t:" + x); for (auto& x : NAMES(ref::DEFUZZIFIERS)) cls.push_back("d:" + x); for (auto& x : NAMES(ref::ACTIVATIONS)) cls.push_back("a:" + x);
    std::string x = c.pick(cls); int n = c.choose(c.thorough ? 7 : 6); c.begin(); std::string p; for (int i = 0; i < n; ++i) p += " " + (i < 3 || c.thorough ? c.pick(V) : V[(size_t) i]); if (x[0] != 't' && n > 3) return; x = x.substr(0, 1) + x.substr(2);
    std::string t = "InputVariable: a\nrange: 0 1\nterm: low Ramp 0 1\n"; if (x[0] == 't') t += "term: q " + x.substr(1) + p + "\n"; t += "OutputVariable: x\nrange: 0 1\naggregation: Maximum\n"; t += "defuzzifier: " + (x[0] == 'd' ? x.substr(1) + p : std::string("Centroid 5")) + "\n"; if (x[0] == 't') t += "term: q " + x.substr(1) + p + "\n"; else t += "term: q Triangle 0 0.5 1\n"; t += "RuleBlock: \nimplication: Minimum\nactivation: " + (x[0] == 'a' ? x.substr(1) + p : std::string("General")) + "\nrule: if a is low then x is q\n"; if (x[0] == 't') t += "rule: if a is q then x is q\n";
    attempt(c, 0, t);
}
VF_SUITE(files) {
    int k = c.choose(3), way = c.choose(4); c.begin(); std::unique_ptr<F::Importer> im(importer(k)); std::string p = c.scratch + "/f"; if (way == 0) p = c.scratch + "/absent/file"; if (way == 1) p = ""; if (way == 2) { std::ofstream o(p); o << base(k); } if (way == 3) { std::ofstream o(p); }
    std::unique_ptr<F::Engine> e; bool ok = guarded(c, "import-file", p, [&] { e.reset(im->fromFile(p)); }); c.step(); c.expect(ok == (way >= 2), "file", [&] { return "importing from <" + p + "> " + (ok ? "succeeded" : "was refused"); });
    if (way == 2) { std::unique_ptr<F::Engine> g(im->fromString(base(k))); c.expect(e->toString() == g->toString(), "file-content", [&] { return e->toString(); }); } c.state((vf::u64) (k * 4 + way));
}
