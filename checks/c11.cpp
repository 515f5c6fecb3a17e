// C11: the FuzzyLite Language: exporting and importing preserve the engine; importing reads what the language says.
#include "imex.h"
#include <fstream>
using namespace ref;
namespace F = fuzzylite;
namespace {
ref::Term fn(const std::string& n, const std::string& f, std::function<double(double, const DV&, const DV&)> g) { ref::Term t; t.cls = "Function"; t.name = n; t.formula = f; t.f = g; return t; }
ref::Engine base() {
    ref::Engine e; e.name = "my engine"; e.desc = "";
    e.in = {inVar("a", 0, 1, {T("Ramp", "low", {1, 0}), T("Triangle", "mid", {0, 0.5, 1}), T("Ramp", "high", {0, 1})}), inVar("b", 0, 1, {T("Ramp", "low", {1, 0}), T("Gaussian", "high", {1, 0.25})})};
    e.out = {outVar("x", 0, 1, {T("Triangle", "small", {0, 0.25, 0.5}), T("Ramp", "large", {0.5, 1})}, "Maximum", "Centroid", 25)};
    ref::Block b; b.name = "rb"; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "Minimum";
    b.rules = {R(And(P(0, 0), P(1, 1)), {C(0, 0)}), R(Or(P(0, 2, {"very"}), P(1, 0)), {C(0, 1)}, 0.75)};
    e.blocks = {b};
    return e;
}
const std::vector<DV> IN = {{0.2, 0.7}, {0.65, 0.1}};
// everything at once: build the engine, export it, import its text, import the reference text; all must agree
void round(vf::Ctx& c, const ref::Engine& s, const char* key, bool exactText = true) {
    F::FllExporter ex; F::FllImporter im; std::string want = imex::fll(s);
    c.describe([&] { return want; });
    Guard e(bld::engine(s)); c.step();
    std::string d = imex::specDiff(e.e, s, c); if (!d.empty()) { c.fail("built-engine", d); return; }
    std::string t1 = ex.toString(e.e);
    c.expect(!exactText || imex::firstDiff(t1, want).empty(), (std::string(key) + "-export").c_str(), [&] { return "the text of the engine differs: " + imex::firstDiff(t1, want); });
    c.expect(e->toString() == t1, "engine-text", [&] { return t1; });
    std::string after = imex::specDiff(e.e, s, c); c.expect(after.empty(), "export-changes-the-engine", [&] { return after; });
    for (int k = 0; k < 2; ++k) {
        std::unique_ptr<F::Engine> f;
        try { f.reset(im.fromString(k ? want : t1)); } catch (F::Exception& x) { c.fail(std::string(key) + "-import", vf::cat("importing ", k ? want : t1, "\nraised ", x.what())); return; }
        c.step();
        d = imex::specDiff(f.get(), s, c);
        if (!d.empty()) { c.fail(std::string(key) + (k ? "-import" : "-roundtrip"), d + "\nafter importing\n" + (k ? want : t1)); return; }
        std::string t2 = ex.toString(f.get());
        if (exactText) c.expect(t2 == t1, (std::string(key) + "-fixpoint").c_str(), [&] { return "exporting the imported engine gives another text: " + imex::firstDiff(t2, t1); });
        bool runs = true; for (auto& v : s.out) if (v.defuzz.empty()) runs = false;
        if (runs) d = imex::behaves(f.get(), s, c, IN); if (!d.empty()) { c.fail(std::string(key) + "-behaviour", d + "\n" + t1); return; }
    }
    c.state(t1);
}
const SV WITHNONE(const char* const* b, size_t n) { SV r = {""}; for (size_t i = 0; i < n; ++i) r.push_back(b[i]); return r; }
}
VF_SUITE(operators) {   // all operators of a rule block and aggregations, absent ones included
    ref::Engine e = base(); ref::Block& b = e.blocks[0]; SV tn = WITHNONE(TNORMS, 7), sn = WITHNONE(SNORMS, 9);
    b.conj = c.pick(tn); b.disj = c.pick(sn); b.impl = c.pick(tn); c.begin(); e.out[0].aggregation = sn[(b.conj.size() + b.disj.size() * 3 + b.impl.size()) % sn.size()];
    if (b.conj.empty() || b.disj.empty() || b.impl.empty() || e.out[0].aggregation.empty()) b.rules = {};
    round(c, e, "operators");
    e = base(); e.out[0].aggregation = c.pick(sn); if (e.out[0].aggregation.empty()) e.blocks[0].rules.clear(); round(c, e, "operators");
}
VF_SUITE(variables) {   // all properties of variables
    bool out = c.flip(); ref::Engine e = base(); Var& v = out ? e.out[0] : e.in[1];
    v.name = c.pick(SV{"b", "x_1", "Name2", "_", "is_not"}); v.desc = c.pick(SV{"", "text", "with: colon, (parens) = and  two  spaces", "Engine: fake", "0.5"}); v.enabled = c.flip(); v.lockRange = c.flip();
    static const std::vector<DV> RG = {{0, 1}, {-1.5, 2.25}, {1, 0}, {-INF, INF}, {NaN, NaN}, {0, 0}, {-1000000, 1000000}}; DV r = c.pick(RG); v.min = r[0]; v.max = r[1];
    if (out) { v.def = c.pick(DV{NaN, 0, -0.5, INF, -INF, 123.456}); v.lockPrev = c.flip(); }
    c.begin(); if (out && (!(v.min < v.max) || std::isinf(v.min))) e.blocks[0].rules.clear();
    round(c, e, "variables");
}
VF_SUITE(defuzzifiers) {
    ref::Engine e = base(); Var& v = e.out[0]; v.defuzz = c.pick(WITHNONE(DEFUZZIFIERS, 7)); if (!v.defuzz.empty() && v.defuzz[0] == 'W') v.wtype = c.pick(SV{"", "TakagiSugeno", "Tsukamoto"}); else if (!v.defuzz.empty()) v.res = c.pick(std::vector<int>{100, 1, 25, 1000});
    int terms = c.choose(4); bool rules = c.flip(); int k = c.choose(2); c.begin();
    if (terms == 1) v.terms = {T("Constant", "small", {0.25}), T("Constant", "large", {-3})};
    if (terms == 2) v.terms = {T("Linear", "small", {1, 2, 0.5}), T("Linear", "large", {})};
    if (terms == 3) v.terms = {fn("small", "a + 2 * x", [](double x, const DV& in, const DV&) { return in[0] + 2 * x; }), fn("large", "(a-b)^2", [](double, const DV& in, const DV&) { return (in[0] - in[1]) * (in[0] - in[1]); })};
    bool w = !v.defuzz.empty() && v.defuzz[0] == 'W'; if (!rules || v.defuzz.empty() || (w && terms == 0) || (w && v.wtype == "Tsukamoto") || !w && terms) e.blocks[0].rules.clear();
    if (terms) e.out.push_back(outVar("second", 0, 1, {T("Ramp", "t", {0, 1})}));
    if (k) std::swap(e.out[0].terms[0].name, e.out[0].terms[1].name);
    round(c, e, "defuzzifiers");
}
VF_SUITE(activations) {
    ref::Engine e = base(); ref::Block& b = e.blocks[0]; b.act = c.pick(NAMES(ACTIVATIONS)); b.n = c.choose(4); if (b.act != "Highest" && b.act != "Lowest") b.thr = c.pick(DV{0, 0.25, 1, -0.5}); b.cmp = b.act == "Threshold" ? c.pick(SV{"<", "<=", "==", "!=", ">=", ">"}) : ">=";
    b.enabled = c.flip(); b.desc = c.pick(SV{"", "rules: of the engine"}); b.name = c.pick(SV{"rb", "a block", ""}); e.desc = c.pick(SV{"", "of: all"}); e.name = c.pick(SV{"my engine", "", "e-1.2"}); c.begin();
    round(c, e, "activations");
}
VF_SUITE(terms) {   // every class of term in input and output variables, with heights
    std::vector<ref::Term> z = termZoo(); z.push_back(T("Constant", "t", {-2.5})); z.push_back(T("Linear", "t", {1, -2, 0.5})); z.push_back(T("Linear", "t", {0.001})); z.push_back(T("Discrete", "t", {0, 1})); z.push_back(T("Trapezoid", "t", {-INF, 0, 0.5, INF})); z.push_back(T("Rectangle", "t", {-INF, 0.5})); z.push_back(T("Triangle", "t", {-INF, 0, INF}));
    z.push_back(fn("t", "x", [](double x, const DV&, const DV&) { return x; })); z.push_back(fn("t", "max(a, x) * (1 - b) ^ 2", [](double x, const DV& in, const DV&) { return (in[0] != in[0] ? x : std::max(in[0], x)) * std::pow(1 - in[1], 2); }));
    ref::Term t = c.pick(z); t.h = c.pick(DV{1, 0.5, 0, 2, 0.001}); bool out = c.flip(); int n = c.choose(3); c.begin();
    if (t.cls == "Constant" || t.cls == "Linear" || t.cls == "Function") t.h = 1;
    ref::Engine e = base(); Var& v = out ? e.out[0] : e.in[0]; t.name = "T_1"; if (n == 0) v.terms = {t}; else if (n == 1) v.terms.push_back(t); else v.terms.insert(v.terms.begin(), t);
    e.blocks[0].rules.clear(); if (t.cls == "Function") { for (auto& i : e.in) (void) i; }
    if (t.cls == "Function" && t.formula[0] == 'm') { F::FllExporter ex; Guard g(bld::engine(e)); g->setInputValue("a", 0.5); g->setInputValue("b", 0.25); std::unique_ptr<F::Engine> f; std::string what;
        try { f.reset(F::FllImporter().fromString(ex.toString(g.e))); } catch (F::Exception& x) { what = x.what(); }
        // the formula of a term in <a> refers to <b>, which the text describes later
        if (!f) { if (!out && what.find("unknown variable <b>") != std::string::npos) c.fail("function-refers-to-a-later-variable", what + "\nimporting\n" + ex.toString(g.e)); else c.fail("terms-import", what); return; } f->setInputValue("a", 0.75); f->setInputValue("b", 0.5); c.step();
        std::string d = imex::specDiff(f.get(), e, c), d2 = imex::specDiff(g.e, e, c); c.expect(d.empty() && d2.empty(), "function-refers-to-its-engine", [&] { return d + d2; }); c.state(e.out[0].terms[0].cls); return; }
    round(c, e, "terms");
}
VF_SUITE(structure) {   // numbers of variables, terms, rule blocks and rules; rules of every shape
    int ni = c.choose(4), no = c.choose(3), nb = c.choose(4); int shape = c.choose(4); bool dup = c.flip(); c.begin();
    ref::Engine p = base(), e = p; e.in.clear(); e.out.clear(); e.blocks.clear();
    for (int i = 0; i < ni; ++i) { Var v = p.in[(size_t) (i % 2)]; v.name = dup ? vf::cat("in", i) : vf::cat("i", i, "_v"); if (i == 2) v.terms.clear(); e.in.push_back(v); }
    for (int i = 0; i < no; ++i) { Var v = p.out[0]; v.name = vf::cat("out", i); if (shape == 3) v.terms.push_back(T("Discrete", "d", {0, 0, 1, 1}, 0.5)); v.desc = shape == 2 ? "an output" : ""; e.out.push_back(v); }
    for (int i = 0; i < nb; ++i) {
        Block b = p.blocks[0]; b.name = vf::cat("block", i); b.rules.clear(); b.enabled = i != 1; if (i == 2) b.act = "Highest";
        if (ni >= 1 && no >= 1) {
            b.rules.push_back(R(P(0, 0), {C(0, 0)})); if (shape > 0) b.rules.push_back(R(P(0, 1, {"not", "very"}), {C(0, 1, {"somewhat"})}, 0.125));
            if (ni >= 2) { b.rules.push_back(R(And(Or(P(0, 0), P(1, 1)), P(0, 2)), {C(0, 0)})); b.rules.push_back(R(Or(P(0, -1, {"any"}), And(P(1, 0), P(0, 0, {"extremely"}))), {C((no - 1), 0), C(0, 1)}, 0)); }
            if (i) b.rules.push_back(R(And(P(0, 0, {}, true), P(0, 0)), {C(no - 1, 1)}));
        }
        e.blocks.push_back(b);
    }
    round(c, e, "structure");
}
// The importer reads the language: comments, empty lines, spacing, tabs, carriage returns, other separators, order of keys
VF_SUITE(reading) {
    ref::Engine e = base(); e.desc = "described"; e.in[0].desc = "first"; e.in[1].lockRange = true; e.out[0].lockPrev = true; e.out[0].def = 0.5; e.blocks[0].act = "Threshold"; e.blocks[0].cmp = ">"; e.blocks[0].thr = 0.25; e.out[0].terms[1].h = 0.5;
    int style = c.choose(7), sep = c.choose(4), rot = c.choose(8), which = c.choose(5), miss = c.choose(2); c.begin();
    std::vector<SV> b = imex::fllBlocks(e);
    // the keys of a block may come in any order (terms and rules among themselves keep theirs): rotate the lines after its first
    SV& l = b[(size_t) which]; if (l.size() > 2 && which) { std::vector<std::string> keep, rest; for (size_t i = 1; i < l.size(); ++i) (l[i].compare(0, 4, "term") == 0 || l[i].compare(0, 4, "rule") == 0 ? keep : rest).push_back(l[i]); size_t r = (size_t) rot % rest.size(); std::rotate(rest.begin(), rest.begin() + (long) r, rest.end()); SV n = {l[0]}; if (rot % 2) { n.insert(n.end(), keep.begin(), keep.end()); n.insert(n.end(), rest.begin(), rest.end()); } else { n.push_back(rest[0]); n.insert(n.end(), keep.begin(), keep.end()); n.insert(n.end(), rest.begin() + 1, rest.end()); } l = n; }
    // without a line, the default applies
    if (miss) {
        SV drop = {"", "enabled", "lock-range", "lock-previous", "activation", "default", "description"}; std::string d = drop[(size_t) rot % drop.size()];
        if (!d.empty()) for (size_t k = 1; k < b.size(); ++k) for (size_t i = 1; i < b[k].size(); ) { if (b[k][i].compare(0, d.size(), d) == 0) b[k].erase(b[k].begin() + (long) i); else ++i; }
        if (d == "lock-range") e.in[1].lockRange = false; if (d == "lock-previous") e.out[0].lockPrev = false; if (d == "activation") e.blocks[0].act = "General"; if (d == "default") e.out[0].def = NaN; if (d == "description") e.in[0].desc = "";
    }
    static const SV SEP = {"\n", ";", "\r\n", "|"}; std::string text, S = SEP[(size_t) sep];
    for (size_t k = 0; k < b.size(); ++k) for (size_t i = 0; i < b[k].size(); ++i) {
        std::string x = b[k][i]; size_t colon = x.find(':');
        if (style == 1) x = "\t   " + x + " \t "; if (style == 2) x = x + "   # comment: with a colon"; if (style == 3) x = x.substr(0, colon) + " :\t" + x.substr(colon + 1) + S + S + "   " + S + "# a comment line"; if (style == 4) x = x.substr(0, colon + 1) + x.substr(colon + 2);
        if (style == 5) { size_t p = 0; std::string y; for (char ch : x.substr(colon + 1)) { y += ch; if (ch == ' ' && x.compare(0, 11, "description") && x.compare(0, 6, "Engine")) y += "  "; (void) p; } x = x.substr(0, colon + 1) + y; if (x.compare(0, 5, "range") == 0) x = b[k][i]; }
        if (style == 6) x = "        " + x + "#";
        text += x + S;
    }
    c.step(); F::FllImporter im(sep == 1 || sep == 3 ? S : "\n"); std::unique_ptr<F::Engine> f; c.describe([&] { return text; });
    try { f.reset(im.fromString(text)); } catch (F::Exception& x) { c.fail("reading-refused", text + "\nraised " + x.what()); return; }
    std::string d = imex::specDiff(f.get(), e, c); if (d.empty()) d = imex::behaves(f.get(), e, c, IN);
    c.expect(d.empty(), "reading", [&] { return d + "\nafter importing\n" + text; });
    // a file is read as its text
    std::string path = c.scratch + "/e.fll"; { std::ofstream o(path); o << text; }
    std::unique_ptr<F::Engine> g(im.fromFile(path)); d = imex::specDiff(g.get(), e, c); c.expect(d.empty(), "reading-file", [&] { return d + "\nafter importing the file\n" + text; });
    F::FllExporter().toFile(path, g.get()); std::ifstream i(path); std::stringstream ss; ss << i.rdbuf(); c.expect(imex::squeeze(ss.str()) == imex::squeeze(imex::fll(e)), "writing-file", [&] { return ss.str(); });
    c.state(text);
}
// Every single line (thorough: every pair of lines) in every style
VF_SUITE(lines) {
    ref::Engine e = base(); e.desc = "described"; e.in[0].desc = "first"; e.in[1].lockRange = true; e.out[0].lockPrev = true; e.out[0].def = 0.5; e.blocks[0].act = "First"; e.blocks[0].n = 2; e.blocks[0].thr = 0.125; e.out[0].terms[1].h = 0.5;
    e.out.push_back(outVar("y", -1, 1, {T("Constant", "k", {0.5}), T("Linear", "l", {1, 2, 3}), T("Discrete", "d", {0, 0, 0.5, 1, 1, 0.25}), fn("f", "a ^ 2 + b", [](double, const DV& in, const DV&) { return in[0] * in[0] + in[1]; })}, "", "WeightedSum")); e.out.back().wtype = "TakagiSugeno";
    e.blocks.push_back(e.blocks[0]); e.blocks[1].name = "second"; e.blocks[1].act = "Threshold"; e.blocks[1].cmp = ">="; e.blocks[1].rules = {R(P(0, 0), {C(1, 0)}), R(P(0, 1), {C(1, 1)}), R(P(1, 1), {C(1, 3, {"not"})}, 0.5)};
    std::vector<SV> b = imex::fllBlocks(e); SV all; for (auto& k : b) for (auto& l : k) all.push_back(l); int n = (int) all.size();
    int first = c.choose(n), s1 = 1 + c.choose(8), second = first, s2 = 0; if (c.thorough) { second = first + c.choose(n - first); if (second != first) s2 = 1 + c.choose(8); } c.begin();
    std::string text; 
    for (int i = 0; i < n; ++i) {
        std::string x = all[(size_t) i]; size_t colon = x.find(':'); int style = i == first ? s1 : i == second ? s2 : 0;
        if (style == 1) x = "\t " + x + " \t "; if (style == 2) x += "#"; if (style == 3) x += " # Engine: other"; if (style == 4) x = x.substr(0, colon) + "  :" + x.substr(colon + 1); if (style == 5) x = x.substr(0, colon + 1) + x.substr(colon + 2); if (style == 6) x += "\r"; if (style == 7) x = "\n\n#\n" + x + "\n   \n";
        if (style == 8) { if (x.compare(0, 13, "lock-previous") == 0) x = "lock-valid" + x.substr(13); if (x.compare(0, 11, "aggregation") == 0) x = "accumulation" + x.substr(11); if (x.compare(0, 11, "implication") == 0) x = "activation" + x.substr(11); }
        text += x + "\n";
    }
    c.step(); c.describe([&] { return text; }); std::unique_ptr<F::Engine> f;
    try { f.reset(F::FllImporter().fromString(text)); } catch (F::Exception& x) { c.fail("lines-refused", text + "\nraised " + x.what()); return; }
    std::string d = imex::specDiff(f.get(), e, c); if (d.empty()) d = imex::behaves(f.get(), e, c, IN);
    c.expect(d.empty(), "lines", [&] { return d + "\nafter importing\n" + text; }); c.state(text);
}
// separators and indentation of the exporter
VF_SUITE(writing) {
    ref::Engine e = base(); e.in[0].desc = "d"; e.out[0].terms[0].h = 0.5; SV sp = {"\n", ";", " | ", "\n\n"}; SV in = {"  ", "", "\t", "    "}; std::string s = c.pick(sp), i = c.pick(in); int way = c.choose(2); c.begin();
    Guard g(bld::engine(e)); F::FllExporter ex(i, s); if (way) { F::FllExporter y; y.setIndent(i); y.setSeparator(s); ex = y; } std::string t = ex.toString(g.e); c.step();
    c.expect(t == imex::fll(e, s, i), "separator", [&] { return t; });
    F::FllImporter im(s == " | " ? "|" : s == "\n\n" ? "\n" : s); std::unique_ptr<F::Engine> f(im.fromString(t)); std::string d = imex::specDiff(f.get(), e, c); c.expect(d.empty(), "separator-import", [&] { return d + t; });
    c.expect(ex.toString((F::Norm*) 0) == "none" && ex.toString((F::Activation*) 0) == "none" && ex.toString((F::Defuzzifier*) 0) == "none", "absent-part", [&] { return std::string("an absent operator or method is not written as none"); });
    { F::RuleBlock nothing("n"); F::OutputVariable bare("o", 0, 1); c.expect(ex.toString(&nothing).find("activation: none") != std::string::npos && ex.toString(&bare).find("defuzzifier: none") != std::string::npos, "absent-part", [&] { return ex.toString(&nothing) + ex.toString(&bare); }); }
    // the parts of an engine read as the lines of the whole
    for (size_t k = 0; k < g->numberOfInputVariables(); ++k) c.expect(t.find(ex.toString(g->getInputVariable(k))) != std::string::npos, "part-input", [&] { return ex.toString(g->getInputVariable(k)); });
    c.expect(t.find(ex.toString(g->getOutputVariable(0))) != std::string::npos && t.find(ex.toString(g->getRuleBlock(0))) != std::string::npos && t.find(ex.toString(g->ruleBlocks())) != std::string::npos && t.find(ex.toString(g->inputVariables())) != std::string::npos && t.find(ex.toString(g->outputVariables())) != std::string::npos, "parts", [&] { return t; });
    c.state(t);
}
// numbers survive as far as the configured decimals write them
VF_SUITE(decimals) {
    int dec = c.pick(std::vector<int>{0, 1, 3, 6, 9}); double v = c.pick(DV{0.123456789, 1e-7, 123456.789, -0.5, 0.0005, 2.0 / 3, 1e9}); bool neg = c.flip(); c.begin(); if (neg) v = -v;
    ref::Engine e = base(); e.blocks[0].rules.clear(); e.in[0].terms = {T("Triangle", "t", {v - 1, v, v + 2})}; e.in[0].min = v - 1; e.in[0].max = v + 2; e.out[0].def = v;
    int was = F::fuzzylite::decimals(); F::fuzzylite::setDecimals(dec); std::string t; std::unique_ptr<F::Engine> f; std::string err;
    try { Guard g(bld::engine(e)); t = F::FllExporter().toString(g.e); f.reset(F::FllImporter().fromString(t)); } catch (F::Exception& x) { err = x.what(); }
    F::fuzzylite::setDecimals(was); c.step(); if (!err.empty()) { c.fail("decimals-import", err); return; }
    double tol = std::pow(10, -dec); /* a magnitude below one unit is written as zero */ const F::Triangle* k = dynamic_cast<const F::Triangle*>(f->getInputVariable(0)->getTerm(0));
    auto ok = [&](double a, double b) { return std::fabs(a - b) <= tol + 1e-9 * std::fabs(b); };
    c.expect(k && ok(k->getVertexA(), v - 1) && ok(k->getVertexB(), v) && ok(k->getVertexC(), v + 2) && ok(f->getOutputVariable(0)->getDefaultValue(), v) && ok(f->getInputVariable(0)->getMinimum(), v - 1), "decimals", [&] { return vf::cat("with ", dec, " decimals ", v, ": ", t); });
    F::fuzzylite::setDecimals(dec); std::string t2 = F::FllExporter().toString(f.get()); F::fuzzylite::setDecimals(was); c.expect(t == t2, "decimals-fixpoint", [&] { return imex::firstDiff(t2, t); });
    c.state(t);
}
// anything that is not the language is refused: one damaged line
VF_SUITE(refusing) {
    ref::Engine e = base(); e.in[0].desc = "d"; std::vector<SV> b = imex::fllBlocks(e); SV all; for (auto& k : b) for (auto& l : k) all.push_back(l);
    int at = c.choose((int) all.size()), how = c.choose(7); int wrong = how == 6 ? c.choose(9) : 0; c.begin(); std::string& l = all[(size_t) at]; size_t colon = l.find(':'); std::string key = l.substr(0, colon), val = l.substr(colon + 1); bool mustRefuse = true;
    if (how == 0) l = key + val;                                            // no colon
    else if (how == 1) { l = "x" + l; mustRefuse = at != 0 || true; }        // unknown key
    else if (how == 2) { l = key + ": bogus"; mustRefuse = key == "enabled" || key == "lock-range" || key == "lock-previous" || key == "range" || key == "term" || key == "conjunction" || key == "disjunction" || key == "implication" || key == "activation" || key == "aggregation" || key == "defuzzifier" || key == "default"; if (!mustRefuse && key != "rule") return; }
    else if (how == 3) { if (key != "term") return; l = key + val + " 1 2 3 oops"; mustRefuse = true; std::istringstream s(val); std::string n, k; s >> n >> k; l = "term: " + n + " " + k + " 0.5"; }   // too few parameters
    else if (how == 4) { if (key != "range" && key != "default" && key != "term") return; size_t d = l.find_last_of("0123456789"); if (d == std::string::npos) d = l.size() - 1; l[d] = 'z'; }
    else if (how == 6) {      // words that are no parameters
        static const char* A[] = {"Threshold ~ 0.5", "Threshold gt 0.5", "Threshold > x", "Threshold 0.5 >", "First x 0.5", "First 1 x", "Last x 0.5", "Highest x", "Lowest x"}; static const char* D[] = {"Centroid x", "Bisector 1x0", "WeightedAverage Bogus", "WeightedSum tsukamoto", "SmallestOfMaximum x"};
        if (key == "activation") l = key + ": " + A[wrong]; else if (key == "defuzzifier" && wrong < 5) l = key + ": " + D[wrong]; else return; }
    else { if (key != "enabled" && key != "lock-range" && key != "lock-previous") return; l = key + ": True"; }
    std::string text; for (auto& x : all) text += x + "\n"; c.describe([&] { return text; }); c.step(); bool threw = false; std::unique_ptr<F::Engine> f; 
    long live = vf::liveBlocks(); std::string what;
    try { f.reset(F::FllImporter().fromString(text)); } catch (F::Exception& x) { threw = true; what = x.what(); }
    if (key == "rule" && how == 2) { c.expect(!threw && !f->getRuleBlock(0)->getRule(f->getRuleBlock(0)->numberOfRules() - (at + 1 == (int) all.size() ? 1 : 2))->isLoaded(), "bad-rule", [&] { return text; }); return; }
    (void) live;
    c.expect(threw == mustRefuse, "accepted-damaged-text", [&] { return "line <" + l + "> was accepted"; });
    c.state(l);
}
// many parts of each kind
VF_SUITE(sizes) { int dim = c.choose(7), n = 5 + c.choose(c.thorough ? 60 : 24); c.begin(); round(c, sized(dim, n), "sizes"); }
