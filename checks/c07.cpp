// C07: formulas evaluate as ordinary infix mathematics with the documented precedences.
#include "common.h"
using namespace ref;
namespace {
// ---- reference semantics
struct Op2 { const char* s; int prec; bool right; double (*f)(double, double); };
double f_mod(double a, double b) { return std::fmod(a, b); }
const Op2 BIN[] = {{"^", 90, true, [](double a, double b) { return std::pow(a, b); }}, {"*", 80, false, [](double a, double b) { return a * b; }}, {"/", 80, false, [](double a, double b) { return a / b; }},
                   {"%", 80, false, f_mod}, {"+", 70, false, [](double a, double b) { return a + b; }}, {"-", 70, false, [](double a, double b) { return a - b; }},
                   {"and", 60, false, [](double a, double b) { return ref::eq(a, 1) && ref::eq(b, 1) ? 1.0 : 0.0; }}, {"or", 50, false, [](double a, double b) { return ref::eq(a, 1) || ref::eq(b, 1) ? 1.0 : 0.0; }}};
struct Fn1 { const char* s; double (*f)(double); };
const Fn1 PRE[] = {{"!", [](double a) { return ref::eq(a, 1) ? 0.0 : 1.0; }}, {"~", [](double a) { return -a; }}};
double r_round(double x) { return x > 0 ? std::floor(x + 0.5) : std::ceil(x - 0.5); }
#define F1(N) {#N, [](double a) { return (double) std::N(a); }}
const Fn1 FN1[] = {F1(sin), F1(sqrt), {"abs", [](double a) { return a < 0 ? -a : a + 0.0; }}, F1(acos), F1(asin), F1(atan), F1(ceil), F1(cos), F1(cosh), F1(exp), F1(fabs), F1(floor), F1(log), F1(log10), {"round", r_round}, F1(sinh), F1(tan), F1(tanh), F1(acosh), F1(asinh), F1(atanh), F1(log1p)};
struct Fn2 { const char* s; double (*f)(double, double); };
const Fn2 FN2[] = {{"pow", [](double a, double b) { return std::pow(a, b); }}, {"max", [](double a, double b) { return mx(a, b); }}, {"min", [](double a, double b) { return mn(a, b); }}, {"atan2", [](double a, double b) { return std::atan2(a, b); }}, {"fmod", f_mod},
                   {"eq", [](double a, double b) { return ref::eq(a, b) ? 1.0 : 0.0; }}, {"neq", [](double a, double b) { return ref::eq(a, b) ? 0.0 : 1.0; }}, {"ge", [](double a, double b) { return ref::ge(a, b) ? 1.0 : 0.0; }}, {"gt", [](double a, double b) { return ref::gt(a, b) ? 1.0 : 0.0; }}, {"le", [](double a, double b) { return ref::le(a, b) ? 1.0 : 0.0; }}, {"lt", [](double a, double b) { return ref::lt(a, b) ? 1.0 : 0.0; }}};
const Op2* binOf(const std::string& s) { for (auto& o : BIN) if (s == o.s) return &o; return 0; }
const Fn1* preOf(const std::string& s) { for (auto& o : PRE) if (s == o.s) return &o; return 0; }
const Fn1* fn1Of(const std::string& s) { for (auto& o : FN1) if (s == o.s) return &o; return 0; }
const Fn2* fn2Of(const std::string& s) { for (auto& o : FN2) if (s == o.s) return &o; return 0; }

struct TNode; typedef std::shared_ptr<TNode> Tree;
struct TNode { std::string s; std::vector<Tree> k; };   // leaf: number or name
Tree leaf(const std::string& s) { Tree p(new TNode); p->s = s; return p; }
Tree node(const std::string& s, Tree a, Tree b = Tree()) { Tree p(new TNode); p->s = s; p->k.push_back(a); if (b) p->k.push_back(b); return p; }
typedef std::map<std::string, double> Env;
double eval(const Tree& n, const Env& e) {
    if (n->k.empty()) { auto i = e.find(n->s); return i != e.end() ? i->second : std::strtod(n->s.c_str(), 0); }
    double a = eval(n->k[0], e); if (n->k.size() == 1) { if (auto p = preOf(n->s)) return p->f(a); return fn1Of(n->s)->f(a); }
    double b = eval(n->k[1], e); if (auto o = binOf(n->s)) return o->f(a, b); return fn2Of(n->s)->f(a, b);
}
// infix text; style 0: least parentheses and spaces, 1: least parentheses with spaces, 2: full parentheses, 3: odd white space and redundant parentheses
std::string text(const Tree& n, int style) {
    std::string sp = style == 0 ? "" : style == 3 ? " \t " : " ";
    if (n->k.empty()) return style == 3 ? "( " + n->s + ")" : n->s;
    if (!binOf(n->s) && !preOf(n->s)) { std::string r = n->s + (style == 3 ? "\n" : "") + "("; for (size_t i = 0; i < n->k.size(); ++i) r += (i ? "," + sp : "") + text(n->k[i], style); return r + ")"; }
    auto prec = [](const Tree& x) { if (x->k.empty() || (!binOf(x->s) && !preOf(x->s))) return 200; return preOf(x->s) ? 100 : binOf(x->s)->prec; };
    std::string r;
    if (auto p = preOf(n->s)) { bool par = prec(n->k[0]) < 100; r = std::string(p->s) + (style ? " " : "") + (par ? "(" + text(n->k[0], style) + ")" : text(n->k[0], style)); }
    else {
        const Op2* o = binOf(n->s); int pl = prec(n->k[0]), pr = prec(n->k[1]);
        bool lp = pl < o->prec || (pl == o->prec && o->right), rp = pr < o->prec || (pr == o->prec && !o->right);
        std::string l = text(n->k[0], style), q = text(n->k[1], style); if (lp) l = "(" + l + ")"; if (rp) q = "(" + q + ")";
        std::string s2 = isalpha(o->s[0]) && sp.empty() ? " " : sp; r = l + s2 + o->s + s2 + q;
    }
    return style == 2 ? "(" + r + ")" : r;
}
std::string post(const Tree& n) { std::string r; for (auto& k : n->k) r += post(k) + " "; return r + n->s; }
std::string pre(const Tree& n) { std::string r = n->s; for (auto& k : n->k) r += " " + pre(k); return r; }
std::string squeeze(const std::string& s) { std::istringstream i(s); std::string t, r; while (i >> t) r += (r.empty() ? "" : " ") + t; return r; }

// ---- the grammar, by precedence climbing over a token sequence
struct Parser {
    const SV& t; size_t i = 0; bool ok = true; explicit Parser(const SV& x) : t(x) {}
    std::string peek() { return i < t.size() ? t[i] : ""; }
    Tree fail() { ok = false; return Tree(); }
    Tree prim() {
        std::string k = peek(); ++i;
        if (k == "(") { Tree r = expr(0); if (!ok || peek() != ")") return fail(); ++i; return r; }
        if (preOf(k)) { Tree a = prim(); return ok ? node(k, a) : Tree(); }
        if (fn1Of(k) || fn2Of(k)) {
            if (peek() != "(") return fail(); ++i; Tree a = expr(0), b; if (!ok) return Tree();
            if (fn2Of(k)) { if (peek() != ",") return fail(); ++i; b = expr(0); if (!ok) return Tree(); }
            if (peek() != ")") return fail(); ++i; return node(k, a, b);
        }
        if (k.empty() || k == ")" || k == "," || binOf(k)) return fail();
        return leaf(k);
    }
    Tree expr(int min) {
        Tree l = prim(); while (ok) { const Op2* o = binOf(peek()); if (!o || o->prec < min) break; ++i; Tree r = expr(o->right ? o->prec : o->prec + 1); if (!ok) break; l = node(o->s, l, r); }
        return ok ? l : Tree();
    }
    Tree parse() { Tree r = expr(0); return ok && i == t.size() ? r : Tree(); }
};
// what a shunting-yard reading makes of misplaced operators, functions and commas (a recorded finding)
Tree loose(const SV& t) {
    SV q, st; auto prec = [](const std::string& x) { return preOf(x) ? 100 : binOf(x) ? binOf(x)->prec : 0; };
    auto isf = [](const std::string& x) { return fn1Of(x) || fn2Of(x); };
    auto iso = [](const std::string& x) { return binOf(x) || preOf(x); };
    for (auto& k : t) {
        if (isf(k)) st.push_back(k);
        else if (iso(k)) { bool right = preOf(k) || binOf(k)->right; while (!st.empty() && (isf(st.back()) || iso(st.back()))) { int a = prec(k), b = prec(st.back()); if ((!right && a == b) || a < b) { q.push_back(st.back()); st.pop_back(); } else break; } st.push_back(k); }
        else if (k == "(") st.push_back(k);
        else if (k == "," || k == ")") { while (!st.empty() && st.back() != "(") { q.push_back(st.back()); st.pop_back(); } if (st.empty()) return Tree(); if (k == ")") { st.pop_back(); if (!st.empty() && isf(st.back())) { q.push_back(st.back()); st.pop_back(); } } }
        else q.push_back(k);
    }
    while (!st.empty()) { if (st.back() == "(") return Tree(); q.push_back(st.back()); st.pop_back(); }
    std::vector<Tree> s;
    for (auto& k : q) { size_t n = preOf(k) || fn1Of(k) ? 1 : binOf(k) || fn2Of(k) ? 2 : 0; if (!n) { s.push_back(leaf(k)); continue; } if (s.size() < n) return Tree(); Tree b = s.back(); s.pop_back(); Tree a; if (n == 2) { a = s.back(); s.pop_back(); s.push_back(node(k, a, b)); } else s.push_back(node(k, b)); }
    return s.size() == 1 ? s[0] : Tree();
}
std::string join(const SV& t, const std::string& sep = " ") { std::string s; for (size_t i = 0; i < t.size(); ++i) s += (i ? sep : "") + t[i]; return s; }
void evalAll(vf::Ctx& c, fuzzylite::Function& f, const Tree& want, const std::string& txt, const char* key, const std::vector<Env>& envs) {
    for (auto& e : envs) {
        double w = eval(want, e), g; c.step();
        try { g = f.evaluate(e); } catch (std::exception& x) { c.fail(std::string(key) + "-raises", "<" + txt + "> raised " + x.what()); return; }
        c.expect(vf::near(g, w), key, [&] { return "<" + txt + "> with x=" + vf::num(e.at("x")) + " a=" + vf::num(e.at("a")) + " is " + vf::num(g) + ", expected " + vf::num(w); });
        c.state(vf::mix(vf::hashStr(pre(want)), vf::hashBytes(&w, sizeof w)));
    }
}
const std::vector<Env>& ENVS() { static std::vector<Env> e = {{{"x", 0.7}, {"a", 3}, {"y1", 1.0}}, {{"x", -1.3}, {"a", 0.4}, {"y1", 0.0}}, {{"x", 1}, {"a", 1}, {"y1", -2}}}; return e; }
Tree tree(vf::Ctx& c, int n, const SV& bins, const SV& uns, const SV& leaves) {   // trees with exactly n operators
    if (n == 0) return leaf(c.pick(leaves));
    int k = c.choose((int) (bins.size() + uns.size()));
    if (k >= (int) bins.size()) return node(uns[(size_t) k - bins.size()], tree(c, n - 1, bins, uns, leaves));
    int l = c.choose(n); Tree a = tree(c, l, bins, uns, leaves); return node(bins[(size_t) k], a, tree(c, n - 1 - l, bins, uns, leaves));
}
void checkTree(vf::Ctx& c, const Tree& t, int style) {
    std::string s = text(t, style); c.describe([&] { return "formula <" + s + ">"; });
    fuzzylite::Function f("f"); f.variables = Env{{"a", 1}, {"y1", 1}}; c.step();
    try { f.load(s); } catch (std::exception& x) { c.fail("formula-rejected", "<" + s + "> was rejected: " + x.what()); return; }
    evalAll(c, f, t, s, "formula-value", ENVS());
    c.expect(squeeze(f.toPostfix(s)) == post(t), "formula-postfix", [&] { return "<" + s + "> becomes <" + f.toPostfix(s) + ">, expected <" + post(t) + ">"; });
    auto words = [](const std::string& x) { std::istringstream i(x); std::string w, r; while (i >> w) { char* e; double d = strtod(w.c_str(), &e); r += (*e ? w : vf::num(d)) + " "; } return r; };
    c.expect(words(f.root()->toPrefix()) == words(pre(t)) && words(f.root()->toPostfix()) == words(post(t)), "formula-structure", [&] { return "<" + s + "> has prefix <" + f.root()->toPrefix() + ">, expected <" + pre(t) + ">"; });
}
}
VF_SUITE(trees) {
    int n = c.choose(3); int style = c.choose(4); Tree t;
    SV b = {"^", "*", "/", "%", "+", "-", "and", "or", "pow", "max"}, u = {"!", "~", "sin", "abs"};
    if (n == 2) { int k = c.choose(14); (void) k; c.begin(); Tree x = tree(c, 2, b, u, {"x", "2", "y1"}); if (k) c.prune(); t = x; }
    else { c.begin(); t = tree(c, n, b, u, {"x", "a", "2", "0.5", "y1", "1e3", "pi3"}); if (pre(t).find("pi3") != std::string::npos) c.prune(); }
    checkTree(c, t, style);
}
VF_SUITE(trees_deep) {     // three and four operators, one operator per precedence class
    int n = 3 + c.choose(c.thorough ? 3 : 2); int style = c.choose(2) * (n > 3 ? 0 : 1); SV b = {"^", "/", "-", "and", "or"}, u = {"~"}; SV lv = {"x", "2"}; if (n > 3) { b = {"^", "/", "-"}; lv = {"x"}; } if (n == 3) { b.push_back("%"); b.push_back("+"); b.push_back("max"); u.push_back("sin"); u.push_back("!"); }
    int top = c.choose((int) (b.size() + u.size())); c.begin(); Tree t;
    if (top >= (int) b.size()) t = node(u[(size_t) top - b.size()], tree(c, n - 1, b, u, lv)); else { int l = c.choose(n); Tree a = tree(c, l, b, u, lv); t = node(b[(size_t) top], a, tree(c, n - 1 - l, b, u, lv)); }
    checkTree(c, t, style);
}
VF_SUITE(long_formulas) {   // formulas of many operators: chains to the left and to the right, balanced and zigzag trees, with and without functions
    static const SV B = {"^", "*", "/", "%", "+", "-", "and", "or", "pow", "atan2", "le"}, U = {"~", "!", "sin", "abs"}, LV = {"x", "a", "2", "0.5", "y1", "1.25"};
    int shape = c.choose(5), step = c.choose((int) B.size()), off = c.choose((int) B.size()), un = c.choose(4); static const std::vector<int> N = {5, 8, 13, 21, 34, 55}; int n = c.thorough ? 5 + c.choose(60) : c.pick(N); int style = c.choose(4); c.begin();
    int at = 0, lf = 0; auto op = [&] { return B[(size_t) ((step * at++ + off) % (int) B.size())]; }; auto lv = [&] { Tree t = leaf(LV[(size_t) (lf++ * 5 % (int) LV.size())]); return un && lf % (un + 1) == 0 ? node(U[(size_t) (lf + un) % 4], t) : t; };
    std::function<Tree(int)> build = [&](int k) -> Tree { if (k == 0) return lv(); Tree l, r; std::string o = op(); int left = shape == 2 ? (k - 1) / 2 : at % 2 ? k - 1 : 0; if (shape >= 2 && shape < 4) { l = build(left); r = build(k - 1 - left); } return node(o, l, r); };
    Tree t;
    if (shape == 0) { t = lv(); for (int i = 0; i < n; ++i) { t = node(op(), t, lv()); if (un > 1 && i % 7 == 3) t = node(U[(size_t) i % 4], t); } }
    else if (shape == 1) { t = lv(); for (int i = 0; i < n; ++i) { t = node(op(), lv(), t); if (un > 1 && i % 7 == 3) t = node(U[(size_t) i % 4], t); } }
    else if (shape < 4) t = build(n);
    else { SV k; for (int i = 0; i <= n; ++i) { std::string o = op(); if (i) k.push_back(binOf(o) ? o : "+"); k.push_back(pre(lv())); if (k.back().find(' ') != std::string::npos) k.back() = "x"; } t = Parser(k).parse(); }   // one flat run of operators
    checkTree(c, t, style);
}
static void tokens(vf::Ctx& c, const SV& al, int maxLen) {
    SV t; int n = c.choose(maxLen + 1); for (int i = 0; i < n; ++i) { t.push_back(c.pick(al)); if (i == 2) c.begin(); } if (n <= 2) c.begin();
    std::string s = join(t, c.flip() ? "  " : " "); Tree want = Parser(t).parse(); fuzzylite::Function f("f"); bool isLoose = false; bool threw = false; std::string what;
    if (!want) { want = loose(t); isLoose = want.get() != 0; }
    long live = vf::liveBlocks(); c.step();
    { fuzzylite::Function g("g"); g.variables = Env{{"a", 1}}; try { g.load(s); } catch (fuzzylite::Exception& x) { threw = true; what = x.what(); } catch (std::exception& x) { c.fail("foreign-exception", "<" + s + "> raised " + x.what()); return; }
      if (!want) { if (!threw) c.fail("malformed-accepted", "<" + s + "> is not a formula but was accepted"); if (g.isLoaded()) c.fail("malformed-loaded", "<" + s + "> was rejected but is loaded"); }
      else if (isLoose) { c.fail("loose-formula-grammar", "<" + s + "> is not a formula but is accepted"); if (!threw) evalAll(c, g, want, s, "loose-value", ENVS()); else c.failed = false; }
      else if (threw) c.fail("wellformed-rejected", "<" + s + "> was rejected: " + what);
      else evalAll(c, g, want, s, "token-value", ENVS());
      if (g.getFormula() != s) c.fail("formula-text", "<" + s + "> is reported as <" + g.getFormula() + ">"); }
    what.clear(); what.shrink_to_fit(); if (!want && !c.failed && vf::liveBlocks() > live) c.fail("leak", vf::cat("loading <", s, "> leaked ", vf::liveBlocks() - live, " blocks"));
    if (!want) c.state(vf::hashStr("rejected"));
}
VF_SUITE(tokens) { tokens(c, {"x", "2", "+", "^", "~", "sin", "max", "(", ")", ","}, c.thorough ? 7 : 6); }
VF_SUITE(tokens_operators) { tokens(c, {"a", "-", "*", "^", "!", "and", "or", "(", ")"}, c.thorough ? 8 : 6); }
VF_SUITE(functions) {     // every operator and function of the factory on a grid of values
    const double V[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3.5, 1e-7, 1 + 5e-7, 1 + 2e-6, 100, ref::INF, -ref::INF, ref::NaN, 2.5, -2.5, 0.25};
    fuzzylite::FunctionFactory* ff = fuzzylite::FactoryManager::instance()->function();
    SV all; for (auto& o : BIN) all.push_back(o.s); for (auto& o : PRE) all.push_back(o.s); for (auto& o : FN1) all.push_back(o.s); for (auto& o : FN2) all.push_back(o.s);
    SV have = ff->available(); std::sort(all.begin(), all.end()); std::sort(have.begin(), have.end());
    if (all != have) c.fail("available", "the functions available are not the documented ones");
    std::string s = c.pick(all); double a = c.pick(V), b = c.pick(V); c.begin();
    bool two = binOf(s) || fn2Of(s); if (!two && !(b == 0)) c.prune();
    std::string t = binOf(s) ? "a " + s + " x" : preOf(s) ? s + "a" : two ? s + "(a,x)" : s + "(a)";
    Tree w = two ? node(s, leaf("a"), leaf("x")) : node(s, leaf("a"));
    fuzzylite::Function f("f"); f.variables["a"] = 0; f.load(t); evalAll(c, f, w, t, "function-value", {Env{{"x", b}, {"a", a}}});
    fuzzylite::Function::Element* e = ff->getObject(s); std::unique_ptr<fuzzylite::Function::Element> k(ff->cloneObject(s));
    bool op = binOf(s) || preOf(s); c.expect(e->isOperator() == op && e->isFunction() == !op && e->arity == (two ? 2 : 1) && k->name == s && k->arity == e->arity && k->unary == e->unary && k->binary == e->binary, "element", [&] { return "the element <" + s + "> is wrong: " + e->toString(); });
}
static bool sameMap(const Env& a, const Env& b) { if (a.size() != b.size()) return false; for (auto& kv : a) { auto it = b.find(kv.first); if (it == b.end() || !vf::near(kv.second, it->second)) return false; } return true; }
VF_SUITE(variables) {     // where the value of a name comes from: local map, engine variables, x
    fuzzylite::Engine e1("e1"), e2("e2"); const char* inName = c.flip() ? "in" : "x";
    for (fuzzylite::Engine* e : {&e1, &e2}) { e->addInputVariable(new fuzzylite::InputVariable(inName, 0, 1)); e->addInputVariable(new fuzzylite::InputVariable("in2", 0, 1)); e->addOutputVariable(new fuzzylite::OutputVariable("out", 0, 1)); }
    e1.getInputVariable(0)->setValue(0.3); e1.getInputVariable(1)->setValue(0.4); e1.getOutputVariable(0)->setValue(0.6); e2.getInputVariable(0)->setValue(30); e2.getInputVariable(1)->setValue(40); e2.getOutputVariable(0)->setValue(60);
    Env map; fuzzylite::Function f("f"); int eng = c.choose(3); auto E = [&](int k) -> fuzzylite::Engine* { return k == 0 ? 0 : k == 1 ? &e1 : &e2; };
    SV used = {"in2", "out", "k", "x", "in"}; std::string a = c.pick(used), b = c.pick(used); std::string s = a + "*1000+" + b; c.begin();
    f.variables["k"] = 7; f.variables["in"] = -5; f.variables["in2"] = -6; f.variables["out"] = -7; map = f.variables; f.load(s, E(eng));
    auto refresh = [&](Env& m, int k, double x) { if (k) { m[inName] = E(k)->getInputVariable(0)->getValue(); m["in2"] = E(k)->getInputVariable(1)->getValue(); m["out"] = E(k)->getOutputVariable(0)->getValue(); } m["x"] = x; };
    refresh(map, eng, 0);
    for (int step = 0; step < (c.thorough ? 5 : 4); ++step) {
        int o = c.choose(8); double x = 0.25 + step;
        if (o == 0) { double g = f.membership(x); refresh(map, eng, x); double w = map[a] * 1000 + map[b]; c.expect(vf::near(g, w), "membership", [&] { return vf::cat("<", s, "> at ", x, " is ", g, ", expected ", w); }); }
        else if (o == 1) { E(eng ? eng : 1)->getInputVariable(0)->setValue(0.9 + step); E(eng ? eng : 1)->getOutputVariable(0)->setValue(1.9 + step); }
        else if (o == 7) { E(eng ? eng : 1)->getInputVariable(0)->setValue(step % 2 ? INF : NaN); E(eng ? eng : 1)->getInputVariable(1)->setValue(NaN); E(eng ? eng : 1)->getOutputVariable(0)->setValue(step % 2 ? NaN : -INF); }
        else if (o == 2) { f.variables["k"] = map["k"] = 70 + step; f.variables["in2"] = map["in2"] = 1; }
        else if (o == 3) { eng = (eng + 1) % 3; f.setEngine(E(eng)); }
        else if (o == 4) { Env l; l["k"] = 100 + step; l["in"] = 3; for (auto& kv : l) map[kv.first] = kv.second; double g = f.evaluate(l), w = map[a] * 1000 + map[b]; c.expect(vf::near(g, w), "evaluate", [&] { return vf::cat("<", s, "> evaluates to ", g, ", expected ", w); }); }
        else if (o == 5) { std::unique_ptr<fuzzylite::Function> g(f.clone()); fuzzylite::Function tmp("other", "1"); tmp.variables["k"] = -1; tmp.variables["in2"] = -2; tmp.variables["extra"] = 9; f = tmp; c.expect(sameMap(f.variables, tmp.variables) && g->variables.count("extra") == 0, "assigned-variables", [&] { return "a function assigned over has variables other than those of its source"; });
            f.variables["k"] = 555; fuzzylite::Function h(*g); f = h; c.expect(sameMap(f.variables, g->variables), "copied-variables", [&] { return "a copied function has variables other than those of its source"; }); }
        else { eng = eng == 1 ? 2 : 1; f.updateReference(E(eng)); refresh(map, eng, 0); }
        c.step();
        c.expect(f.getFormula() == s && f.isLoaded() && f.getEngine() == E(eng) && f.getName() == "f", "function-identity", [&] { return "the function lost its formula, tree, engine or name"; });
    }
    double g = f.membership(2.5); refresh(map, eng, 2.5); double w = map[a] * 1000 + map[b]; c.expect(vf::near(g, w), "membership-end", [&] { return vf::cat("<", s, "> at the end is ", g, ", expected ", w); });
    c.state(vf::hashBytes(&g, sizeof g));
}
VF_SUITE(histories) {     // loading, failing to load, unloading and copying in any order
    fuzzylite::Function f("f"), other("o", "x*3"); other.load(); std::string formula, root; int n = c.thorough ? 6 : 5;
    for (int i = 0; i < n; ++i) {
        int o = c.choose(9); if (i == 1) c.begin(); bool threw = false;
        auto load = [&](const std::string& t, bool good) { try { f.load(t); } catch (fuzzylite::Exception&) { threw = true; } formula = t; root = good ? t : ""; if (threw == good) c.fail("load-outcome", "<" + t + (good ? "> was rejected" : "> was accepted")); };
        if (o == 0) load("x+1", true); else if (o == 1) load("sin(x)^2", true); else if (o == 2) load("x+", false); else if (o == 3) load("", false);
        else if (o == 4) { f.unload(); root = ""; } else if (o == 5) { f.setFormula("x/2"); formula = "x/2"; }
        else if (o == 6) { bool good = !formula.empty() && formula != "x+"; try { f.load(); } catch (fuzzylite::Exception&) { threw = true; } root = good ? formula : ""; if (threw == good) c.fail("reload-outcome", "reloading <" + formula + "> is wrong"); }
        else if (o == 7) { f = other; formula = "x*3"; root = "x*3"; } else { fuzzylite::Function g(f); fuzzylite::Function k("k"); k = g; f = k; }
        c.step(); bool mt = false; double v = 0; try { v = f.membership(0.6); } catch (fuzzylite::Exception&) { mt = true; }
        double w = root == "x+1" ? 1.6 : root == "sin(x)^2" ? std::sin(0.6) * std::sin(0.6) : root == "x/2" ? 0.3 : root == "x*3" ? 0.6 * 3 : 0;
        c.expect(f.isLoaded() == !root.empty() && mt == root.empty() && (mt || vf::near(v, w)), "history", [&] { return vf::cat("after step ", i, " (operation ", o, ") the function evaluates to ", mt ? "an exception" : vf::num(v), ", expected ", root.empty() ? "an exception" : vf::num(w)); });
        c.expect(f.getFormula() == formula && f.parameters() == formula, "history-formula", [&] { return "the formula is <" + f.getFormula() + ">, expected <" + formula + ">"; });
        c.state(vf::hashStr(formula + "|" + root));
    }
}
