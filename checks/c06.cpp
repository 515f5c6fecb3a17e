// C06: rule text means what the grammar says; anything else is rejected and leaves the rule inert.
#include "common.h"
using namespace ref;
namespace {
const SV VARS = {"a", "b", "x"};
struct World {
    ref::Engine s; ref::State st; std::unique_ptr<fuzzylite::Engine> e;
    World() {
        s.name = "w";
        std::vector<ref::Term> IN = {T("Ramp", "low", {1, 0}), T("Ramp", "hi", {0, 1})};
        s.in = {inVar("a", 0, 1, IN), inVar("b", 0, 1, IN)};
        s.out = {outVar("x", 0, 1, {T("Triangle", "p", {0, 0.5, 1}), T("Triangle", "q", {0, 0.2, 1})}, "Maximum", "Centroid", 10), outVar("y", 0, 1, {T("Triangle", "p", {0, 0.5, 1}), T("Triangle", "low", {0, 0.2, 1})}, "Maximum", "Centroid", 10)};
        ref::Block b; b.name = "b"; b.conj = "AlgebraicProduct"; b.disj = "AlgebraicSum"; b.impl = "Minimum"; s.blocks = {b};
        e.reset(bld::engine(s)); st = initial(s);
        st.in = {0.3, 0.45}; e->getInputVariable(0)->setValue(0.3); e->getInputVariable(1)->setValue(0.45);
        e->getOutputVariable(0)->fuzzyOutput()->addTerm(e->getOutputVariable(0)->getTerm("p"), 0.6, e->getRuleBlock(0)->getImplication());
        Act a; a.term = 0; a.degree = 0.6; a.impl = "Minimum"; st.fuzzy[0].push_back(a);
    }
};
World& world() { static World w; return w; }
int findVar(const World& w, const std::string& n, bool& out) { for (size_t i = 0; i < w.s.in.size(); ++i) if (w.s.in[i].name == n) { out = false; return (int) i; } for (size_t i = 0; i < w.s.out.size(); ++i) if (w.s.out[i].name == n) { out = true; return (int) i; } return -1; }
int findTerm(const Var& v, const std::string& n) { for (size_t i = 0; i < v.terms.size(); ++i) if (v.terms[i].name == n) return (int) i; return -1; }
bool isHedge(const std::string& t) { for (auto h : HEDGES) if (t == h) return true; return false; }

// the documented grammar of antecedents, by recursive descent
struct Parser {
    const World& w; const SV& t; size_t i = 0; bool ok = true;
    Parser(const World& ww, const SV& tt) : w(ww), t(tt) {}
    std::string peek() const { return i < t.size() ? t[i] : ""; }
    Expr prop() {
        Expr e; if (peek() == "(") { ++i; Expr r = disj(); if (peek() != ")") ok = false; ++i; return r; }
        bool out = false; int v = findVar(w, peek(), out); if (v < 0) { ok = false; return e; }
        e.p.var = v; e.p.out = out; e.p.term = -1; ++i;
        if (peek() != "is") { ok = false; return e; } ++i;
        const Var& var = out ? w.s.out[(size_t) v] : w.s.in[(size_t) v];
        while (isHedge(peek())) { e.p.hedges.push_back(peek()); ++i; if (e.p.hedges.back() == "any") return e; }
        int k = findTerm(var, peek()); if (k < 0) { ok = false; return e; }
        e.p.term = k; ++i; return e;
    }
    Expr conj() { Expr l = prop(); while (ok && peek() == "and") { ++i; l = And(l, prop()); } return l; }
    Expr disj() { Expr l = conj(); while (ok && peek() == "or") { ++i; l = Or(l, conj()); } return l; }
    bool parse(Expr& out) { out = disj(); return ok && i == t.size(); }
};
// what the shunting-yard reading of a token sequence yields when operators, commas or parentheses are misplaced (a recorded finding)
bool loose(const World& w, const SV& t, Expr& out) {
    SV post, st;
    auto prec = [](const std::string& x) { return x == "and" ? 2 : x == "or" ? 1 : 0; };
    for (auto& k : t) {
        if (prec(k)) { while (!st.empty() && prec(st.back()) >= prec(k)) { post.push_back(st.back()); st.pop_back(); } st.push_back(k); }
        else if (k == "(") st.push_back(k);
        else if (k == ")" || k == ",") { while (!st.empty() && st.back() != "(") { post.push_back(st.back()); st.pop_back(); } if (st.empty()) return false; if (k == ")") st.pop_back(); }
        else post.push_back(k);
    }
    while (!st.empty()) { if (st.back() == "(") return false; post.push_back(st.back()); st.pop_back(); }
    std::vector<Expr> stack; int state = 0;   // 0 variable/operator, 1 is, 2 hedge/term
    for (auto& k : post) {
        if (state == 0) {
            bool o = false; int v = findVar(w, k, o);
            if (v >= 0) { Expr e; e.p.var = v; e.p.out = o; e.p.term = -1; stack.push_back(e); state = 1; continue; }
            if (!prec(k) || stack.size() < 2) return false;
            Expr r = stack.back(); stack.pop_back(); Expr l = stack.back(); stack.pop_back(); stack.push_back(k == "and" ? And(l, r) : Or(l, r)); continue;
        }
        if (state == 1) { if (k != "is") return false; state = 2; continue; }
        Expr& e = stack.back(); const Var& var = e.p.out ? w.s.out[(size_t) e.p.var] : w.s.in[(size_t) e.p.var];
        if (isHedge(k)) { e.p.hedges.push_back(k); if (k == "any") state = 0; continue; }
        int n = findTerm(var, k); if (n < 0) return false; e.p.term = n; state = 0;
    }
    if (state != 0 || stack.size() != 1) return false;
    out = stack[0]; return true;
}
bool consequent(const World& w, const SV& t, std::vector<Concl>& out) {
    size_t i = 0; out.clear();
    while (true) {
        if (i >= t.size()) return false;
        int v = -1; for (size_t k = 0; k < w.s.out.size(); ++k) if (w.s.out[k].name == t[i]) v = (int) k;
        if (v < 0) return false;
        Concl c; c.var = v; ++i;
        if (i >= t.size() || t[i] != "is") return false;
        ++i; while (i < t.size() && isHedge(t[i])) c.hedges.push_back(t[i++]);
        if (i >= t.size() || (c.term = findTerm(w.s.out[(size_t) v], t[i])) < 0) return false;
        ++i; out.push_back(c);
        if (i == t.size()) return true;
        if (t[i] != "and") return false;
        ++i;
    }
}
std::string join(const SV& t, const std::string& sep = " ") { std::string s; for (size_t i = 0; i < t.size(); ++i) s += (i ? sep : "") + t[i]; return s; }
std::string prefix(const ref::Engine& s, const Expr& x) { return x.kind == 0 ? propText(s, x.p) : std::string(x.kind == 1 ? "and" : "or") + " " + prefix(s, *x.l) + " " + prefix(s, *x.r); }
std::string postfix(const ref::Engine& s, const Expr& x) { return x.kind == 0 ? propText(s, x.p) : postfix(s, *x.l) + " " + postfix(s, *x.r) + " " + (x.kind == 1 ? "and" : "or"); }
std::string squeeze(const std::string& s) { std::istringstream i(s); std::string t, r; while (i >> t) r += (r.empty() ? "" : " ") + t; return r; }

// loads text into a rule (new, or one that was loaded before) and checks the outcome. want: null if the text must be rejected
void loadAndCheck(vf::Ctx& c, fuzzylite::Rule& rule, const std::string& text, const Expr* ante, const std::vector<Concl>* cons, double weight, const char* key) {
    World& w = world(); bool threw = false; std::string what; c.step();
    try { rule.load(text, w.e.get()); } catch (fuzzylite::Exception& x) { threw = true; what = x.what(); }
    catch (std::exception& x) { c.fail("foreign-exception", "loading <" + text + "> raised " + x.what()); return; }
    if (rule.getText() != text) c.fail("rule-text", "<" + text + "> is reported as <" + rule.getText() + ">");
    if (!ante) {
        if (!threw) c.fail(std::string(key) + "-accepted", "the rule <" + text + "> is not well-formed but was accepted");
        if (rule.isLoaded() || rule.isTriggered() || rule.getActivationDegree() != 0.0) c.fail(std::string(key) + "-half-loaded", "the rule <" + text + "> was rejected but is not inert");
        return;
    }
    if (threw) { c.fail(std::string(key) + "-rejected", "the rule <" + text + "> is well-formed but was rejected: " + what); return; }
    if (rule.isTriggered() || rule.getActivationDegree() != 0.0) { c.fail(std::string(key) + "-not-fresh", "the rule <" + text + "> has just been loaded but is triggered or has a degree of activation"); return; }
    if (!rule.isLoaded() || !rule.isEnabled()) { c.fail(std::string(key) + "-not-loaded", "the rule <" + text + "> was accepted but is not loaded and enabled"); return; }
    ref::Block& b = w.s.blocks[0]; ref::State st = w.st; ref::Rule r; r.ante = *ante; r.cons = *cons; r.weight = weight; b.rules = {r};
    st.degree = {{0.0}}; st.triggered = {{false}};
    double d = weight * eval(w.s, st, b, *ante);
    fuzzylite::RuleBlock* rb = w.e->getRuleBlock(0);
    double got = rule.activateWith(rb->getConjunction(), rb->getDisjunction());
    c.expect(vf::near(got, d) && vf::near(rule.getActivationDegree(), d), (std::string(key) + "-meaning").c_str(), [&] { return "<" + text + "> has degree " + vf::num(got) + ", expected " + vf::num(d); });
    c.expect(vf::near(rule.getWeight(), weight), "rule-weight", [&] { return "<" + text + "> has weight " + vf::num(rule.getWeight()); });
    // the conclusions
    c.expect(squeeze(rule.getAntecedent()->toPrefix()) == prefix(w.s, *ante) && squeeze(rule.getAntecedent()->toPostfix()) == postfix(w.s, *ante), (std::string(key) + "-structure").c_str(), [&] { return "<" + text + "> reads as " + rule.getAntecedent()->toPrefix() + ", expected " + prefix(w.s, *ante); });
    const std::vector<fuzzylite::Proposition*>& k = rule.getConsequent()->conclusions();
    bool same = k.size() == cons->size();
    for (size_t i = 0; same && i < k.size(); ++i) { const Concl& x = (*cons)[i]; same = k[i]->variable == w.e->getOutputVariable((size_t) x.var) && k[i]->term == w.e->getOutputVariable((size_t) x.var)->getTerm((size_t) x.term) && k[i]->hedges.size() == x.hedges.size(); for (size_t h = 0; same && h < x.hedges.size(); ++h) same = k[i]->hedges[h]->name() == x.hedges[h]; }
    std::string ct; for (auto& x : *cons) { ct += (ct.empty() ? "" : " and ") + w.s.out[(size_t) x.var].name + " is"; for (auto& h : x.hedges) ct += " " + h; ct += " " + w.s.out[(size_t) x.var].terms[(size_t) x.term].name; }
    c.expect(squeeze(rule.getConsequent()->toString()) == ct, "consequent-structure", [&] { return "<" + text + "> reads as <" + rule.getConsequent()->toString() + ">, expected <" + ct + ">"; });
    c.expect(same, "consequent-meaning", [&] { return "<" + text + "> has the wrong conclusions: " + rule.getConsequent()->toString(); });
    rule.trigger(rb->getImplication());
    std::vector<size_t> before = {1, 0}; st.degree[0][0] = d; trigger(w.s, st, 0, 0);
    bool fo = rule.isTriggered() == st.triggered[0][0]; std::string why;
    ref::State doc = w.st; doc.degree = {{d}}; doc.triggered = {{false}}; hedgesLeak() = false; trigger(w.s, doc, 0, 0); hedgesLeak() = true;   // as documented, or with the leak of hedges recorded as a finding of C01
    for (size_t o = 0; o < 2; ++o) {
        auto* f = w.e->getOutputVariable(o)->fuzzyOutput(); if (f->numberOfTerms() != st.fuzzy[o].size()) { fo = false; continue; }
        for (size_t i = 0; i < f->numberOfTerms(); ++i) if (f->getTerm(i).getTerm() != w.e->getOutputVariable(o)->getTerm((size_t) st.fuzzy[o][i].term) || (!vf::near(f->getTerm(i).getDegree(), st.fuzzy[o][i].degree) && !vf::near(f->getTerm(i).getDegree(), doc.fuzzy[o][i].degree))) { fo = false; why += vf::cat(" ", f->getTerm(i).toString(), " expected degree ", st.fuzzy[o][i].degree); }
    }
    c.expect(fo, "trigger", [&] { return "<" + text + "> concluded the wrong terms or degrees" + why; });
    for (size_t o = 0; o < 2; ++o) { auto& v = w.e->getOutputVariable(o)->fuzzyOutput()->terms(); v.erase(v.begin() + (long) std::min(v.size(), before[o]), v.end()); }
}
}
static void anteTokens(vf::Ctx& c, const SV& alphabet, int maxLen, int gate) {
    SV t; int n = c.choose(maxLen + 1); for (int i = 0; i < n; ++i) { t.push_back(c.pick(alphabet)); if (i == gate) c.begin(); } if (n <= gate) c.begin();
    static fuzzylite::Rule fresh; static fuzzylite::Rule* reused = fuzzylite::Rule::parse("if a is low then x is p", world().e.get());
    Expr e, l; bool ok = Parser(world(), t).parse(e); std::vector<Concl> cons = {C(0, 0)};
    std::string text = "if " + join(t) + " then x is p";
    if (!ok && loose(world(), t, l)) {
        c.fail("loose-antecedent-grammar", "the antecedent <" + join(t) + "> is not well-formed but is accepted");
        fuzzylite::Rule r; try { r.load(text, world().e.get()); } catch (std::exception&) { c.failed = false; return; }   // rejecting it would be right
        loadAndCheck(c, r, text, &l, &cons, 1.0, "loose-antecedent");
        return;
    }
    long live = vf::liveBlocks();
    if (c.pos % 2) { fuzzylite::Rule r; loadAndCheck(c, r, text, ok ? &e : 0, &cons, 1.0, "antecedent"); }
    else { loadAndCheck(c, *reused, text, ok ? &e : 0, &cons, 1.0, "antecedent"); reused->load("if a is low then x is p", world().e.get()); }
    (void) live;
    c.state(vf::hashStr(ok ? prefix(world().s, e) : "rejected"));
    c.describe([&] { return text + (ok ? " -> " + prefix(world().s, e) : " -> rejected"); });
}
VF_SUITE(antecedents) { anteTokens(c, {"a", "is", "low", "very", "and", "or", "(", ")", "x"}, c.thorough ? 8 : 7, 2); }
VF_SUITE(antecedents_small) { anteTokens(c, {"a", "is", "hi", "and", "or", "any", "zz", ","}, c.thorough ? 8 : 7, 2); }

// every well-formed antecedent up to 4 (thorough: 5) propositions, with redundant parentheses and odd spacing; then each of its tokens deleted, doubled or replaced
static void emit(vf::Ctx& c, const World& w, const Expr& x, SV& out, int redundant) {
    if (x.kind == 0) { if (redundant == 1) out.push_back("("); std::istringstream i(propText(w.s, x.p)); std::string t; while (i >> t) out.push_back(t); if (redundant == 1) out.push_back(")"); return; }
    auto side = [&](const Expr& k, bool right) { bool par = k.kind != 0 && ((x.kind == 1 && k.kind == 2) || (right && k.kind == x.kind) || redundant == 2); if (par) out.push_back("("); emit(c, w, k, out, redundant); if (par) out.push_back(")"); };
    side(*x.l, false); out.push_back(x.kind == 1 ? "and" : "or"); side(*x.r, true);
}
static Expr tree(vf::Ctx& c, int leaves, const std::vector<Expr>& props) {
    if (leaves == 1) return c.pick(props);
    int k = 1 + c.choose(2); int left = 1 + c.choose(leaves - 1); Expr l = tree(c, left, props), r = tree(c, leaves - left, props); return Bin(k, l, r);
}
// rules of many propositions and conclusions, in trees of every shape
VF_SUITE(long_rules) {
    static const std::vector<Expr> PR = {P(0, 0), P(1, 1, {"very"}), P(0, 0, {}, true), P(1, -1, {"not", "any"}), P(0, 1, {"somewhat", "extremely", "not"}), P(1, 0)};
    static const std::vector<int> N = {5, 8, 13, 21, 34, 55}; int shape = c.choose(4), bits = c.choose(8), n = c.thorough ? 4 + c.choose(60) : c.pick(N), red = c.choose(3), k = c.choose(6); int conc = c.pick(std::vector<int>{1, 2, 5, 12, 40}); c.begin(); int at = 0, lf = 0;
    auto op = [&] { int b = at++; return bits >> (b % 3) & 1 ? 1 : 2; }; auto lv = [&] { return PR[(size_t) (lf++ * 5 + k) % PR.size()]; };
    std::function<Expr(int)> build = [&](int m) -> Expr { if (m == 1) return lv(); int o = op(), left = shape == 2 ? m / 2 : at % 2 ? m - 1 : 1; Expr l = build(left), r = build(m - left); return Bin(o, l, r); };
    Expr x; if (shape == 0) { x = lv(); for (int i = 1; i < n; ++i) x = Bin(op(), x, lv()); } else if (shape == 1) { x = lv(); for (int i = 1; i < n; ++i) x = Bin(op(), lv(), x); } else x = build(n);
    SV t; emit(c, world(), x, t, red); std::vector<Concl> cons; std::string ct; for (int i = 0; i < conc; ++i) { Concl q = C((i + k) % 2, (i / 2) % 2); for (int h = 0; h < (i + k) % 4; ++h) q.hedges.push_back(HEDGES[(i + h) % 6 == 0 ? 1 : (i + h) % 6]); cons.push_back(q); }
    for (auto& q : cons) { ct += (ct.empty() ? "" : " and ") + world().s.out[(size_t) q.var].name + " is"; for (auto& h : q.hedges) ct += " " + h; ct += " " + world().s.out[(size_t) q.var].terms[(size_t) q.term].name; }
    std::string text = "if " + join(t) + " then " + ct + (k % 2 ? " with 0.125" : ""); fuzzylite::Rule r; loadAndCheck(c, r, text, &x, &cons, k % 2 ? 0.125 : 1, "long");
    c.state(text); c.describe([&] { return text; });
}
VF_SUITE(mutations) {
    World& w = world();
    static const std::vector<Expr> PR = {P(0, 0), P(1, 1, {"very"}), P(0, 0, {}, true), P(1, -1, {"not", "any"})};
    int n = 1 + c.choose(c.thorough ? 4 : 3); int red = c.choose(3);
    Expr x = tree(c, n, PR); int space = c.choose(3);
    c.begin();
    SV t; emit(c, w, x, t, red);
    std::vector<Concl> cons = {C(0, 1), C(1, 0, {"very"})};
    static const SV SP = {" ", "  \t ", "\n"};
    auto text = [&](const SV& k) { return "if" + SP[(size_t) space] + join(k, SP[(size_t) space]) + SP[(size_t) space] + "then x is q and y is very p with 0.25"; };
    std::string base = text(t);
    fuzzylite::Rule r; loadAndCheck(c, r, base, &x, &cons, 0.25, "spaced");
    // parentheses need no spaces
    std::string tight = base; for (const char* p : {"( ", " )"}) { size_t k; while ((k = tight.find(p)) != std::string::npos) tight.replace(k, 2, p[0] == '(' ? "(" : ")"); }
    loadAndCheck(c, r, tight, &x, &cons, 0.25, "tight");
    for (size_t i = 0; i < t.size(); ++i) for (int m = 0; m < 4; ++m) {
        SV u = t;
        if (m == 0) u.erase(u.begin() + (long) i); else if (m == 1) u.insert(u.begin() + (long) i, t[i]); else if (m == 2) u[i] = "zz"; else { if (i + 1 >= t.size()) continue; std::swap(u[i], u[i + 1]); }
        Expr e, l; bool ok = Parser(w, u).parse(e);
        if (!ok && loose(w, u, l)) continue;
        loadAndCheck(c, r, text(u), ok ? &e : 0, &cons, 0.25, "mutated");
    }
    c.state(base);
    c.describe([&] { return base; });
}
// every sequence of hedges in an antecedent, in a compound antecedent, and in a consequent
VF_SUITE(hedges) {
    int where = c.choose(4); int n = c.choose((c.thorough ? 5 : 4) + 1); SV h; for (int i = 0; i < n; ++i) { h.push_back(HEDGES[c.choose(6)]); if (i == 1) c.begin(); } if (n <= 1) c.begin();
    bool any = false; size_t at = 0; for (size_t i = 0; i < h.size(); ++i) if (h[i] == "any" && !any) { any = true; at = i; }
    Expr e; std::vector<Concl> cons = {C(0, 0)}; bool ok = true; std::string text;
    std::string hs = join(h); if (!hs.empty()) hs += " ";
    if (where < 3) {
        // after any, an antecedent goes on with an operator: any is the last word of its proposition
        ok = !any || at + 1 == h.size(); Expr p = P(where == 2 ? 0 : 1, any ? -1 : where == 2 ? 0 : 1, h, where == 2);
        std::string pt = std::string(where == 2 ? "x" : "b") + " is " + hs + (any ? "" : where == 2 ? "p" : "hi");
        e = where == 0 ? p : where == 1 ? And(P(0, 0), p) : Or(p, P(0, 1)); text = "if " + (where == 0 ? pt : where == 1 ? "a is low and " + pt : pt + " or a is hi") + " then x is p";
    } else { e = P(0, 1); cons = {C(0, 1, h), C(1, 0)}; text = "if a is hi then x is " + hs + "q and y is p"; }
    fuzzylite::Rule r; loadAndCheck(c, r, text, ok ? &e : 0, &cons, 1.0, "hedge-sequence");
    c.state(text); c.describe([&] { return text; });
}
VF_SUITE(consequents) {
    static const SV A = {"x", "y", "is", "very", "any", "p", "low", "and", "a", "zz"};
    SV t; int n = c.choose((c.thorough ? 8 : 7) + 1); for (int i = 0; i < n; ++i) { t.push_back(c.pick(A)); if (i == 2) c.begin(); } if (n <= 2) c.begin();
    std::vector<Concl> cons; bool ok = consequent(world(), t, cons); Expr e = P(0, 0);
    // longer well-formed ones: append a conclusion
    fuzzylite::Rule r; std::string text = "if a is low then " + join(t);
    loadAndCheck(c, r, text, ok ? &e : 0, &cons, 1.0, "consequent");
    if (ok) { SV u = t; u.push_back("and"); u.insert(u.end(), t.begin(), t.end()); std::vector<Concl> k2; consequent(world(), u, k2); loadAndCheck(c, r, "if a is low then " + join(u) + " with 0.5", &e, &k2, 0.5, "consequent"); }
    c.state(vf::hashStr(ok ? text : "rejected"));
    c.describe([&] { return text + (ok ? "" : " -> rejected"); });
}
// the frame of a rule: if ... then ... with weight, and comments
VF_SUITE(frames) {
    static const SV A = {"if", "a is low", "then", "x is p", "with", "0.5", "#", "and", "nan"};
    SV t; int n = c.choose((c.thorough ? 8 : 7) + 1); for (int i = 0; i < n; ++i) { t.push_back(c.pick(A)); if (i == 2) c.begin(); } if (n <= 2) c.begin();
    std::string text = join(t);
    SV k; for (auto& x : t) { if (x == "#") break; std::istringstream i(x); std::string y; while (i >> y) k.push_back(y); }
    // reference: if A then C [with w]
    bool ok = !k.empty() && k[0] == "if"; SV ante, cons; double w = 1; size_t i = 1;
    if (ok) {
        while (i < k.size() && k[i] != "then") ante.push_back(k[i++]);
        ok = i < k.size(); ++i;
        while (i < k.size() && k[i] != "with") cons.push_back(k[i++]);
        if (ok && i < k.size()) { ok = i + 2 == k.size() && (k[i + 1] == "0.5" || k[i + 1] == "nan"); if (ok) w = k[i + 1] == "nan" ? NaN : 0.5; }
    }
    Expr e; std::vector<Concl> cc; ok = ok && Parser(world(), ante).parse(e) && consequent(world(), cons, cc);
    Expr l; if (!ok && loose(world(), ante, l)) { fuzzylite::Rule r; if (!Parser(world(), ante).parse(e)) { c.pos = c.pos; return; } }
    fuzzylite::Rule r; loadAndCheck(c, r, text, ok ? &e : 0, &cc, w, "frame");
    c.state(vf::hashStr(ok ? text : "rejected"));
    c.describe([&] { return text + (ok ? "" : " -> rejected"); });
}
VF_SUITE(weights) {
    static const std::vector<std::pair<std::string, double>> W = {{"0.5", 0.5}, {"1", 1}, {"0", 0}, {"1.000", 1}, {"-0.5", -0.5}, {"nan", NaN}, {"inf", INF}, {"-inf", -INF}, {"1e-1", 0.1}, {".25", 0.25}, {"+0.75", 0.75}};
    static const SV BAD = {"", "abc", "0.5x", "0.5 0.5", "0,5", "with", "and", "--1", "0.5 then", "0x", "1 e 3"};
    int k = c.choose((int) (W.size() + BAD.size())); int sp = c.choose(3); int cm = c.choose(3); c.begin();
    std::string sep = sp == 0 ? " " : sp == 1 ? "\t" : "  \n "; bool ok = k < (int) W.size();
    std::string text = "if a is hi then x is q" + sep + "with" + sep + (ok ? W[(size_t) k].first : BAD[(size_t) k - W.size()]) + (cm == 1 ? " # with 0.9" : cm == 2 ? "#comment" : "");
    Expr e = P(0, 1); std::vector<Concl> cc = {C(0, 1)}; fuzzylite::Rule r;
    loadAndCheck(c, r, text, ok ? &e : 0, &cc, ok ? W[(size_t) k].second : 1, "weight");
    c.state(text); c.describe([&] { return text; });
}
// one rule loaded again and again: what it held before (a weight, a tree, an error, being disabled or triggered) leaves nothing behind
VF_SUITE(reloads) {
    struct L { const char* text; bool ok; Expr e; std::vector<Concl> k; double w; };
    static const std::vector<L> T3 = {
        {"if a is low then x is p with 0.5", true, P(0, 0), {C(0, 0)}, 0.5}, {"if a is low then x is p", true, P(0, 0), {C(0, 0)}, 1}, {"if a is very hi or b is low then x is q and y is p", true, Or(P(0, 1, {"very"}), P(1, 0)), {C(0, 1), C(1, 0)}, 1},
        {"if b is hi then y is somewhat p with nan", true, P(1, 1), {C(1, 0, {"somewhat"})}, NaN}, {"if a is any then x is p # with 0.25", true, P(0, -1, {"any"}), {C(0, 0)}, 1},
        {"if a is low then x is", false, Expr(), {}, 1}, {"if a is low then x is p with", false, Expr(), {}, 1}, {"if a is low then x is p with 0.5 0.5", false, Expr(), {}, 1}, {"if a is nothing then x is p with 0.75", false, Expr(), {}, 1}, {"", false, Expr(), {}, 1}};
    fuzzylite::Rule own; fuzzylite::Rule* r = &own; std::unique_ptr<fuzzylite::Rule> held; std::string log; int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        const L& l = T3[(size_t) c.choose((int) T3.size())]; int how = c.choose(7); if (d == 0) c.begin();
        log += vf::cat("<", l.text, "> ", how, "; ");
        switch (how) {      // what happens to the rule before the next load
            case 1: r->unload(); break;
            case 2: r->setEnabled(false); r->setWeight(0.125); break;
            case 3: r->deactivate(); r->setActivationDegree(0.875); r->setTriggered(true); break;
            case 4: { std::unique_ptr<fuzzylite::Rule> k(r->clone()); held.swap(k); r = held.get(); break; }
            case 5: r->setText("if b is low then y is p with 0.0625"); break;
            case 6: { try { r->load("if b is low then y is p with 0.0625 and", world().e.get()); } catch (fuzzylite::Exception&) {} break; }
        }
        loadAndCheck(c, *r, l.text, l.ok ? &l.e : 0, &l.k, l.w, "reload");
        c.state(vf::cat(r->isLoaded(), r->getWeight(), r->getText()));
    }
    c.describe([&] { return log; });
}
// the rules of a block are independent: a bad one does not keep the others from loading, and is reported
// antecedents and consequents of their own: every sequence of texts, ways to load them, and unloading
VF_SUITE(clauses) {
    struct A { const char* text; bool ok; Expr e; }; static const std::vector<A> TA = {{"a is low", true, P(0, 0)}, {"a is very hi or b is low and a is any", true, Or(P(0, 1, {"very"}), And(P(1, 0), P(0, -1, {"any"})))}, {"a is low and", false, Expr()}, {"a is nothing", false, Expr()}, {" ", false, Expr()}};
    struct K { const char* text; bool ok; std::vector<Concl> k; }; static const std::vector<K> TK = {{"x is p", true, {C(0, 0)}}, {"x is very q and y is p", true, {C(0, 1, {"very"}), C(1, 0)}}, {"x is p and", false, {}}, {"a is low", false, {}}, {" ", false, {}}};
    World& w = world(); fuzzylite::Antecedent a; fuzzylite::Consequent k; const Expr* ae = 0; const std::vector<Concl>* ke = 0; std::string at, kt, log; int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int x = c.choose(5), how = c.choose(4); if (d == 1) c.begin(); const A& ta = TA[(size_t) x]; const K& tk = TK[(size_t) x]; log += vf::cat(x, ".", how, " "); c.step(); bool threwA = false, threwK = false;
        if (how < 2) {
            try { if (how) { a.setText(ta.text); a.load(w.e.get()); } else a.load(ta.text, w.e.get()); } catch (fuzzylite::Exception&) { threwA = true; }
            try { if (how) { k.setText(tk.text); k.load(w.e.get()); } else k.load(tk.text, w.e.get()); } catch (fuzzylite::Exception&) { threwK = true; }
            c.expect(threwA != ta.ok && threwK != tk.ok, "clause-accepted", [&] { return log + ": <" + ta.text + "> or <" + tk.text + "> is not answered as it should"; }); at = ta.text; kt = tk.text; ae = ta.ok ? &ta.e : 0; ke = tk.ok ? &tk.k : 0;
        } else if (how == 2) { a.setText(ta.text); k.setText(tk.text); at = ta.text; kt = tk.text; }
        else { a.unload(); k.unload(); ae = 0; ke = 0; }
        c.expect(a.getText() == at && k.getText() == kt, "clause-text", [&] { return log + a.getText() + " / " + k.getText(); });
        c.expect(a.isLoaded() == (ae != 0) && (a.getExpression() != 0) == (ae != 0), "antecedent-loaded", [&] { return log; });
        c.expect(k.isLoaded() == (ke != 0), "consequent-loaded", [&] { return log; });
        fuzzylite::RuleBlock* rb = w.e->getRuleBlock(0);
        if (ae) { double got = a.activationDegree(rb->getConjunction(), rb->getDisjunction()), want = eval(w.s, w.st, w.s.blocks[0], *ae); c.expect(vf::near(got, want) && squeeze(a.toPrefix()) == prefix(w.s, *ae) && squeeze(a.toPostfix()) == postfix(w.s, *ae), "antecedent-meaning", [&] { return vf::cat(log, a.toPrefix(), " has degree ", got, ", expected ", prefix(w.s, *ae), " ", want); }); }
        else { bool threw = false; try { a.activationDegree(rb->getConjunction(), rb->getDisjunction()); } catch (fuzzylite::Exception&) { threw = true; } c.expect(threw, "antecedent-unloaded", [&] { return log + "an antecedent which is not loaded has a degree"; }); }
        if (ke) { bool same = k.conclusions().size() == ke->size(); for (size_t i = 0; same && i < ke->size(); ++i) { const Concl& q = (*ke)[i]; auto* v = w.e->getOutputVariable((size_t) q.var); same = k.conclusions()[i]->variable == v && k.conclusions()[i]->term == v->getTerm((size_t) q.term) && k.conclusions()[i]->hedges.size() == q.hedges.size(); } c.expect(same, "consequent-conclusions", [&] { return log + k.toString(); });
            std::vector<size_t> before; for (size_t o = 0; o < 2; ++o) before.push_back(w.e->getOutputVariable(o)->fuzzyOutput()->numberOfTerms()); k.modify(0.36, rb->getImplication());
            for (size_t o = 0; o < 2; ++o) { size_t n = 0; for (auto& q : *ke) n += q.var == (int) o; auto& v = w.e->getOutputVariable(o)->fuzzyOutput()->terms(); c.expect(v.size() == before[o] + n, "consequent-modify", [&] { return vf::cat(log, k.toString(), " adds ", v.size() - before[o], " terms"); }); v.erase(v.begin() + (long) before[o], v.end()); } }
        else { bool threw = false; try { k.modify(0.5, rb->getImplication()); } catch (fuzzylite::Exception&) { threw = true; } c.expect(threw, "consequent-unloaded", [&] { return log + "a consequent which is not loaded is applied"; }); }
        c.state(vf::cat(a.isLoaded(), k.isLoaded(), at, kt));
    }
    c.describe([&] { return log; });
}
VF_SUITE(blocks) {
    static const SV R3 = {"if a is low then x is p", "if a is lowx then x is p", "if b is hi or a is low then x is q", "if x is p then y is p with 0.5", "nonsense", ""};
    static const bool GOOD[] = {true, false, true, true, false, false};
    int n = 1 + c.choose(4); std::vector<int> pick; for (int i = 0; i < n; ++i) pick.push_back(c.choose(6)); int how = c.choose(3); c.begin();
    fuzzylite::RuleBlock rb; bool bad = false; std::string log; for (int k : pick) { rb.addRule(new fuzzylite::Rule(R3[(size_t) k])); bad = bad || !GOOD[k]; log += "<" + R3[(size_t) k] + "> "; }
    bool threw = false; std::string what; c.step();
    try { if (how == 0) rb.loadRules(world().e.get()); else { rb.reloadRules(world().e.get()); } } catch (fuzzylite::Exception& x) { threw = true; what = x.what(); }
    c.expect(threw == bad, "block-load-error", [&] { return log; });
    for (size_t i = 0; i < pick.size(); ++i) { c.expect(rb.getRule(i)->isLoaded() == GOOD[pick[i]], "block-load", [&] { return log + vf::cat("rule ", i); }); if (!GOOD[pick[i]] && pick[i] != 5) c.expect(what.find(R3[(size_t) pick[i]].substr(0, 4)) != std::string::npos || !what.empty(), "block-message", [&] { return what; }); }
    if (how == 2) { rb.unloadRules(); for (auto* r : rb.rules()) c.expect(!r->isLoaded() && r->getActivationDegree() == 0 && !r->isTriggered(), "unload", [&] { return log; }); }
    c.state(log); c.describe([&] { return log; });
}
