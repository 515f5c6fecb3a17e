// C01: processing an engine computes the documented inference.
#include "common.h"
using namespace ref;
static const std::vector<ref::Term> AB = {T("Ramp", "low", {1, 0}), T("Triangle", "mid", {0, 0.5, 1}), T("Ramp", "high", {0, 1})};
static const std::vector<ref::Term> OUT = {T("Triangle", "small", {0, 0.25, 0.5}), T("Trapezoid", "medium", {0.2, 0.4, 0.6, 0.9}), T("Ramp", "large", {0.5, 1.0})};
static const DV GRID = {0, 0.2, 0.45, 0.5, 0.8, 1};

static ref::Engine base() {
    ref::Engine e; e.name = "m";
    e.in = {inVar("a", 0, 1, AB), inVar("b", 0, 1, AB)};
    e.out = {outVar("x", 0, 1, OUT), outVar("y", -1, 1, OUT, "AlgebraicSum", "Bisector", 40)};
    ref::Block b; b.name = "rb"; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "Minimum";
    e.blocks = {b};
    return e;
}
// runs the engine on every input of the grid, compares all that a user can observe
static void runGrid(vf::Ctx& c, const ref::Engine& s, const DV& ga, const DV& gb, const char* key) {
    Guard e(bld::engine(s));
    c.describe([&] { return bld::describe(e.e); });
    ref::State st = initial(s), doc = st; bool relevant = leakRelevant(s);
    for (size_t i = 0; i < ga.size(); ++i) for (size_t j = 0; j < gb.size(); ++j) {
        double v[2] = {ga[i], gb[j]};
        for (size_t k = 0; k < s.in.size() && k < 2; ++k) { setInput(s, st, k, v[k]); setInput(s, doc, k, v[k]); e->getInputVariable(k)->setValue(v[k]); }
        e->process(); c.step();
        process(s, st);
        std::string d = st.ambiguous ? "" : compareState(e.e, s, st, c);
        if (relevant) {
            hedgesLeak() = false; process(s, doc); hedgesLeak() = true;
            std::string dd = doc.ambiguous ? "" : compareState(e.e, s, doc, c);
            // as documented: fine.  As the library is known to do: the known finding.  Anything else: a violation.
            if (!dd.empty() && d.empty()) c.fail("hedges-leak-into-later-conclusions", vf::cat("inputs (", v[0], ", ", v[1], "): ", dd, "\n", e->toString()));
            if (dd.empty()) d = "";
        }
        if (!d.empty()) { c.fail(key, vf::cat("inputs (", v[0], ", ", v[1], "): ", d, "\n", e->toString())); return; }
        uint64_t h = 7; for (size_t o = 0; o < s.out.size(); ++o) h = vf::mix(h, (uint64_t) std::llround(std::min(1e6, std::max(-1e6, nan_(st.out[o]) ? 12345.678 : st.out[o])) * 1e9));
        c.state(h);
    }
}

VF_SUITE(operators) {   // every combination of conjunction, disjunction, implication, aggregation and integral defuzzifier
    ref::Engine e = base();
    ref::Block& b = e.blocks[0];
    b.conj = c.pick(NAMES(TNORMS)); b.disj = c.pick(NAMES(SNORMS)); b.impl = c.pick(NAMES(TNORMS));
    e.out[0].aggregation = c.pick(NAMES(SNORMS)); e.out[0].defuzz = DEFUZZIFIERS[c.choose(5)];
    c.begin();
    e.out.resize(1); e.out[0].res = 25;
    b.rules = {R(And(P(0, 0), P(1, 0)), {C(0, 0)}), R(Or(P(0, 1), And(P(1, 2), P(0, 2, {"very"}))), {C(0, 1)}, 0.75), R(Or(P(0, 2), P(1, 1)), {C(0, 2), C(0, 0, {"somewhat"})})};
    runGrid(c, e, c.thorough ? GRID : DV{0.2, 0.8, 1}, c.thorough ? GRID : DV{0, 0.45, 0.8}, "operators");
}

VF_SUITE(terms) {   // every term class as input and as output term, every integral defuzzifier
    std::vector<ref::Term> zoo = termZoo();
    ref::Term ti = c.pick(zoo), to = c.pick(zoo); ti.name = "ti"; to.name = "to"; 
    std::string d = DEFUZZIFIERS[c.choose(5)];
    int hs = c.choose(3); ti.h = hs == 1 ? 0.5 : 1.0; to.h = hs == 2 ? 0.5 : 1.0;
    c.begin();
    ref::Engine e; e.name = "t"; e.in = {inVar("a", 0, 1, {ti})}; e.out = {outVar("x", 0, 1, {to}, "Maximum", d, 40)};
    ref::Block b; b.name = "rb"; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "AlgebraicProduct"; b.rules = {R(P(0, 0), {C(0, 0)})}; e.blocks = {b};
    runGrid(c, e, {-0.5, 0, 0.1, 0.25, 0.5, 0.62, 0.9, 1, 1.5, NaN, INF, -INF}, {0}, "terms");
}

static SV hedgeSeq(vf::Ctx& c, int maxLen) { SV h; int n = c.choose(maxLen + 1); for (int i = 0; i < n; ++i) h.push_back(HEDGES[c.choose(6)]); return h; }

// hedges followed by a term; "any" cannot be followed by a hedge or a term in an antecedent
static bool okAnte(const SV& h) { for (size_t i = 0; i + 1 < h.size(); ++i) if (h[i] == "any") return false; return true; }

VF_SUITE(hedges) {   // every sequence of hedges up to three, in antecedents and in consequents
    bool cons = c.flip(); int two = c.choose(3);
    SV h = hedgeSeq(c, c.thorough ? 5 : 4);
    c.begin();
    ref::Engine e = base(); ref::Block& b = e.blocks[0];
    if (cons) {
        if (two == 0) b.rules = {R(P(0, 2), {C(0, 0, h)})};
        else if (two == 1) b.rules = {R(P(0, 2), {C(0, 0, h), C(1, 1)})};            // a later conclusion without hedges
        else b.rules = {R(P(0, 2), {C(0, 0), C(1, 1, h), C(0, 2, {"very"}), C(1, 0, h)})};
    } else {
        if (!okAnte(h)) c.prune();
        bool any = !h.empty() && h.back() == "any";
        Expr p = P(0, any ? -1 : 2, h);
        b.rules = {R(two == 0 ? p : two == 1 ? And(P(1, 0), p) : Or(p, P(1, 0, {"not"})), {C(0, 0), C(1, 1)})};
    }
    runGrid(c, e, {0, 0.2, 0.45, 0.5, 0.8, 1, NaN}, {0.3}, "hedges");
}

static Expr tree(vf::Ctx& c, int leaves, const std::vector<Expr>& props) {
    if (leaves == 1) return c.pick(props);
    int k = 1 + c.choose(2); int left = 1 + c.choose(leaves - 1);
    Expr l = tree(c, left, props), r = tree(c, leaves - left, props);
    return Bin(k, l, r);
}
VF_SUITE(antecedents) {   // every antecedent with up to four propositions: all shapes, both connectives, parentheses where needed
    std::vector<Expr> props = {P(0, 0), P(1, 2), P(0, 1, {"not"})};
    if (c.thorough) props.push_back(P(1, 1, {"very", "somewhat"}));
    int n = 1 + c.choose(4);
    int ops = c.choose(3);
    Expr x = tree(c, n, props);
    c.begin();
    ref::Engine e = base(); ref::Block& b = e.blocks[0];
    b.conj = ops == 0 ? "Minimum" : ops == 1 ? "AlgebraicProduct" : "BoundedDifference"; b.disj = ops == 0 ? "Maximum" : ops == 1 ? "AlgebraicSum" : "BoundedSum";
    e.out.resize(1); b.rules = {R(x, {C(0, 1)}, 0.5)};
    runGrid(c, e, {0.2, 0.7}, {0.1, 0.6}, "antecedents");
}

VF_SUITE(structure) {   // enabled flags of rules, blocks and variables; several blocks; chained rules; weights
    ref::Engine e = base();
    e.blocks.push_back(e.blocks[0]); e.blocks[1].name = "second"; e.blocks[1].conj = "AlgebraicProduct"; e.blocks[1].impl = "AlgebraicProduct";
    static const DV W = {1.0, 0.5, 0.0};
    e.in[0].enabled = !c.flip(); e.in[1].enabled = !c.flip(); e.out[0].enabled = !c.flip(); e.out[1].enabled = !c.flip();
    e.blocks[0].enabled = !c.flip(); e.blocks[1].enabled = !c.flip();
    double w0 = c.pick(W), w1 = c.pick(W);
    int order = c.choose(4);
    bool r0 = !c.flip(), r1 = !c.flip(), l0 = !c.flip();
    int agg = c.choose(3); int chain = c.choose(5);
    c.begin();
    e.out[0].aggregation = agg == 0 ? "Maximum" : agg == 1 ? "UnboundedSum" : "NormalizedSum";
    ref::Rule A = R(And(P(0, 0), P(1, 2)), {C(0, 0), C(1, 2, {"not"})}, w0); A.enabled = r0;
    ref::Rule B = R(Or(P(0, 2), P(1, 0)), {C(0, 0)}, w1); B.enabled = r1;
    // chained: output variables in the antecedent, alone or combined, with and without hedges
    Expr X = chain == 0 ? And(P(0, 0, {}, true), P(1, 1)) : chain == 1 ? And(P(1, 1), P(0, 0, {"not"}, true)) : chain == 2 ? Or(P(0, 2, {"very", "not"}, true), P(0, 0)) : chain == 3 ? P(0, 0, {"not", "somewhat"}, true) : And(P(0, -1, {"not", "not", "any"}, true), Or(P(1, 2, {"not"}, true), P(1, 1, {"very", "not", "extremely"})));
    ref::Rule D = R(X, {C(1, 0)});
    ref::Rule F = R(P(0, 1, {"somewhat"}), {C(0, 0), C(0, 2)}); F.loaded = l0;
    if (order == 0) { e.blocks[0].rules = {A, B, F}; e.blocks[1].rules = {D}; }
    else if (order == 1) { e.blocks[0].rules = {D, A}; e.blocks[1].rules = {B, F, D}; }
    else if (order == 2) { e.blocks[0].rules = {A, D, B, F}; e.blocks[1].rules = {A, D}; }
    else { e.blocks[0].rules = {F}; e.blocks[1].rules = {F, A, D, B}; }
    runGrid(c, e, {0.2, 0.7, NaN}, {0.1, 0.6}, "structure");
}

VF_SUITE(activations) {   // every activation method between evaluation and implication, with ties avoided by the reference model
    ref::Engine e = base();
    e.blocks[0].act = c.pick(NAMES(ACTIVATIONS)); e.blocks[0].n = c.choose(4); e.blocks[0].thr = c.pick(DV{0, 0.25, 0.5});
    static const SV CMP = {"<", "<=", "==", "!=", ">=", ">"};
    e.blocks[0].cmp = e.blocks[0].act == "Threshold" ? c.pick(CMP) : ">=";
    int dis = c.choose(5);
    int d = c.choose(3);
    c.begin();
    e.out[0].defuzz = d == 0 ? "Centroid" : d == 1 ? "MeanOfMaximum" : "LargestOfMaximum";
    e.blocks[0].rules = {R(P(0, 0), {C(0, 0)}, 0.9), R(P(1, 2), {C(0, 1), C(1, 0)}), R(And(P(0, 2), P(1, 0)), {C(0, 2)}), R(Or(P(0, 1), P(0, 0, {}, true)), {C(1, 2)}, 0.6)};
    if (dis < 4) e.blocks[0].rules[(size_t) dis].enabled = false;
    runGrid(c, e, {0, 0.2, 0.5, 0.7}, {0.1, 0.4, 0.75, 1}, "activations");
}

VF_SUITE(linears) {   // Takagi-Sugeno terms with every number of coefficients: fewer and more than there are inputs, which are changed between evaluations
    int ni = 1 + c.choose(3), nc = c.choose(7), nd = c.choose(7), sum = c.choose(2), type = c.choose(2); c.begin();
    ref::Engine e; e.name = "linears"; DV p, q; for (int i = 0; i < nc; ++i) p.push_back(i % 2 ? -1.5 * i : 0.5 + i); for (int i = 0; i < nd; ++i) q.push_back(i % 3 ? 0.25 * i : -3 - i);
    for (int i = 0; i < ni; ++i) e.in.push_back(inVar(vf::cat("in", i), 0, 1, {T("Ramp", "low", {1, 0}), T("Ramp", "high", {0, 1})}));
    e.out = {outVar("x", -100, 100, {T("Linear", "l", p), T("Linear", "m", q), T("Constant", "k", {2})}, sum ? "" : "Maximum", sum ? "WeightedSum" : "WeightedAverage")}; if (type) e.out[0].wtype = "TakagiSugeno";
    ref::Block b; b.name = "b"; b.conj = "Minimum"; b.disj = "Maximum"; b.act = "General"; b.rules = {R(P(0, 0), {C(0, 0)}), R(P(ni - 1, 1), {C(0, 1)}, 0.75), R(P(0, 1), {C(0, 2)}, 0.5)}; e.blocks = {b};
    Guard g(bld::engine(e)); ref::State st = initial(e); int n = 1; for (int i = 0; i < ni; ++i) n *= 3;
    for (int k = 0; k < n; ++k) {
        int r = k; for (int i = 0; i < ni; ++i, r /= 3) { double v = 0.1 + 0.35 * (r % 3) + 0.01 * i; setInput(e, st, (size_t) i, v); g.e->getInputVariable((size_t) i)->setValue(v); }
        g.e->process(); process(e, st); c.step(); double got = g.e->getOutputVariable((size_t) 0)->getValue(); c.expect(vf::near(got, st.out[0]), "linears", [&] { return vf::cat(ni, " inputs, ", nc, " and ", nd, " coefficients, row ", k, ": ", got, " for ", st.out[0]); }); c.state(vf::cat(ni, nc, nd, sum, k));
    }
}
// many parts of each kind
VF_SUITE(sizes) { int dim = c.choose(7), n = 5 + c.choose(c.thorough ? 60 : 24); c.begin(); runGrid(c, sized(dim, n), {0.2, 0.8, 1}, {0, 0.45, 0.8}, "sizes"); }
