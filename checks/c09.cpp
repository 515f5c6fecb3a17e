// C09: norms and hedges compute their documented functions and obey the laws of their kind.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
static const double EPSZ[] = {1e-9, 4e-7, 2e-6, 1e-3};
static DV grid(bool thorough) {
    int n = thorough ? 64 : 20; DV g; for (int i = 0; i <= n; ++i) g.push_back((double) i / n);
    for (double d : EPSZ) { g.push_back(d); g.push_back(1 - d); g.push_back(0.5 - d); g.push_back(0.5 + d); } g.push_back(1.0 / 3); g.push_back(0.7777); std::sort(g.begin(), g.end()); return g;
}
VF_SUITE(norms) {     // values, commutativity, identity, bounds, monotonicity on all pairs; associativity on all triples
    bool t = c.flip(); std::string n = t ? c.pick(NAMES(TNORMS)) : c.pick(NAMES(SNORMS)); DV g = grid(c.thorough); double a = c.pick(g); c.begin(); double b = c.pick(g);
    std::unique_ptr<F::Norm> k(t ? (F::Norm*) F::FactoryManager::instance()->tnorm()->constructObject(n) : (F::Norm*) F::FactoryManager::instance()->snorm()->constructObject(n));
    c.describe([&] { return vf::cat(n, "(", a, ", ", b, ")"); });
    double v = k->compute(a, b), w = t ? tnorm(n, a, b) : snorm(n, a, b); c.step();
    c.expect(k->className() == n, "norm-name", [&] { return n + " calls itself " + k->className(); });
    c.expect(vf::near(v, w), "norm-value", [&] { return vf::cat(n, "(", a, ", ", b, ") is ", v, ", expected ", w); });
    c.expect(vf::near(v, k->compute(b, a)), "commutative", [&] { return vf::cat(n, " is not commutative at ", a, ", ", b); });
    c.state(vf::hashBytes(&v, sizeof v));
    std::unique_ptr<F::Norm> cl(t ? (F::Norm*) static_cast<F::TNorm*>(k.get())->clone() : (F::Norm*) static_cast<F::SNorm*>(k.get())->clone());
    c.expect(cl->className() == n && vf::near(cl->compute(a, b), v), "norm-clone", [&] { return n + " differs from its clone"; });
    if (b == 0.0) { double e = k->compute(a, t ? 1.0 : 0.0); c.expect(vf::near(e, a, 2e-6), "identity", [&] { return vf::cat(n, " with the identity element maps ", a, " to ", e); }); double z = k->compute(a, t ? 0.0 : 1.0); if (n != "UnboundedSum") c.expect(vf::near(z, t ? 0.0 : 1.0), "annihilator", [&] { return vf::cat(n, " does not absorb at ", a, ": ", z); }); }
    if (n != "UnboundedSum") c.expect(t ? v <= std::min(a, b) + 1e-9 && v >= -1e-12 : v >= std::max(a, b) - 1e-6 && v <= 1 + 1e-9, "norm-bounds", [&] { return vf::cat(n, "(", a, ", ", b, ") = ", v, " is outside its bounds"); });
    for (size_t i = 0; i < g.size(); ++i) {
        double d = g[i]; c.step(); if (d > b) c.expect(k->compute(a, d) >= v - 3e-6, "monotone", [&] { return vf::cat(n, " decreases from (", a, ", ", b, ") to (", a, ", ", d, ")"); });
        // the documented tolerance of comparisons makes the nilpotent and drastic norms jump 1e-6 off their boundary: skip triples there
        auto jump = [&](double x, double y) { return (n[0] == 'D' && (std::min(x, y) < 1e-5 || std::max(x, y) > 1 - 1e-5)) || (n[0] == 'N' && std::fabs(x + y - 1) < 1e-5) || (n[0] == 'H' && (std::max(x, y) < 1e-5 || std::min(x, y) > 1 - 1e-5)); };
        double ab = v, bd = k->compute(b, d); if (jump(a, b) || jump(b, d) || jump(ab, d) || jump(a, bd)) continue;
        double l = k->compute(ab, d), r = k->compute(a, bd); c.expect(vf::near(l, r, 1e-8), "associative", [&] { return vf::cat(n, " is not associative at ", a, ", ", b, ", ", d, ": ", l, " and ", r); });
    }
}
VF_SUITE(norm_functions) {     // norms given by a formula, set, changed, copied
    bool t = c.flip(); const char* FO[] = {"a*b", "a+b-a*b", "min(a,b)", "pow(a, b)", "a"}; int f1 = c.choose(5), f2 = c.choose(5); const double V[] = {0, 0.25, 0.5, 1, NaN, 3}; double a = c.pick(V), b = c.pick(V); int way = c.choose(4); c.begin();
    auto val = [&](int f, double x, double y) { return f == 0 ? x * y : f == 1 ? x + y - x * y : f == 2 ? mn(x, y) : f == 3 ? std::pow(x, y) : x; };
    std::unique_ptr<F::Norm> k; std::string got;
    auto mk = [&](const std::string& s) -> F::Norm* { return t ? (F::Norm*) new F::TNormFunction(s) : (F::Norm*) new F::SNormFunction(s); };
    auto set = [&](F::Norm* n, const std::string& s) { if (t) static_cast<F::TNormFunction*>(n)->setFormula(s); else static_cast<F::SNormFunction*>(n)->setFormula(s); };
    auto dup = [&](F::Norm* n) -> F::Norm* { return t ? (F::Norm*) static_cast<F::TNormFunction*>(n)->clone() : (F::Norm*) static_cast<F::SNormFunction*>(n)->clone(); };
    k.reset(mk(FO[f1])); int cur = f1; if (way == 1) { set(k.get(), FO[f2]); cur = f2; } else if (way == 2) { std::unique_ptr<F::Norm> d(dup(k.get())); set(k.get(), FO[f2]); k.swap(d); } else if (way == 3) { k->compute(0.1, 0.9); std::unique_ptr<F::Norm> d(dup(k.get())); k.swap(d); set(k.get(), FO[f2]); cur = f2; }
    got = t ? static_cast<F::TNormFunction*>(k.get())->getFormula() : static_cast<F::SNormFunction*>(k.get())->getFormula(); c.step();
    double v = k->compute(a, b); c.expect(vf::near(v, val(cur, a, b)) && got == FO[cur], "norm-function", [&] { return vf::cat("the norm <", got, "> of ", a, ", ", b, " is ", v, ", expected ", val(cur, a, b)); });
    c.state(vf::hashBytes(&v, sizeof v));
}
VF_SUITE(hedges) {
    std::string n = c.pick(NAMES(HEDGES)); DV g = grid(true); double x = c.pick(g); c.begin(); std::unique_ptr<F::Hedge> h(F::FactoryManager::instance()->hedge()->constructObject(n)); double v = h->hedge(x), w = hedge(n, x); c.step();
    c.describe([&] { return vf::cat(n, " ", x); });
    c.expect(h->name() == n && vf::near(v, w, 1e-9), "hedge-value", [&] { return vf::cat(h->name(), " of ", x, " is ", v, ", expected ", w); });
    c.expect(v >= -1e-12 && v <= 1 + 1e-12, "hedge-bounds", [&] { return vf::cat(n, " of ", x, " is ", v); });
    std::unique_ptr<F::Hedge> k(h->clone()); c.expect(k->name() == n && vf::near(k->hedge(x), v), "hedge-clone", [&] { return n + " differs from its clone"; });
    if (n != "any") for (double y : g) if (y > x) c.expect(n == "not" ? h->hedge(y) <= v + 1e-12 : h->hedge(y) >= v - 1e-6, "hedge-monotone", [&] { return vf::cat(n, " is not monotone between ", x, " and ", y); });
    if (n == "very" || n == "extremely") { std::unique_ptr<F::Hedge> i(F::FactoryManager::instance()->hedge()->constructObject(n == "very" ? "somewhat" : "seldom")); c.expect(vf::near(i->hedge(v), x, 2e-6), "hedge-inverse", [&] { return vf::cat(i->name(), " does not undo ", n, " at ", x); }); }
    c.state(vf::hashBytes(&v, sizeof v));
}
VF_SUITE(hedge_functions) {
    const char* FO[] = {"x*x", "1-x", "x^3", "sqrt(x)"}; int f1 = c.choose(4), f2 = c.choose(4), way = c.choose(3); DV g = grid(false); double x = c.pick(g); c.begin();
    auto val = [](int f, double y) { return f == 0 ? y * y : f == 1 ? 1 - y : f == 2 ? y * y * y : std::sqrt(y); };
    F::HedgeFunction h(FO[f1], "mine"); int cur = f1; if (way == 1) { h.setFormula(FO[f2]); cur = f2; } std::unique_ptr<F::Hedge> k(h.clone()); if (way == 2) { h.setFormula(FO[f2]); }
    double v = k->hedge(x); c.step(); c.expect(vf::near(v, val(cur, x)) && k->name() == "mine" && vf::near(h.hedge(x), val(way ? f2 : f1, x)), "hedge-function", [&] { return vf::cat("the hedge function <", FO[cur], "> of ", x, " is ", v); });
}
