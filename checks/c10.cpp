// C10: integral defuzzifiers against the midpoint rule on all membership vectors of a given resolution.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
// a fuzzy set given by its values at the sample points
struct Samples : F::Term {
    DV y; double lo, hi; mutable u_int calls = 0, outside = 0;
    Samples(const DV& v, double l, double h) : F::Term("samples"), y(v), lo(l), hi(h) {}
    std::string className() const { return "Samples"; } std::string parameters() const { return ""; } void configure(const std::string&) {}
    F::scalar membership(F::scalar x) const { ++calls; double i = (x - lo) / (hi - lo) * (double) y.size(); if (!(i >= 0 && i < (double) y.size())) { ++outside; return 0; } return y[(size_t) i]; }
    F::Term* clone() const { return new Samples(*this); }
};
void judge(vf::Ctx& c, const std::string& d, const F::Term* t, const std::function<double(double)>& m, double lo, double hi, int res, const std::string& id) {
    std::unique_ptr<F::Defuzzifier> f(F::FactoryManager::instance()->defuzzifier()->constructObject(d)); static_cast<F::IntegralDefuzzifier*>(f.get())->setResolution(res);
    if (res % 2) { std::unique_ptr<F::Defuzzifier> k(f->clone()); f.swap(k); }
    c.expect(f->className() == d && static_cast<F::IntegralDefuzzifier*>(f.get())->getResolution() == res, "defuzzifier-identity", [&] { return d + " lost its name or resolution"; });
    double g = f->defuzzify(t, lo, hi); Crisp w = defuzzify(d, m, lo, hi, res); c.step();
    c.expect(agrees(w, g), "defuzzified-value", [&] { return vf::cat(d, " of ", id, " over [", lo, ", ", hi, "] in ", res, " is ", g, ", expected ", w.v); });
    if (!nan_(g)) c.expect(g >= lo - 1e-9 * (1 + std::fabs(lo)) && g <= hi + 1e-9 * (1 + std::fabs(hi)), "in-range", [&] { return vf::cat(d, " of ", id, " is ", g, ", outside [", lo, ", ", hi, "]"); });
    c.state(vf::hashBytes(&g, sizeof g));
}
}
VF_SUITE(vectors) {     // all vectors of membership values, all integral defuzzifiers
    SV D = {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}; std::string d = c.pick(D); int n = 1 + c.choose(c.thorough ? 8 : 7); int r = c.choose(3); double lo = r == 0 ? 0 : r == 1 ? -2 : 5, hi = r == 0 ? 1 : r == 1 ? 2 : 5.5; c.begin();
    DV Y = {0, 0.3, 0.5, 1}; if (n < 6) Y.push_back(NaN); else if (n > 6) Y = {0, 0.4, 1}; DV y; for (int i = 0; i < n; ++i) y.push_back(c.pick(Y)); Samples s(y, lo, hi);
    std::string id = "values"; for (double v : y) id += " " + vf::num(v); c.describe([&] { return d + " of " + id; });
    judge(c, d, &s, [&](double x) { return s.membership(x); }, lo, hi, n, id);
    c.expect(s.outside == 0, "sampled-outside", [&] { return d + " evaluates the set outside the range"; });
    // shifting and scaling the range shifts and scales the value
    std::unique_ptr<F::Defuzzifier> f(F::FactoryManager::instance()->defuzzifier()->constructObject(d)); static_cast<F::IntegralDefuzzifier*>(f.get())->setResolution(n); Samples u(y, 0, 1); double a = f->defuzzify(&u, 0, 1), b = f->defuzzify(&s, lo, hi);
    Crisp w = defuzzify(d, [&](double x) { return u.membership(x); }, 0, 1, n); if (!w.loose) c.expect((nan_(a) && nan_(b)) || vf::near(lo + a * (hi - lo), b, 1e-8), "equivariant", [&] { return vf::cat(d, " of ", id, " does not scale with the range"); });
}
VF_SUITE(terms) {     // every term class and pairs of them under every aggregation, several resolutions and ranges
    SV D = {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}; std::string d = c.pick(D); static std::vector<ref::Term> z = termZoo(); size_t a = (size_t) c.choose((int) z.size()); int b = c.choose((int) z.size() + 1); c.begin();
    std::string agg = c.pick(SV{"Maximum", "AlgebraicSum", "UnboundedSum"}), imp = c.pick(SV{"Minimum", "AlgebraicProduct"}); int res = c.pick({1, 2, 7, 100, c.thorough ? 1000 : 33}); double lo = c.pick({0.0, -0.5}), hi = 1.0; double da = c.pick({0.3, 1.0}), db = 0.6;
    ref::Term t1 = z[a], t2 = z[b ? (size_t) b - 1 : 0]; std::unique_ptr<F::Term> p(bld::term(t1)), q(bld::term(t2)); std::unique_ptr<F::TNorm> im(bld::tnorm(imp)); F::Aggregated g("g", lo, hi, bld::snorm(agg)); g.addTerm(p.get(), da, im.get()); if (b) g.addTerm(q.get(), db, im.get());
    judge(c, d, &g, [&](double x) { double m = snorm(agg, 0, tnorm(imp, mu(t1, x), da)); return b ? snorm(agg, m, tnorm(imp, mu(t2, x), db)) : m; }, lo, hi, res, t1.cls + (b ? "+" + t2.cls : ""));
}
VF_SUITE(edges) {     // undefined ranges, empty sets, default resolution, missing operators
    SV D = {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}; std::string d = c.pick(D); const double R[] = {-INF, -1, 0, 1, INF, NaN}; double lo = c.pick(R), hi = c.pick(R); int k = c.choose(4); c.begin(); if (lo > hi) c.prune();
    std::unique_ptr<F::Defuzzifier> f(F::FactoryManager::instance()->defuzzifier()->constructObject(d)); c.step();
    F::Triangle t("t", 0, 0.5, 1); F::Aggregated empty("e", lo, hi, k == 1 ? 0 : new F::Maximum); F::Minimum imp;
    if (k < 2) { double g = f->defuzzify(&empty, lo, hi); bool fin = std::isfinite(lo + hi); bool mom = d != "Bisector" && d != "Centroid"; if (!fin || !mom) c.expect(nan_(g), "empty", [&] { return vf::cat(d, " of the empty set over [", lo, ", ", hi, "] is ", g); }); else c.expect(g >= lo && g <= hi, "empty-range", [&] { return vf::cat(d, " of the empty set over [", lo, ", ", hi, "] is ", g); }); }
    else if (k == 2) { double g = f->defuzzify(&t, lo, hi); if (!std::isfinite(lo + hi)) c.expect(nan_(g), "infinite-range", [&] { return vf::cat(d, " over [", lo, ", ", hi, "] is ", g); }); }
    else { F::Aggregated noAgg("e", lo, hi, 0), noImp("e", lo, hi, new F::Maximum); noAgg.addTerm(&t, 0.5, &imp); noImp.addTerm(&t, 0.5, 0); if (!std::isfinite(lo + hi)) c.prune(); int thrown = 0; for (F::Aggregated* a : {&noAgg, &noImp}) try { f->defuzzify(a, lo, hi); } catch (F::Exception&) { ++thrown; } c.expect(thrown == 2, "missing-operator", [&] { return d + " does not report a missing operator"; }); }
    int before = F::IntegralDefuzzifier::defaultResolution(); F::IntegralDefuzzifier::setDefaultResolution(37); std::unique_ptr<F::Defuzzifier> n(F::FactoryManager::instance()->defuzzifier()->constructObject(d)); int got = static_cast<F::IntegralDefuzzifier*>(n.get())->getResolution(); F::IntegralDefuzzifier::setDefaultResolution(before);
    c.expect(got == 37 && static_cast<F::IntegralDefuzzifier*>(f.get())->getResolution() == before, "default-resolution", [&] { return vf::cat("a new ", d, " has resolution ", got, " when the default is 37"); });
}
