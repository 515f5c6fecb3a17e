// C08: membership functions, their parameters, heights and Tsukamoto inverses.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
struct Cls {
    std::string name; int n; std::vector<DV> grid;                        // values of each parameter
    std::function<bool(const DV&)> ok;                                     // documented parameters
    std::vector<std::function<void(F::Term*, double)>> set; std::vector<std::function<double(const F::Term*)>> get;
};
#define SG(C, M) k.set.push_back([](F::Term* t, double v) { static_cast<F::C*>(t)->set##M(v); }); k.get.push_back([](const F::Term* t) { return static_cast<const F::C*>(t)->get##M(); });
std::vector<Cls> make(bool thorough) {
    std::vector<Cls> r; DV g = {-1, 0, 0.25, 0.5, 2}, gi = {-INF, -1, 0, 0.25, 0.5, 2, INF}, pos = {0.125, 0.5, 1, 3}, sl = {-40, -3, 0, 2, 30};
    if (thorough) { g = {-100, -1, -0.2, 0, 0.25, 0.3, 0.5, 2}; gi = {-INF, -100, -1, 0, 0.25, 0.3, 0.5, 2, INF}; pos = {0.001, 0.125, 0.3, 0.5, 1, 3, 50}; sl = {-1000, -40, -3, -0.1, 0, 0.5, 2, 30}; }
    auto any = [](const DV&) { return true; }; auto inc = [](const DV& p) { return std::is_sorted(p.begin(), p.end()); }; auto inc2 = [](const DV& p) { return p[0] < p[1]; };
    { Cls k{"Bell", 3, {g, pos, {0.5, 1, 3}}, any, {}, {}}; SG(Bell, Center) SG(Bell, Width) SG(Bell, Slope) r.push_back(k); }
    { Cls k{"Binary", 2, {g, {-INF, -1, 0, 0.25, 2, INF}}, any, {}, {}}; SG(Binary, Start) SG(Binary, Direction) r.push_back(k); }
    { Cls k{"Concave", 2, {g, g}, any, {}, {}}; SG(Concave, Inflection) SG(Concave, End) r.push_back(k); }
    { Cls k{"Cosine", 2, {g, pos}, any, {}, {}}; SG(Cosine, Center) SG(Cosine, Width) r.push_back(k); }
    { Cls k{"Gaussian", 2, {g, pos}, any, {}, {}}; SG(Gaussian, Mean) SG(Gaussian, StandardDeviation) r.push_back(k); }
    { Cls k{"GaussianProduct", 4, {g, pos, g, pos}, any, {}, {}}; SG(GaussianProduct, MeanA) SG(GaussianProduct, StandardDeviationA) SG(GaussianProduct, MeanB) SG(GaussianProduct, StandardDeviationB) r.push_back(k); }
    { Cls k{"PiShape", 4, {g, g, g, g}, [](const DV& p) { return std::is_sorted(p.begin(), p.end()); }, {}, {}}; SG(PiShape, BottomLeft) SG(PiShape, TopLeft) SG(PiShape, TopRight) SG(PiShape, BottomRight) r.push_back(k); }
    { Cls k{"Ramp", 2, {g, g}, any, {}, {}}; SG(Ramp, Start) SG(Ramp, End) r.push_back(k); }
    { Cls k{"Rectangle", 2, {gi, gi}, inc, {}, {}}; SG(Rectangle, Start) SG(Rectangle, End) r.push_back(k); }
    { Cls k{"SShape", 2, {g, g}, inc2, {}, {}}; SG(SShape, Start) SG(SShape, End) r.push_back(k); }
    { Cls k{"ZShape", 2, {g, g}, inc2, {}, {}}; SG(ZShape, Start) SG(ZShape, End) r.push_back(k); }
    { Cls k{"Sigmoid", 2, {g, sl}, any, {}, {}}; SG(Sigmoid, Inflection) SG(Sigmoid, Slope) r.push_back(k); }
    { Cls k{"SigmoidDifference", 4, {g, sl, sl, g}, any, {}, {}}; SG(SigmoidDifference, Left) SG(SigmoidDifference, Rising) SG(SigmoidDifference, Falling) SG(SigmoidDifference, Right) r.push_back(k); }
    { Cls k{"SigmoidProduct", 4, {g, sl, sl, g}, any, {}, {}}; SG(SigmoidProduct, Left) SG(SigmoidProduct, Rising) SG(SigmoidProduct, Falling) SG(SigmoidProduct, Right) r.push_back(k); }
    { Cls k{"Spike", 2, {g, pos}, any, {}, {}}; SG(Spike, Center) SG(Spike, Width) r.push_back(k); }
    { Cls k{"Trapezoid", 4, {gi, gi, gi, gi}, [](const DV& p) { return std::is_sorted(p.begin(), p.end()) && p[1] < INF && p[2] > -INF && p[1] > -INF && p[2] < INF; }, {}, {}}; SG(Trapezoid, VertexA) SG(Trapezoid, VertexB) SG(Trapezoid, VertexC) SG(Trapezoid, VertexD) r.push_back(k); }
    { Cls k{"Triangle", 3, {gi, gi, gi}, [](const DV& p) { return std::is_sorted(p.begin(), p.end()) && std::isfinite(p[1]); }, {}, {}}; SG(Triangle, VertexA) SG(Triangle, VertexB) SG(Triangle, VertexC) r.push_back(k); }
    return r;
}
std::string show(const DV& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += (i ? " " : "") + vf::num(p[i]); return s; }
DV points(const DV& p, bool tol = true) {
    std::set<double> s = {-INF, INF, 0.1, 0.37, 0.77, -3, 5}; DV k;
    for (double v : p) if (std::isfinite(v)) { k.push_back(v); s.insert(v); for (double d : {2e-6, 0.01}) { s.insert(v - d); s.insert(v + d); } if (tol) { s.insert(v - 4e-7); s.insert(v + 4e-7); } }
    for (double a : k) for (double b : k) s.insert((a + b) / 2); DV r(s.begin(), s.end()); r.push_back(NaN); return r;
}
std::string F3(double x) { if (nan_(x)) return "nan"; if (std::isinf(x)) return x > 0 ? "inf" : "-inf"; char b[64]; snprintf(b, sizeof b, "%.3f", x); return b; }
// the term in every way it can be obtained
std::vector<std::unique_ptr<F::Term>> ways(const Cls* k, const ref::Term& t) {
    std::vector<std::unique_ptr<F::Term>> w; F::TermFactory* tf = F::FactoryManager::instance()->term();
    w.emplace_back(bld::term(t));
    std::string txt; for (double v : t.p) txt += (txt.empty() ? "" : " ") + F3(v); bool h1 = t.h == 1.0; std::string ht = h1 ? "" : " " + F3(t.h);
    w.emplace_back(tf->constructObject(t.cls)); w.back()->setName(t.name); w.back()->configure(txt + ht);
    w.emplace_back(tf->constructObject(t.cls)); w.back()->setName(t.name); w.back()->setHeight(t.h); if (k) { for (size_t i = t.p.size(); i-- > 0;) k->set[i](w.back().get(), t.p[i]); } else w.back()->configure(txt + ht);
    w.emplace_back(w[0]->clone());
    ref::Term other = t; std::reverse(other.p.begin(), other.p.end()); other.h = 0.7;
    std::unique_ptr<F::Term> o(bld::term(other)); o->configure("  " + txt + (h1 ? "  1.000" : ht) + " "); o->setName(t.name); w.push_back(std::move(o));
    w.emplace_back(tf->constructObject(t.cls)); w.back()->setName(t.name); w.back()->configure(w[0]->parameters());
    return w;
}
void judge(vf::Ctx& c, const Cls* k, const ref::Term& t, const DV& xs) {
    std::string id = t.cls + " " + show(t.p) + " height " + vf::num(t.h); c.describe([&] { return id; });
    auto w = ways(k, t);
    for (size_t i = 0; i < w.size(); ++i) {
        F::Term& f = *w[i]; c.step();
        c.expect(f.className() == t.cls && f.getName() == "t" && vf::near(f.getHeight(), t.h), "identity", [&] { return vf::cat(id, " obtained by way ", i, " is a ", f.className(), " ", f.getName(), " of height ", f.getHeight()); });
        if (k) for (size_t j = 0; j < t.p.size(); ++j) c.expect(vf::near(k->get[j](&f), t.p[j]), "parameter", [&] { return vf::cat(id, " obtained by way ", i, " has parameter ", j, " = ", k->get[j](&f)); });
        std::string want; for (double v : t.p) want += (want.empty() ? "" : " ") + F3(v); if (std::fabs(t.h - 1) > 1e-6) want += " " + F3(t.h);
        c.expect(f.parameters() == want, "parameters-text", [&] { return id + " is written as <" + f.parameters() + ">"; });
        if (i && i != 4) { c.expect(vf::near(f.membership(xs[xs.size() / 2]), mu(t, xs[xs.size() / 2])), "membership", [&] { return vf::cat(id, " obtained by way ", i, " differs"); }); continue; }
        for (double x : xs) {
            double g = f.membership(x), m = mu(t, x); c.step();
            c.expect(vf::near(g, m), "membership", [&] { return vf::cat(id, " at ", x, " is ", g, ", expected ", m); });
            if (!(nan_(x) || nan_(m)) && !(g >= -1e-12 && g <= t.h + 1e-12)) c.fail("bounds", vf::cat(id, " at ", x, " is ", g, ", outside [0, height]"));
            c.state(vf::hashBytes(&g, sizeof g));
            // Tsukamoto
            if (monotonic(t.cls) != f.isMonotonic()) c.fail("monotonic", id + " says it is " + (f.isMonotonic() ? "monotonic" : "not monotonic"));
            if (i == 0 && !monotonic(t.cls)) { bool threw = false; try { f.tsukamoto(0.5); } catch (F::Exception&) { threw = true; } if (!threw) c.fail("tsukamoto-nonmonotonic", id + " is not monotonic but has a Tsukamoto value"); }
        }
        if (i == 0 && monotonic(t.cls)) for (double q : {0.0, 0.05, 0.25, 0.5, 0.500001, 0.75, 0.95, 1.0}) {
            double y = q * t.h, z = f.tsukamoto(y), e = tsukamoto(t, y); c.step();
            c.expect(vf::near(z, e, 1e-8), "tsukamoto", [&] { return vf::cat(id, " for degree ", y, " is ", z, ", expected ", e); });
            bool inner = q > 0 && q < 1 && !(t.cls != "Sigmoid" && t.p[0] == t.p[1]) && !(t.cls == "Sigmoid" && t.p[1] == 0); if (t.cls == "Concave" && inner) inner = y > 0;
            if (inner && std::isfinite(z)) { double back = f.membership(z); c.expect(vf::near(back, y, 1e-5), "tsukamoto-inverse", [&] { return vf::cat(id, ": membership of the Tsukamoto value of ", y, " is ", back); }); }
        }
    }
    // independence of copies
    std::unique_ptr<F::Term> a(w[0]->clone()); a->setHeight(t.h * 0.5); a->setName("u"); if (k) k->set[0](a.get(), 0.123);
    c.expect(w[0]->getName() == "t" && vf::near(w[0]->getHeight(), t.h) && (!k || vf::near(k->get[0](w[0].get()), t.p[0])), "clone-independence", [&] { return id + " changes with its clone"; });
    // too few parameters are refused
    if (k) { std::string s; for (int j = 0; j < k->n; ++j) { bool threw = false; if (!s.empty()) { std::unique_ptr<F::Term> z(w[0]->clone()); try { z->configure(s); } catch (F::Exception&) { threw = true; } if (!threw) c.fail("too-few-parameters", t.cls + " accepted the parameters <" + s + ">"); } s += (s.empty() ? "" : " ") + std::string("0.500"); } }
}
}
VF_SUITE(shapes) {
    static std::vector<Cls> K = make(c.thorough); const Cls& k = c.pick(K); double h = c.pick({1.0, 0.5, 0.25, 2.0, 0.001}); DV p; for (int i = 0; i < k.n; ++i) { p.push_back(c.pick(k.grid[(size_t) i])); if (i == 0) c.begin(); }
    if (!k.ok(p)) c.prune();
    ref::Term t(k.name, "t", p, h); DV xs = points(p, k.name == "Rectangle" || k.name == "Binary");
    if (k.name == "Ramp" && p[0] == p[1]) xs = {0.0, 0.5, NaN};
    if (k.name == "Concave" || k.name == "Bell" || k.name == "SigmoidDifference" || k.name == "SigmoidProduct" || k.name == "Sigmoid") { DV q; for (double x : xs) if (std::isfinite(x) || (nan_(x))) q.push_back(x); xs = q; if (k.name == "Concave" && p[0] == p[1]) { q.clear(); for (double x : xs) if (nan_(x) || std::fabs(x - p[0]) > 1e-5) q.push_back(x); xs = q; } }
    judge(c, &k, t, xs);
}
VF_SUITE(discrete) {     // all sequences of pairs with x in order (repeated ones included)
    int n = 1 + c.choose(c.thorough ? 5 : 4); double h = c.pick({1.0, 0.5}); const double X[] = {-1, 0, 0.25, 0.5, 2}, Y[] = {0, 0.3, 1}; DV p; int last = 0;
    c.begin();
    for (int i = 0; i < n; ++i) { int k = last + c.choose(5 - last); last = k; p.push_back(X[k]); p.push_back(c.pick(Y)); }
    ref::Term t("Discrete", "t", p, h); DV xs; for (int i = 0; i < n; ++i) { xs.push_back(p[2 * (size_t) i]); xs.push_back(p[2 * (size_t) i] + 0.05); xs.push_back(p[2 * (size_t) i] + 1e-4); xs.push_back(p[2 * (size_t) i] - 1e-4); } DV e = {-INF, INF, NaN, 0.37, 1.9, -0.5}; xs.insert(xs.end(), e.begin(), e.end());
    judge(c, 0, t, xs);
    F::Discrete d("t", F::Discrete::toPairs(p), h); DV x, y; for (int i = 0; i < n; ++i) { x.push_back(p[2 * (size_t) i]); y.push_back(p[2 * (size_t) i + 1]); }
    bool same = d.x() == x && d.y() == y && F::Discrete::toVector(d.xy()) == p; for (int i = 0; i < n; ++i) same = same && d.x((size_t) i) == x[(size_t) i] && d.y((size_t) i) == y[(size_t) i] && d.xy((size_t) i) == F::Discrete::Pair(x[(size_t) i], y[(size_t) i]);
    c.expect(same, "discrete-access", [&] { return "the pairs of the Discrete " + show(p) + " are not those given"; });
    // sorting any rotation/reversal of the pairs gives the same function where the x differ
    std::vector<F::Discrete::Pair> q = d.xy(); bool distinct = true; for (size_t i = 1; i < q.size(); ++i) if (q[i].first == q[i - 1].first) distinct = false;
    if (distinct) for (int r = 0; r < 2 * n; ++r) { auto z = d.xy(); std::rotate(z.begin(), z.begin() + r % n, z.end()); if (r >= n) std::reverse(z.begin(), z.end()); F::Discrete s("t", z, h); s.sort(); auto z2 = z; F::Discrete::sort(z2); c.expect(s.xy() == q && z2 == q, "discrete-sort", [&] { return "sorting the pairs of " + show(p) + " is wrong"; }); }
    std::string txt; for (int i = 0; i < n; ++i) txt += std::string(i ? "," : "") + "(" + F3(x[(size_t) i]) + ":" + F3(y[(size_t) i]) + ")";
    c.expect(F::Discrete::formatXY(d.xy(), "(", ":", ")", ",") == txt, "discrete-format", [&] { return "<" + F::Discrete::formatXY(d.xy(), "(", ":", ")", ",") + "> expected <" + txt + ">"; });
    DV odd = p; odd.push_back(0.7); auto po = F::Discrete::toPairs(odd, 0.9); bool threw = false; try { F::Discrete::toPairs(odd); } catch (F::Exception&) { threw = true; }
    c.expect(threw && po.size() == (size_t) n + 1 && po.back() == F::Discrete::Pair(0.7, 0.9), "discrete-pairs", [&] { return std::string("an odd number of values is handled wrongly"); });
}
VF_SUITE(discretize) {
    std::vector<ref::Term> z = termZoo(); ref::Term t = c.pick(z); t.h = c.pick({1.0, 0.5, 2.0}); int res = c.pick({1, 2, 3, 10}); double lo = c.pick({0.0, -1.0, 0.3}), hi = c.pick({1.0, 2.0}); bool bounded = c.flip(); c.begin();
    std::unique_ptr<F::Term> s(bld::term(t)); std::unique_ptr<F::Discrete> d(F::Discrete::discretize(s.get(), lo, hi, res, bounded)); c.step();
    bool ok = d->getName() == "t" && d->xy().size() == (size_t) res + 1; for (int i = 0; ok && i <= res; ++i) { double x = lo + i * (hi - lo) / res, y = mu(t, x); if (bounded) y = std::min(1.0, std::max(0.0, y)); ok = vf::near(d->x((size_t) i), x) && vf::near(d->y((size_t) i), y); }
    c.expect(ok, "discretize", [&] { return vf::cat("discretising ", t.cls, " over [", lo, ", ", hi, "] in ", res, " is wrong"); });
}
VF_SUITE(linear) {     // linear combinations and constants, with and without engine
    int nin = c.choose(4), nco = c.choose(5); DV co, in; const double A[] = {0, 1, -2.5}; const double V[] = {0.5, -3, NaN, INF};
    for (int i = 0; i < nco; ++i) co.push_back(c.pick(A)); for (int i = 0; i < nin; ++i) in.push_back(c.pick(V)); int way = c.choose(5); c.begin();
    F::Engine e("e"), e2("e2"); for (int i = 0; i < nin; ++i) { e.addInputVariable(new F::InputVariable(vf::cat("i", i), 0, 1)); e.getInputVariable((size_t) i)->setValue(in[(size_t) i]); } e2.addInputVariable(new F::InputVariable("z", 0, 1)); e2.getInputVariable(0)->setValue(77);
    std::string txt; for (double v : co) txt += (txt.empty() ? "" : " ") + F3(v); F::Linear l("l", way == 0 ? co : DV(), way == 0 ? &e : 0);
    if (way == 1) { l.configure(txt); l.setEngine(&e); } else if (way == 2) { l.set(co, &e); } else if (way == 3) { l.setCoefficients(co); l.updateReference(&e2); l.updateReference(&e); } else if (way == 4) { F::Linear a("l", co, &e); std::unique_ptr<F::Linear> b(a.clone()); l = *b; }
    double x = c.pick({0.0, NaN}); double g = l.membership(x), w = mu(T("Linear", "l", co), x, in); c.step();
    c.expect(vf::near(g, w), "linear", [&] { return vf::cat("Linear with coefficients <", txt, "> on ", nin, " inputs <", show(in), "> is ", g, ", expected ", w); });
    c.expect(l.parameters() == txt && l.coefficients() == co && l.getEngine() == &e && l.className() == "Linear", "linear-parameters", [&] { return "Linear <" + txt + "> is written as <" + l.parameters() + ">"; });
    for (auto v : e.inputVariables()) v->setValue(1); DV one((size_t) nin, 1.0); c.expect(vf::near(l.membership(0), mu(T("Linear", "l", co), 0, one)), "linear-live", [&] { return std::string("a Linear does not follow the values of its engine"); });
    l.setEngine(0); bool threw = false; try { l.membership(0); } catch (F::Exception&) { threw = true; } if (!threw) c.fail("linear-no-engine", "a Linear without engine has a value");
    for (double v : {0.0, -2.5, NaN, INF, 1e6}) { F::Constant k("k", v); c.expect(vf::near(k.membership(x), v) && k.parameters() == F3(v), "constant", [&] { return vf::cat("Constant ", v, " is ", k.membership(x)); }); F::Constant m("m"); m.configure(F3(v)); m.setName("k"); c.expect(vf::near(m.getValue(), v), "constant-configure", [&] { return vf::cat("Constant configured with ", v, " is ", m.getValue()); }); }
}
VF_SUITE(direction) {
    const double G[] = {-INF, -1, 0, 0.5, 0.5000001, 1, INF, NaN}; double a = c.pick(G), b = c.pick(G); c.begin(); F::Ramp r("r", a, b); double d = b - a;
    int want = !std::isfinite(d) || ref::eq(d, 0) ? 0 : ref::gt(d, 0) ? 1 : -1; int got = r.direction() == F::Ramp::Positive ? 1 : r.direction() == F::Ramp::Negative ? -1 : 0; c.step();
    c.expect(want == got, "ramp-direction", [&] { return vf::cat("Ramp ", a, " ", b, " has direction ", got); });
    F::Binary k("k", a, b); int wb = b > a ? 1 : b < a ? -1 : 0; int gb = k.direction() == F::Binary::Positive ? 1 : k.direction() == F::Binary::Negative ? -1 : 0;
    F::Sigmoid z("z", a, b); int wz = !std::isfinite(b) || ref::eq(b, 0) ? 0 : b > 0 ? 1 : -1; int gz = z.direction() == F::Sigmoid::Positive ? 1 : z.direction() == F::Sigmoid::Negative ? -1 : 0; c.expect(wz == gz, "sigmoid-direction", [&] { return vf::cat("Sigmoid ", a, " ", b, " has direction ", gz); });
    c.expect(wb == gb, "binary-direction", [&] { return vf::cat("Binary ", a, " ", b, " has direction ", gb); });
}
