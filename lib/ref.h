// Reference model of fuzzylite's documented semantics, written from the documentation and independent
// of the library's code (no fuzzylite header is included here).
#ifndef VF_REF_H
#define VF_REF_H
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {

const double NaN = std::numeric_limits<double>::quiet_NaN();
const double INF = std::numeric_limits<double>::infinity();
static double EPS = 1e-6;   // documented tolerance of floating-point comparisons
inline bool nan_(double x) { return x != x; }
inline bool eq(double a, double b) { return a == b || std::fabs(a - b) < EPS || (nan_(a) && nan_(b)); }
inline bool lt(double a, double b) { return !eq(a, b) && a < b; }
inline bool gt(double a, double b) { return !eq(a, b) && a > b; }
inline bool le(double a, double b) { return eq(a, b) || a < b; }
inline bool ge(double a, double b) { return eq(a, b) || a > b; }
inline double mn(double a, double b) { return nan_(a) || nan_(b) ? NaN : (a < b ? a : b); }
inline double mx(double a, double b) { return nan_(a) || nan_(b) ? NaN : (a > b ? a : b); }
inline bool fin_(double x) { return !nan_(x) && std::fabs(x) != INF; }

// ---- operators
static const char* const TNORMS[] = {"AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "Minimum", "NilpotentMinimum"};
static const char* const SNORMS[] = {"AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"};
static const char* const HEDGES[] = {"any", "extremely", "not", "seldom", "somewhat", "very"};
static const char* const ACTIVATIONS[] = {"First", "General", "Highest", "Last", "Lowest", "Proportional", "Threshold"};
static const char* const DEFUZZIFIERS[] = {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum", "WeightedAverage", "WeightedSum"};
static const char* const TERMS[] = {"Bell", "Binary", "Concave", "Constant", "Cosine", "Discrete", "Function", "Gaussian", "GaussianProduct", "Linear", "PiShape", "Ramp", "Rectangle", "SShape", "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle", "ZShape"};

inline double tnorm(const std::string& n, double a, double b) {
    if (n == "AlgebraicProduct") return a * b;
    if (n == "BoundedDifference") return mx(0.0, a + b - 1.0);
    if (n == "DrasticProduct") return eq(mx(a, b), 1.0) ? mn(a, b) : 0.0;
    if (n == "EinsteinProduct") return (a * b) / (2.0 - (a + b - a * b));
    if (n == "HamacherProduct") return eq(a + b, 0.0) ? 0.0 : (a * b) / (a + b - a * b);
    if (n == "Minimum") return mn(a, b);
    if (n == "NilpotentMinimum") return gt(a + b, 1.0) ? mn(a, b) : 0.0;
    throw std::runtime_error("ref: tnorm " + n);
}
inline double snorm(const std::string& n, double a, double b) {
    if (n == "AlgebraicSum") return a + b - a * b;
    if (n == "BoundedSum") return mn(1.0, a + b);
    if (n == "DrasticSum") return eq(mn(a, b), 0.0) ? mx(a, b) : 1.0;
    if (n == "EinsteinSum") return (a + b) / (1.0 + a * b);
    if (n == "HamacherSum") return eq(a * b, 1.0) ? 1.0 : (a + b - 2.0 * a * b) / (1.0 - a * b);
    if (n == "Maximum") return mx(a, b);
    if (n == "NilpotentMaximum") return lt(a + b, 1.0) ? mx(a, b) : 1.0;
    if (n == "NormalizedSum") return (a + b) / mx(1.0, a + b);
    if (n == "UnboundedSum") return a + b;
    throw std::runtime_error("ref: snorm " + n);
}
inline double hedge(const std::string& n, double x) {
    if (n == "any") return 1.0;
    if (n == "not") return 1.0 - x;
    if (n == "very") return x * x;
    if (n == "somewhat") return std::sqrt(x);
    if (n == "extremely") return le(x, 0.5) ? 2.0 * x * x : 1.0 - 2.0 * (1.0 - x) * (1.0 - x);
    if (n == "seldom") return le(x, 0.5) ? std::sqrt(0.5 * x) : 1.0 - std::sqrt(0.5 * (1.0 - x));
    throw std::runtime_error("ref: hedge " + n);
}

// ---- terms
struct Term {
    std::string cls, name; std::vector<double> p; double h = 1.0;
    std::string formula;                                                       // Function
    std::function<double(double, const std::vector<double>&, const std::vector<double>&)> f;   // (x, inputs, outputs)
    Term() {}
    Term(const std::string& c, const std::string& n, const std::vector<double>& q, double hh = 1.0) : cls(c), name(n), p(q), h(hh) {}
};
inline double sshape(double x, double s, double e) {
    if (le(x, s)) return 0.0;
    if (le(x, 0.5 * (s + e))) return 2.0 * std::pow((x - s) / (e - s), 2.0);
    if (lt(x, e)) return 1.0 - 2.0 * std::pow((x - e) / (e - s), 2.0);
    return 1.0;
}
inline double mu(const Term& t, double x, const std::vector<double>& in = std::vector<double>(), const std::vector<double>& out = std::vector<double>()) {
    const std::string& c = t.cls; const std::vector<double>& p = t.p;
    if (c == "Constant") return p[0];
    if (c == "Linear") {
        double r = 0;
        for (size_t i = 0; i < in.size(); ++i) if (i < p.size()) r += p[i] * in[i];
        if (p.size() > in.size()) r += p.back();
        return r;
    }
    if (c == "Function") return t.f(x, in, out);
    if (nan_(x)) return NaN;
    if (c == "Bell") return t.h / (1.0 + std::pow(std::fabs((x - p[0]) / p[1]), 2.0 * p[2]));
    if (c == "Binary") {
        if (p[1] > p[0]) return ge(x, p[0]) ? t.h : 0.0;
        if (p[1] < p[0]) return le(x, p[0]) ? t.h : 0.0;
        return 0.0 * t.h;
    }
    if (c == "Concave") {
        double i = p[0], e = p[1];
        if (le(i, e)) return lt(x, e) ? t.h * (e - i) / (2.0 * e - i - x) : t.h;
        return gt(x, e) ? t.h * (i - e) / (i - 2.0 * e + x) : t.h;
    }
    if (c == "Cosine") {
        if (lt(x, p[0] - 0.5 * p[1]) || gt(x, p[0] + 0.5 * p[1])) return 0.0;
        return t.h * 0.5 * (1.0 + std::cos(2.0 / p[1] * M_PI * (x - p[0])));
    }
    if (c == "Discrete") {
        size_t n = p.size() / 2;
        if (le(x, p[0])) return t.h * p[1];
        if (ge(x, p[2 * (n - 1)])) return t.h * p[2 * (n - 1) + 1];
        for (size_t i = 0; i < n; ++i) if (eq(x, p[2 * i])) return t.h * p[2 * i + 1];
        for (size_t i = 0; i + 1 < n; ++i)
            if (p[2 * i] < x && x < p[2 * i + 2]) return t.h * (p[2 * i + 1] + (p[2 * i + 3] - p[2 * i + 1]) * (x - p[2 * i]) / (p[2 * i + 2] - p[2 * i]));
        return NaN;
    }
    if (c == "Gaussian") return t.h * std::exp(-(x - p[0]) * (x - p[0]) / (2.0 * p[1] * p[1]));
    if (c == "GaussianProduct") {
        double a = lt(x, p[0]) ? std::exp(-(x - p[0]) * (x - p[0]) / (2.0 * p[1] * p[1])) : 1.0;
        double b = gt(x, p[2]) ? std::exp(-(x - p[2]) * (x - p[2]) / (2.0 * p[3] * p[3])) : 1.0;
        return t.h * a * b;
    }
    if (c == "PiShape") return t.h * sshape(x, p[0], p[1]) * (le(x, p[2]) ? 1.0 : 1.0 - (le(x, 0.5 * (p[2] + p[3])) ? 2.0 * std::pow((x - p[2]) / (p[3] - p[2]), 2.0) : lt(x, p[3]) ? 1.0 - 2.0 * std::pow((x - p[3]) / (p[3] - p[2]), 2.0) : 1.0));
    if (c == "Ramp") {
        double s = p[0], e = p[1];
        if (eq(s, e)) return NaN;
        double r = (x - s) / (e - s);
        return t.h * (r <= 0 ? 0.0 : r >= 1 ? 1.0 : r);
    }
    if (c == "Rectangle") return ge(x, p[0]) && le(x, p[1]) ? t.h : 0.0;
    if (c == "SShape") return t.h * sshape(x, p[0], p[1]);
    if (c == "ZShape") {
        double s = p[0], e = p[1];
        if (le(x, s)) return t.h;
        if (le(x, 0.5 * (s + e))) return t.h * (1.0 - 2.0 * std::pow((x - s) / (e - s), 2.0));
        if (lt(x, e)) return t.h * 2.0 * std::pow((x - e) / (e - s), 2.0);
        return 0.0 * t.h;
    }
    if (c == "Sigmoid") return t.h / (1.0 + std::exp(-p[1] * (x - p[0])));
    if (c == "SigmoidDifference") return t.h * std::fabs(1.0 / (1.0 + std::exp(-p[1] * (x - p[0]))) - 1.0 / (1.0 + std::exp(-p[2] * (x - p[3]))));
    if (c == "SigmoidProduct") return t.h * (1.0 / (1.0 + std::exp(-p[1] * (x - p[0])))) * (1.0 / (1.0 + std::exp(-p[2] * (x - p[3]))));
    if (c == "Spike") return t.h * std::exp(-std::fabs(10.0 / p[1] * (x - p[0])));
    if (c == "Trapezoid") {
        double A = p[0], B = p[1], C = p[2], D = p[3];
        if (lt(x, A) || gt(x, D)) return 0.0;
        if (lt(x, B)) return A == -INF ? t.h : t.h * mn(1.0, (x - A) / (B - A));
        if (le(x, C)) return t.h;
        if (D == INF) return t.h;
        if (lt(x, D)) return t.h * (D - x) / (D - C);
        return 0.0;
    }
    if (c == "Triangle") {
        double A = p[0], B = p[1], C = p[2];
        if (lt(x, A) || gt(x, C)) return 0.0;
        if (eq(x, B)) return t.h;
        if (x < B) return A == -INF ? t.h : t.h * (x - A) / (B - A);
        return C == INF ? t.h : t.h * (C - x) / (C - B);
    }
    throw std::runtime_error("ref: term " + c);
}
inline bool monotonic(const std::string& c) { return c == "Concave" || c == "Ramp" || c == "Sigmoid" || c == "SShape" || c == "ZShape"; }
inline double tsukamoto(const Term& t, double y) {
    const std::vector<double>& p = t.p; double h = t.h;
    if (t.cls == "Concave") return h * (p[0] - p[1]) / y + 2 * p[1] - p[0];
    if (t.cls == "Ramp") return p[0] + (p[1] - p[0]) * y / h;
    if (t.cls == "Sigmoid") return p[0] - std::log(h / y - 1.0) / p[1];
    if (t.cls == "SShape") return y <= h / 2 ? p[0] + (p[1] - p[0]) * std::sqrt(y / (2 * h)) : p[1] - (p[1] - p[0]) * std::sqrt((h - y) / (2 * h));
    if (t.cls == "ZShape") return y <= h / 2 ? p[1] - (p[1] - p[0]) * std::sqrt(y / (2 * h)) : p[0] + (p[1] - p[0]) * std::sqrt((h - y) / (2 * h));
    throw std::runtime_error("ref: tsukamoto " + t.cls);
}

// ---- integral defuzzification by the midpoint rule
struct Crisp { double v; bool loose; double lo, hi; };   // loose: rounding decides between points in [lo, hi]
inline bool agrees(const Crisp& c, double got, double tol = 1e-9) {
    if (nan_(c.v) || nan_(got)) return nan_(c.v) && nan_(got);
    if (c.v == got) return true;
    if (std::fabs(c.v - got) <= tol * (1.0 + std::fabs(c.v) + std::fabs(got))) return true;
    return c.loose && got >= c.lo - 1e-9 && got <= c.hi + 1e-9;
}
inline Crisp defuzzify(const std::string& d, const std::function<double(double)>& m, double lo, double hi, int res) {
    Crisp r = {NaN, false, NaN, NaN};
    if (!fin_(lo + hi)) return r;
    double dx = (hi - lo) / res;
    std::vector<double> x(res), y(res);
    for (int i = 0; i < res; ++i) { x[i] = lo + (i + 0.5) * dx; y[i] = m(x[i]); }
    if (d == "Centroid") {
        double a = 0, c = 0;
        for (int i = 0; i < res; ++i) { a += y[i]; c += y[i] * x[i]; }
        r.v = c / a; return r;
    }
    std::vector<double> key(res); // larger is better
    std::vector<double> cum(res); double s = 0;
    if (d == "Bisector") {
        for (int i = 0; i < res; ++i) { if (fin_(y[i])) s += y[i]; cum[i] = s; }
        for (int i = 0; i < res; ++i) key[i] = -std::fabs(cum[i] / s - 0.5);
    } else key = y;
    double best = -INF; for (int i = 0; i < res; ++i) if (key[i] > best) best = key[i];
    std::vector<double> exact, nearby;
    for (int i = 0; i < res; ++i) { if (key[i] == best) exact.push_back(x[i]); if (key[i] >= best - 1e-9) nearby.push_back(x[i]); }
    if (exact.empty()) return r;
    if (d == "SmallestOfMaximum") r.v = exact.front();
    else if (d == "LargestOfMaximum") r.v = exact.back();
    else { double s = 0; for (size_t i = 0; i < exact.size(); ++i) s += exact[i]; r.v = s / exact.size(); }
    // equal maxima are certain only on plateaus (or in sampled data); elsewhere rounding decides which of them wins
    bool plateau = d != "Bisector";
    if (plateau && exact.size() > 1) for (size_t i = 0; i < exact.size(); ++i) { double e = 1e-9 * dx; if (m(exact[i] - e) != best || m(exact[i] + e) != best) plateau = false; }
    bool sides = false;
    if (d == "Bisector") for (int i = 0; i < res; ++i) for (int j = 0; j < i; ++j) if (key[i] >= best - 1e-9 && key[j] >= best - 1e-9 && std::fabs(cum[i] - cum[j]) > 1e-9 * s) sides = true;
    r.loose = sides || exact.size() != nearby.size() || (d != "Bisector" && !plateau && exact.size() > 1); r.lo = nearby.front(); r.hi = nearby.back();
    return r;
}

// ---- engines
struct Prop { bool out = false; int var = 0, term = 0; std::vector<std::string> hedges; };   // term -1: "any" without term
struct Expr {
    int kind = 0; Prop p; std::shared_ptr<Expr> l, r;   // 0 proposition, 1 and, 2 or
};
inline Expr P(int var, int term, const std::vector<std::string>& h = std::vector<std::string>(), bool out = false) { Expr e; e.p.var = var; e.p.term = term; e.p.hedges = h; e.p.out = out; return e; }
inline Expr Bin(int k, const Expr& a, const Expr& b) { Expr e; e.kind = k; e.l.reset(new Expr(a)); e.r.reset(new Expr(b)); return e; }
inline Expr And(const Expr& a, const Expr& b) { return Bin(1, a, b); }
inline Expr Or(const Expr& a, const Expr& b) { return Bin(2, a, b); }
struct Concl { int var = 0, term = 0; std::vector<std::string> hedges; };
inline Concl C(int var, int term, const std::vector<std::string>& h = std::vector<std::string>()) { Concl c; c.var = var; c.term = term; c.hedges = h; return c; }
struct Var {
    std::string name, desc; double min = 0, max = 1; bool lockRange = false, enabled = true; std::vector<Term> terms;
    double def = NaN; bool lockPrev = false; std::string aggregation, defuzz; int res = 100; std::string wtype;
};
struct Rule { bool enabled = true, loaded = true; double weight = 1.0; Expr ante; std::vector<Concl> cons; };
struct Block {
    std::string name, desc; bool enabled = true; std::string conj, disj, impl; std::string act = "General"; int n = 1; double thr = 0; std::string cmp = ">=";
    std::vector<Rule> rules;
};
struct Engine { std::string name, desc; std::vector<Var> in, out; std::vector<Block> blocks; };

struct Act { int term; double degree; std::string impl; };
struct State {
    std::vector<double> in, out, prev; std::vector<std::vector<Act>> fuzzy;
    std::vector<std::vector<double>> degree; std::vector<std::vector<bool>> triggered;
    std::vector<bool> loose, ploose; bool ambiguous = false;
    std::vector<double> lo, hi;
};
inline State initial(const Engine& e) {
    State s; s.in.assign(e.in.size(), NaN); s.out.assign(e.out.size(), NaN); s.prev = s.out; s.fuzzy.resize(e.out.size());
    for (size_t b = 0; b < e.blocks.size(); ++b) { s.degree.push_back(std::vector<double>(e.blocks[b].rules.size(), 0.0)); s.triggered.push_back(std::vector<bool>(e.blocks[b].rules.size(), false)); }
    s.loose.assign(e.out.size(), false); s.ploose = s.loose; s.lo = s.hi = s.out;
    return s;
}
inline double bound(double v, double lo, double hi) { return v > hi ? hi : v < lo ? lo : v; }
inline void setInput(const Engine& e, State& s, size_t i, double v) { s.in[i] = e.in[i].lockRange ? bound(v, e.in[i].min, e.in[i].max) : v; }

inline double degreeOf(const std::string& agg, const std::vector<Act>& f, int term) {
    double r = 0; for (size_t i = 0; i < f.size(); ++i) if (f[i].term == term) r = agg.empty() ? r + f[i].degree : snorm(agg, r, f[i].degree);
    return r;
}
inline double evalProp(const Engine& e, const State& s, const Prop& p) {
    const Var& v = p.out ? e.out[p.var] : e.in[p.var];
    if (!v.enabled) return 0.0;
    double r; size_t n = p.hedges.size(); size_t k = n;
    if (n && p.hedges[n - 1] == "any") { r = 1.0; k = n - 1; }
    else r = p.out ? degreeOf(v.aggregation, s.fuzzy[p.var], p.term) : mu(v.terms[p.term], s.in[p.var], s.in, s.out);
    for (size_t i = k; i-- > 0;) r = hedge(p.hedges[i], r);
    return r;
}
inline double eval(const Engine& e, const State& s, const Block& b, const Expr& x) {
    if (x.kind == 0) return evalProp(e, s, x.p);
    double l = eval(e, s, b, *x.l), r = eval(e, s, b, *x.r);
    return x.kind == 1 ? tnorm(b.conj, l, r) : snorm(b.disj, l, r);
}
// The documentation says hedges modify the conclusion they are written in.  The library (and the reference data of its own tests)
// keeps applying them to the conclusions after it in the same rule; see known_findings.txt.
inline bool& hedgesLeak() { static bool b = true; return b; }
inline bool leakRelevant(const Engine& e) {
    for (size_t b = 0; b < e.blocks.size(); ++b) for (size_t r = 0; r < e.blocks[b].rules.size(); ++r) { const Rule& x = e.blocks[b].rules[r]; for (size_t i = 0; i + 1 < x.cons.size(); ++i) if (!x.cons[i].hedges.empty()) return true; }
    return false;
}
inline void trigger(const Engine& e, State& s, size_t bi, size_t ri) {
    const Block& b = e.blocks[bi]; const Rule& r = b.rules[ri];
    if (!r.enabled || !gt(s.degree[bi][ri], 0.0)) return;
    double running = s.degree[bi][ri];
    for (size_t i = 0; i < r.cons.size(); ++i) {
        const Concl& c = r.cons[i];
        if (!e.out[c.var].enabled) continue;
        double d = hedgesLeak() ? running : s.degree[bi][ri];
        for (size_t k = c.hedges.size(); k-- > 0;) d = hedge(c.hedges[k], d);
        running = d;
        Act a; a.term = c.term; a.degree = d; a.impl = b.impl; s.fuzzy[c.var].push_back(a);
    }
    s.triggered[bi][ri] = true;
}
inline bool cmp(const std::string& o, double a, double t) {
    return o == "<" ? lt(a, t) : o == "<=" ? le(a, t) : o == "==" ? eq(a, t) : o == "!=" ? !eq(a, t) : o == ">=" ? ge(a, t) : gt(a, t);
}
inline void activate(const Engine& e, State& s, size_t bi) {
    const Block& b = e.blocks[bi]; size_t n = b.rules.size();
    auto evalRule = [&](size_t i) { s.degree[bi][i] = b.rules[i].weight * eval(e, s, b, b.rules[i].ante); return s.degree[bi][i]; };
    for (size_t i = 0; i < n; ++i) if (b.act != "First" && b.act != "Last" && b.act != "General" && b.act != "Threshold") { s.degree[bi][i] = 0; s.triggered[bi][i] = false; }
    if (b.act == "General" || b.act == "Threshold") {
        for (size_t i = 0; i < n; ++i) { s.degree[bi][i] = 0; s.triggered[bi][i] = false; if (!b.rules[i].loaded) continue; double d = evalRule(i); if (b.act == "General" || cmp(b.cmp, d, b.thr)) trigger(e, s, bi, i); }
    } else if (b.act == "First" || b.act == "Last") {
        int used = 0;
        for (size_t k = 0; k < n; ++k) {
            size_t i = b.act == "First" ? k : n - 1 - k;
            s.degree[bi][i] = 0; s.triggered[bi][i] = false;
            if (!b.rules[i].loaded) continue;
            double d = evalRule(i);
            if (used < b.n && gt(d, 0.0) && ge(d, b.thr)) { trigger(e, s, bi, i); ++used; }
        }
    } else if (b.act == "Highest" || b.act == "Lowest") {
        std::vector<size_t> c;
        for (size_t i = 0; i < n; ++i) if (b.rules[i].loaded && gt(evalRule(i), 0.0)) c.push_back(i);
        bool high = b.act == "Highest";
        std::stable_sort(c.begin(), c.end(), [&](size_t x, size_t y) { return high ? s.degree[bi][x] > s.degree[bi][y] : s.degree[bi][x] < s.degree[bi][y]; });
        if (b.n >= 0 && b.n < (int) c.size() && b.n > 0 && std::fabs(s.degree[bi][c[b.n - 1]] - s.degree[bi][c[b.n]]) < 1e-9) s.ambiguous = true;
        for (int k = 0; k < (int) c.size() && k < b.n; ++k) trigger(e, s, bi, c[k]);
    } else if (b.act == "Proportional") {
        double sum = 0; std::vector<size_t> c;
        for (size_t i = 0; i < n; ++i) if (b.rules[i].loaded) { sum += evalRule(i); c.push_back(i); }
        for (size_t k = 0; k < c.size(); ++k) { double d = s.degree[bi][c[k]] / sum; s.degree[bi][c[k]] = nan_(d) ? 0.0 : d; trigger(e, s, bi, c[k]); }
    } else throw std::runtime_error("ref: activation " + b.act);
}
// weighted defuzzifiers: terms grouped by name, in order of first activation
inline double weighted(const Engine& e, const State& s, size_t o) {
    const Var& v = e.out[o]; const std::vector<Act>& f = s.fuzzy[o];
    if (f.empty()) return NaN;
    std::vector<int> order; std::map<int, double> deg;
    for (size_t i = 0; i < f.size(); ++i) {
        if (!deg.count(f[i].term)) { deg[f[i].term] = f[i].degree; order.push_back(f[i].term); }
        else deg[f[i].term] = snorm(v.aggregation.empty() ? "UnboundedSum" : v.aggregation, deg[f[i].term], f[i].degree);
    }
    bool tsu = v.wtype == "Tsukamoto";
    if (v.wtype.empty() || v.wtype == "Automatic") tsu = monotonic(v.terms[order[0]].cls);
    double sum = 0, w = 0;
    for (size_t i = 0; i < order.size(); ++i) {
        double d = deg[order[i]]; const Term& t = v.terms[order[i]];
        sum += d * (tsu ? tsukamoto(t, d) : mu(t, d, s.in, s.out)); w += d;
    }
    return v.defuzz == "WeightedSum" ? sum : sum / w;
}
inline double fuzzyMu(const Engine& e, const State& s, size_t o, double x) {
    double m = 0; for (size_t i = 0; i < s.fuzzy[o].size(); ++i) { const Act& a = s.fuzzy[o][i]; m = snorm(e.out[o].aggregation, m, tnorm(a.impl, mu(e.out[o].terms[a.term], x, s.in, s.out), a.degree)); }
    return m;
}
inline void defuzz(const Engine& e, State& s, size_t o) {
    const Var& v = e.out[o];
    if (!v.enabled) return;
    Crisp c;
    if (v.defuzz == "WeightedAverage" || v.defuzz == "WeightedSum") { c.v = weighted(e, s, o); c.loose = false; c.lo = c.hi = NaN; }
    else c = defuzzify(v.defuzz, [&](double x) { return fuzzyMu(e, s, o, x); }, v.min, v.max, v.res);
    double y = c.v;
    bool kept = nan_(y) && v.lockPrev && !nan_(s.prev[o]), pl = s.ploose[o];
    if (kept) y = s.prev[o];
    if (nan_(y)) y = v.def;
    s.prev[o] = s.out[o];
    s.out[o] = v.lockRange ? bound(y, v.min, v.max) : y;
    s.ploose[o] = s.loose[o];
    if (kept) { s.loose[o] = pl; s.lo[o] = v.min; s.hi[o] = v.max; } else { s.loose[o] = c.loose; s.lo[o] = c.lo; s.hi[o] = c.hi; }
}
inline void process(const Engine& e, State& s) {
    s.ambiguous = false;
    for (size_t o = 0; o < e.out.size(); ++o) s.fuzzy[o].clear();
    for (size_t b = 0; b < e.blocks.size(); ++b) if (e.blocks[b].enabled) activate(e, s, b);
    for (size_t o = 0; o < e.out.size(); ++o) defuzz(e, s, o);
}
inline bool outAgrees(const State& s, size_t o, double got, double tol = 1e-9) { Crisp c = {s.out[o], s.loose[o], s.lo[o], s.hi[o]}; return agrees(c, got, tol); }

// ---- text of rules
inline std::string propText(const Engine& e, const Prop& p) {
    const Var& v = p.out ? e.out[p.var] : e.in[p.var];
    std::string s = v.name + " is";
    for (size_t i = 0; i < p.hedges.size(); ++i) s += " " + p.hedges[i];
    if (p.term >= 0) s += " " + v.terms[p.term].name;
    return s;
}
// "and" binds tighter than "or"; both associate to the left
inline std::string exprText(const Engine& e, const Expr& x) {
    if (x.kind == 0) return propText(e, x.p);
    auto side = [&](const Expr& c, bool right) { bool par = c.kind != 0 && ((x.kind == 1 && c.kind == 2) || (right && c.kind == x.kind)); std::string t = exprText(e, c); return par ? "( " + t + " )" : t; };
    return side(*x.l, false) + (x.kind == 1 ? " and " : " or ") + side(*x.r, true);
}
inline std::string fmt(double w, int dec = 3) { if (nan_(w)) return "nan"; if (w == INF) return "inf"; if (w == -INF) return "-inf"; char b[64]; snprintf(b, sizeof b, "%.*f", dec, w); return b; }
inline std::string ruleText(const Engine& e, const Rule& r) {
    std::string s = "if " + exprText(e, r.ante) + " then ";
    for (size_t i = 0; i < r.cons.size(); ++i) {
        if (i) s += " and ";
        s += e.out[r.cons[i].var].name + " is";
        for (size_t k = 0; k < r.cons[i].hedges.size(); ++k) s += " " + r.cons[i].hedges[k];
        s += " " + e.out[r.cons[i].var].terms[r.cons[i].term].name;
    }
    if (r.weight != 1.0) s += " with " + fmt(r.weight);
    return s;
}
}
#endif
