#ifndef VF_COMMON_H
#define VF_COMMON_H
#include "build.h"
// Compares the whole observable result of one processing cycle with the reference model.
inline std::string compareState(const fuzzylite::Engine* e, const ref::Engine& s, const ref::State& st, vf::Ctx& c, double tol = 1e-9) {
    std::ostringstream o;
    for (size_t b = 0; b < s.blocks.size(); ++b) {
        if (!s.blocks[b].enabled) continue;
        for (size_t r = 0; r < s.blocks[b].rules.size(); ++r) {
            const fuzzylite::Rule* rule = e->getRuleBlock(b)->getRule(r);
            c.checks(2);
            if (!vf::near(rule->getActivationDegree(), st.degree[b][r], tol)) o << "block " << b << " rule " << r << " activation degree is " << vf::num(rule->getActivationDegree()) << ", expected " << vf::num(st.degree[b][r]) << "; ";
            if (rule->isTriggered() != st.triggered[b][r]) o << "block " << b << " rule " << r << " triggered is " << rule->isTriggered() << ", expected " << st.triggered[b][r] << "; ";
        }
    }
    for (size_t i = 0; i < s.out.size(); ++i) {
        const fuzzylite::OutputVariable* v = e->getOutputVariable(i);
        const fuzzylite::Aggregated* f = v->fuzzyOutput();
        c.checks(2);
        if (f->numberOfTerms() != st.fuzzy[i].size()) o << "output " << i << " fuzzy output has " << f->numberOfTerms() << " terms, expected " << st.fuzzy[i].size() << "; ";
        else for (size_t t = 0; t < st.fuzzy[i].size(); ++t) {
            c.checks();
            const fuzzylite::Activated& a = f->getTerm(t);
            if (a.getTerm() != v->getTerm((size_t) st.fuzzy[i][t].term)) o << "output " << i << " fuzzy term " << t << " is " << a.getName() << "; ";
            if (!vf::near(a.getDegree(), st.fuzzy[i][t].degree, tol)) o << "output " << i << " fuzzy term " << t << " degree is " << vf::num(a.getDegree()) << ", expected " << vf::num(st.fuzzy[i][t].degree) << "; ";
        }
        if (!ref::outAgrees(st, i, v->getValue(), tol)) o << "output " << i << " value is " << vf::num(v->getValue()) << ", expected " << vf::num(st.out[i]) << "; ";
        if (!vf::near(v->getPreviousValue(), st.prev[i], tol) && !st.ploose[i]) o << "output " << i << " previous value is " << vf::num(v->getPreviousValue()) << ", expected " << vf::num(st.prev[i]) << "; ";
    }
    return o.str();
}
// where rounding decides between several values, the model goes on with the one obtained
inline std::string compareState(const fuzzylite::Engine* e, const ref::Engine& s, ref::State& st, vf::Ctx& c, double tol = 1e-9) {
    std::string r = compareState(e, s, (const ref::State&) st, c, tol);
    if (r.empty()) for (size_t i = 0; i < s.out.size(); ++i) { if (st.loose[i]) { st.out[i] = e->getOutputVariable(i)->getValue(); st.loose[i] = false; } if (st.ploose[i]) { st.prev[i] = e->getOutputVariable(i)->getPreviousValue(); st.ploose[i] = false; } }
    return r;
}
inline ref::Var inVar(const std::string& n, double lo, double hi, const std::vector<ref::Term>& t) { ref::Var v; v.name = n; v.min = lo; v.max = hi; v.terms = t; return v; }
inline ref::Var outVar(const std::string& n, double lo, double hi, const std::vector<ref::Term>& t, const std::string& agg = "Maximum", const std::string& d = "Centroid", int res = 50) { ref::Var v = inVar(n, lo, hi, t); v.aggregation = agg; v.defuzz = d; v.res = res; return v; }
inline ref::Term T(const std::string& c, const std::string& n, const std::vector<double>& p, double h = 1.0) { return ref::Term(c, n, p, h); }
inline ref::Rule R(const ref::Expr& a, const std::vector<ref::Concl>& c, double w = 1.0) { ref::Rule r; r.ante = a; r.cons = c; r.weight = w; return r; }
typedef std::vector<std::string> SV;
typedef std::vector<double> DV;
template <class T> std::vector<T> vec(const T* b, size_t n) { return std::vector<T>(b, b + n); }
inline SV names(const char* const* b, size_t n) { return SV(b, b + n); }
#define NAMES(A) names(A, sizeof(A) / sizeof(A[0]))
struct Guard { fuzzylite::Engine* e; explicit Guard(fuzzylite::Engine* x) : e(x) {} ~Guard() { delete e; } fuzzylite::Engine* operator->() const { return e; } Guard(const Guard&) = delete; };
// one well-formed instance per term class over [0,1]
inline std::vector<ref::Term> termZoo() {
    std::vector<ref::Term> z;
    z.push_back(T("Bell", "t", {0.5, 0.25, 3})); z.push_back(T("Binary", "t", {0.3, ref::INF})); z.push_back(T("Binary", "t", {0.7, -ref::INF})); z.push_back(T("Concave", "t", {0.2, 0.8})); z.push_back(T("Concave", "t", {0.8, 0.2}));
    z.push_back(T("Cosine", "t", {0.5, 0.6})); z.push_back(T("Discrete", "t", {0, 0.25, 0.25, 1, 0.75, 0.5, 1, 0})); z.push_back(T("Gaussian", "t", {0.4, 0.2})); z.push_back(T("GaussianProduct", "t", {0.3, 0.1, 0.6, 0.2}));
    z.push_back(T("PiShape", "t", {0.1, 0.3, 0.6, 0.9})); z.push_back(T("Ramp", "t", {0.1, 0.9})); z.push_back(T("Ramp", "t", {0.9, 0.1})); z.push_back(T("Rectangle", "t", {0.2, 0.6})); z.push_back(T("SShape", "t", {0.2, 0.8})); z.push_back(T("Sigmoid", "t", {0.4, 10}));
    z.push_back(T("SigmoidDifference", "t", {0.2, 20, 30, 0.8})); z.push_back(T("SigmoidProduct", "t", {0.3, 20, -20, 0.7})); z.push_back(T("Spike", "t", {0.5, 1.0})); z.push_back(T("Trapezoid", "t", {0.1, 0.3, 0.6, 0.9})); z.push_back(T("Triangle", "t", {0.1, 0.4, 0.9})); z.push_back(T("ZShape", "t", {0.2, 0.8}));
    return z;
}
// engines with many of one kind of part: inputs, terms, outputs, rules, blocks, propositions, conclusions
static const char* const SIZED[] = {"inputs", "terms", "outputs", "rules", "propositions", "conclusions", "blocks"};
inline ref::Engine sized(int dim, int n, int resolution = 25) {
    using namespace ref; ref::Engine e; e.name = "sized"; auto N = [](const char* p, int i) { std::ostringstream o; o << p << i; return o.str(); };
    int ni = dim == 0 || dim == 4 ? n : 2, nt = dim == 1 ? n : 2, no = dim == 2 || dim == 5 ? n : 1, nr = dim == 3 ? n : dim == 1 ? n : 2, nb = dim == 6 ? n : 1;
    for (int i = 0; i < ni; ++i) { std::vector<Term> t; for (int k = 0; k < nt; ++k) t.push_back(T(k % 2 ? "Ramp" : "Gaussian", N("t", k + 1), k % 2 ? std::vector<double>{0, 1} : std::vector<double>{0.125 * ((k + i) % 9), 0.5})); e.in.push_back(inVar(N("in", i + 1), 0, 1 + i % 3, t)); }
    for (int i = 0; i < no; ++i) { std::vector<Term> t; for (int k = 0; k < nt; ++k) t.push_back(T("Triangle", N("t", k + 1), {-0.5, 0.125 * ((k + 3 * i) % 9), 1.5})); e.out.push_back(outVar(N("out", i + 1), 0, 1, t, "Maximum", "Centroid", resolution)); }
    for (int b = 0; b < nb; ++b) {
        Block k; if (nb > 1) k.name = N("rb", b + 1); k.conj = "Minimum"; k.disj = "Maximum"; k.impl = "Minimum";
        for (int r = 0; r < nr; ++r) {
            int first = dim == 4 ? 0 : dim == 0 ? ni - 2 - r % (ni - 1) : ni - 1 - r % ni; Expr a = P(first, (r + b) % nt); if (dim == 4 || dim == 0) for (int i = 1; i < (dim == 4 ? ni : 2); ++i) a = Bin(1 + r % 2, a, P(first + i, (r + i) % nt));
            std::vector<Concl> cs; for (int i = 0; i < (dim == 5 ? no : 1); ++i) cs.push_back(C((dim == 5 ? i : (no - 1 - r % no)), (nt - 1 - (r + b + i) % nt)));
            k.rules.push_back(R(a, cs, r % 4 == 3 ? 0.25 + 0.125 * (r % 3) : 1));
        }
        e.blocks.push_back(k);
    }
    return e;
}
#endif
