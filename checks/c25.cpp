// C25: queries on fuzzy outputs and variables: degrees per term, grouping, highest terms, textual fuzzy values.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
std::string F3(double x) { if (nan_(x)) return "nan"; if (std::isinf(x)) return x > 0 ? "inf" : "-inf"; char b[64]; snprintf(b, sizeof b, "%.3f", x); return b; }
std::string signedTerm(double y, const std::string& n, bool first) { bool pos = y >= 0 || nan_(y); return (first ? (pos ? "" : "-") : (pos ? " + " : " - ")) + F3(std::fabs(y)) + "/" + n; }
}
VF_SUITE(aggregated) {     // all sequences of activated terms with ties, zeros, negative and undefined degrees
    SV aggs = {"", "Maximum", "AlgebraicSum", "UnboundedSum", "BoundedSum"}; std::string agg = c.pick(aggs); int n = c.choose(c.thorough ? 6 : 5); const double D[] = {0, 0.25, 0.6, 1, -0.25, NaN}; const char* N[] = {"low", "mid", "high"};
    F::OutputVariable o("o", -1, 2); F::Minimum im; for (int i = 0; i < 3; ++i) o.addTerm(new F::Triangle(N[i], i - 1.0, i, i + 1.0, 0.9)); o.setAggregation(bld::snorm(agg));
    std::vector<int> t; DV d; for (int i = 0; i < n; ++i) { t.push_back(c.choose(3)); d.push_back(D[c.choose(n > 3 ? (c.thorough ? 5 : 4) : 6)]); if (i == 1) c.begin(); o.fuzzyOutput()->addTerm(o.getTerm((size_t) t.back()), d.back(), &im); } if (n < 2) c.begin();
    F::Aggregated& g = *o.fuzzyOutput(); std::string id = g.toString(); c.describe([&] { return id; }); c.step();
    auto add = [&](double a, double b) { return agg.empty() ? a + b : snorm(agg, a, b); };
    for (int k = 0; k < 3; ++k) { double w = 0; for (int i = 0; i < n; ++i) if (t[(size_t) i] == k) w = add(w, d[(size_t) i]); double v = g.activationDegree(o.getTerm((size_t) k)); c.expect(vf::near(v, w), "activation-degree", [&] { return vf::cat("the activation degree of ", N[k], " in ", id, " is ", v, ", expected ", w); }); }
    F::Triangle foreign("low", 0, 1, 2); c.expect(g.activationDegree(&foreign) == 0.0, "foreign-term", [&] { return std::string("a term that is not activated has a degree"); });
    // the highest ones
    double best = 0; std::vector<int> top; for (int i = 0; i < n; ++i) { if (d[(size_t) i] > best) { best = d[(size_t) i]; top.clear(); } if (best > 0 && d[(size_t) i] == best) top.push_back(i); }
    std::vector<F::Activated> m = g.maximallyActivatedTerms(); bool same = m.size() == top.size(); for (size_t i = 0; same && i < m.size(); ++i) same = m[i].getTerm() == o.getTerm((size_t) t[(size_t) top[i]]) && m[i].getDegree() == best;
    c.expect(same, "maximal-terms", [&] { return "the maximally activated terms of " + id + " are wrong"; });
    F::Activated h = g.highestActivatedTerm(); c.expect(top.empty() ? h.getTerm() == 0 && h.getDegree() == 0.0 : h.getTerm() == o.getTerm((size_t) t[(size_t) top[0]]) && h.getDegree() == best, "highest-term", [&] { return "the highest activated term of " + id + " is wrong"; });
    // grouped
    std::vector<std::pair<int, double>> gr; for (int i = 0; i < n; ++i) { size_t j = 0; while (j < gr.size() && gr[j].first != t[(size_t) i]) ++j; if (j == gr.size()) gr.push_back({t[(size_t) i], d[(size_t) i]}); else gr[j].second = add(gr[j].second, d[(size_t) i]); }
    auto vt = g.groupedTerms(); auto ga = g.grouped(); bool ok = vt.size() == gr.size() && ga.numberOfTerms() == gr.size() && ga.getMinimum() == -1 && ga.getMaximum() == 2 && ga.getName() == g.getName() && (ga.getAggregation() ? ga.getAggregation()->className() : "") == agg && (!ga.getAggregation() || ga.getAggregation() != g.getAggregation());
    for (size_t i = 0; ok && i < vt.size(); ++i) ok = vt[i].getTerm() == o.getTerm((size_t) gr[i].first) && vf::near(vt[i].getDegree(), gr[i].second) && ga.getTerm(i).getTerm() == vt[i].getTerm() && vf::near(ga.getTerm(i).getDegree(), gr[i].second) && vt[i].getImplication() == &im;
    c.expect(ok, "grouped", [&] { return "grouping " + id + " gives " + ga.toString(); });
    // texts
    std::string fv; for (int i = 0; i < n; ++i) fv += signedTerm(d[(size_t) i], N[t[(size_t) i]], i == 0); c.expect(g.fuzzyValue() == fv, "fuzzy-value", [&] { return "the fuzzy value of " + id + " is <" + g.fuzzyValue() + ">, expected <" + fv + ">"; });
    std::string ov; bool plain = true; for (int k = 0; k < 3; ++k) { double w = 0; for (auto& x : gr) if (x.first == k) w = 0 + x.second; ov += signedTerm(w, N[k], k == 0); } for (auto& x : gr) if (std::fabs(std::fabs(x.second * 1000) - std::floor(std::fabs(x.second * 1000)) - 0.5) < 1e-6) plain = false; if (plain) c.expect(o.fuzzyOutputValue() == ov, "fuzzy-output-value", [&] { return "the fuzzy output value of " + id + " is <" + o.fuzzyOutputValue() + ">, expected <" + ov + ">"; });
    c.expect(g.numberOfTerms() == (size_t) n && g.isEmpty() == (n == 0), "size", [&] { return std::string("the number of activated terms is wrong"); });
    // membership
    if (!agg.empty() || n == 0) for (double x : {-1.0, 0.3, 1.2, 2.5}) { double w = 0; for (int i = 0; i < n; ++i) { ref::Term q("Triangle", "", {t[(size_t) i] - 1.0, (double) t[(size_t) i], t[(size_t) i] + 1.0}, 0.9); w = snorm(agg.empty() ? "Maximum" : agg, w, mn(mu(q, x), d[(size_t) i])); } double v = g.membership(x); c.expect(vf::near(v, w), "aggregated-membership", [&] { return vf::cat(id, " at ", x, " is ", v, ", expected ", w); }); }
    c.expect(nan_(g.membership(NaN)), "membership-nan", [&] { return std::string("the membership of nan is not nan"); });
    // a copy is independent; removing a term returns it
    F::Aggregated copy(g), assigned("z"); assigned.addTerm(&foreign, 0.3, 0); assigned = g; std::unique_ptr<F::Aggregated> cl(g.clone());
    for (F::Aggregated* a : {&copy, &assigned, cl.get()}) { c.expect(a->fuzzyValue() == fv && a->getName() == g.getName() && a->range() == 3 && (n == 0 || a->getAggregation() != g.getAggregation() || agg.empty()), "copy", [&] { return "a copy of " + id + " differs"; }); }
    if (n) { int r = c.choose(n); F::Activated rem = g.removeTerm((size_t) r); bool good = rem.getTerm() == o.getTerm((size_t) t[(size_t) r]) && (rem.getDegree() == d[(size_t) r] || (nan_(rem.getDegree()) && nan_(d[(size_t) r]))) && g.numberOfTerms() == (size_t) n - 1; for (int i = 0, j = 0; good && i < n; ++i) if (i != r) good = g.getTerm((size_t) j++).getTerm() == o.getTerm((size_t) t[(size_t) i]); c.expect(good && copy.numberOfTerms() == (size_t) n, "remove", [&] { return "removing a term of " + id + " is wrong"; }); }
    o.clear(); c.expect(g.isEmpty() && cl->numberOfTerms() == (size_t) n && nan_(o.getValue()), "clear", [&] { return std::string("clearing the output variable is wrong"); });
    c.state(fv + agg);
}
VF_SUITE(variables) {     // fuzzification and highest membership of variables, for all pairs/triples of terms
    static std::vector<ref::Term> z = termZoo(); int n = c.choose(4); std::vector<ref::Term> t; for (int i = 0; i < n; ++i) { int k = n == 3 && !c.thorough ? 3 * c.choose((int) z.size() / 3) : c.choose((int) z.size()); if (i == 0) c.begin(); t.push_back(z[(size_t) k]); t.back().name = vf::cat("t", i); t.back().h = i == 1 ? 0.8 : 1.0; } if (!n) c.begin();
    F::InputVariable v("v", 0, 1); for (auto& x : t) v.addTerm(bld::term(x)); c.step();
    int bad = n && n < 3 ? c.choose(n + 1) - 1 : -1, how = bad < 0 ? 0 : c.choose(3);     // a term that cannot be evaluated is of undefined membership
    if (bad >= 0) { delete v.terms()[(size_t) bad]; std::string name = vf::cat("t", bad); v.terms()[(size_t) bad] = how == 0 ? (F::Term*) new F::Function(name, "x +") : how == 1 ? (F::Term*) new F::Linear(name, DV(2, 1.0)) : new F::Discrete(name); }
    for (double x : {0.0, 0.2, 0.37, 0.5, 0.9, 1.5, (double) NaN}) {
        DV y; for (auto& k : t) y.push_back(mu(k, x)); if (bad >= 0) y[(size_t) bad] = NaN; std::vector<F::Activated> a = v.activations(x); bool ok = a.size() == (size_t) n; for (int i = 0; ok && i < n; ++i) ok = a[(size_t) i].getTerm() == v.getTerm((size_t) i) && vf::near(a[(size_t) i].getDegree(), y[(size_t) i]); c.expect(ok, "activations", [&] { return vf::cat("the activations at ", x, " are wrong"); });
        if (ok) for (int i = 0; i < n; ++i) y[(size_t) i] = a[(size_t) i].getDegree();     // rounding decides about ties
        std::string fv; bool sharp = true; for (int i = 0; i < n; ++i) { fv += signedTerm(a[(size_t) i].getDegree(), t[(size_t) i].name, i == 0); double m = std::fabs(y[(size_t) i]) * 1000; if (std::fabs(m - std::floor(m) - 0.5) < 1e-6) sharp = false; }
        v.setValue(x); if (sharp) c.expect(v.fuzzify(x) == fv && v.fuzzyInputValue() == fv, "fuzzify", [&] { return vf::cat("the fuzzy value at ", x, " is <", v.fuzzify(x), ">, expected <", fv, ">"); });
        double best = 0; int bi = -1; bool tie = false; for (int i = 0; i < n; ++i) { double d = y[(size_t) i] - best; if (d != 0 && std::fabs(d) <= 1e-9) tie = true; else if (d > 0) tie = false; if (d > 0) { best = y[(size_t) i]; bi = i; } }
        double yh = -7; F::Term* h = v.highestMembership(x, &yh); if (!tie) { c.expect(bi < 0 ? h == 0 && nan_(yh) : h == v.getTerm((size_t) bi) && vf::near(yh, best), "highest-membership", [&] { return vf::cat("the term of highest membership at ", x, " is ", h ? h->getName() : "none", ", expected ", bi); });
            std::vector<F::Activated> m = v.maxActivations(x); size_t cnt = 0; for (int i = 0; i < n; ++i) if (bi >= 0 && y[(size_t) i] == best) ++cnt; bool good = m.size() == cnt; for (auto& q : m) good = good && vf::near(q.getDegree(), best); c.expect(good, "max-activations", [&] { return vf::cat("the maximal activations at ", x, " are wrong"); }); }
    }
}
VF_SUITE(sorting) {     // sorting the terms of a variable orders them by centroid, keeps every term
    std::vector<ref::Term> z = {T("Triangle", "t1", {0, 0.1, 0.2}), T("Triangle", "t5", {0.4, 0.5, 0.6}), T("Rectangle", "t9", {0.8, 1}), T("Gaussian", "t3", {0.3, 0.05}), T("Constant", "k7", {0.7}), T("Ramp", "r", {0, 1}), T("Constant", "kn", {-1}), T("Function", "bad", {})}; const double key[] = {0.1, 0.5, 0.9, 0.3, 0.7, 2.0 / 3, -1, INF};     // the last cannot be evaluated
    int n = 1 + c.choose(4); std::vector<int> ix; for (int i = 0; i < n; ++i) { int k = c.choose(8); for (int j : ix) if (j == k) c.prune(); ix.push_back(k); if (i == 0) c.begin(); }
    F::Variable v("v", 0, 1); std::vector<F::Term*> p; for (int k : ix) { v.addTerm(k == 7 ? new F::Function("bad", "x +") : bld::term(z[(size_t) k])); p.push_back(v.terms().back()); } v.sort(); c.step();
    std::vector<int> o(ix); std::sort(o.begin(), o.end(), [&](int a, int b) { return key[a] < key[b]; }); bool ok = v.numberOfTerms() == (size_t) n; for (int i = 0; ok && i < n; ++i) ok = v.getTerm((size_t) i)->getName() == z[(size_t) o[(size_t) i]].name && std::count(p.begin(), p.end(), v.getTerm((size_t) i)) == 1;
    c.expect(ok, "sort", [&] { return "sorting gives " + v.fuzzify(0.5); });
}
