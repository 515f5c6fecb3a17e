// C15: weighted defuzzifiers: Takagi-Sugeno and Tsukamoto values, inference of the type, grouping, errors.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
struct K { std::string cls; ref::Term t; int kind; };     // kind 0 Takagi-Sugeno, 1 Tsukamoto, 2 neither
std::vector<K> kinds() {
    std::vector<K> k; auto f = T("Function", "f", {}); f.formula = "2*x+i"; f.f = [](double x, const std::vector<double>& in, const std::vector<double>&) { return 2 * x + in[0]; };
    k.push_back({"Constant", T("Constant", "k", {0.7}), 0}); k.push_back({"Constant", T("Constant", "m", {-3}), 0}); k.push_back({"Linear", T("Linear", "l", {2, 0.25}), 0}); k.push_back({"Function", f, 0});
    k.push_back({"Ramp", T("Ramp", "r", {0.2, 0.9}), 1}); k.push_back({"Ramp", T("Ramp", "rd", {1, 0}, 0.8), 1}); k.push_back({"Sigmoid", T("Sigmoid", "s", {0.5, -8}), 1}); k.push_back({"SShape", T("SShape", "ss", {-1, 1}), 1}); k.push_back({"ZShape", T("ZShape", "z", {0, 4}, 2.0), 1}); k.push_back({"Concave", T("Concave", "c", {0.3, 0.8}), 1});
    k.push_back({"Triangle", T("Triangle", "t", {0, 0.5, 1}), 2}); k.push_back({"Gaussian", T("Gaussian", "g", {0.5, 0.2}), 2}); return k;
}
}
VF_SUITE(values) {     // all sequences of activated terms of one or mixed kinds, all types, aggregations and degrees
    static std::vector<K> Z = kinds(); bool avg = c.flip(); SV types = {"", "Automatic", "TakagiSugeno", "Tsukamoto"}; std::string type = c.pick(types); SV aggs = {"", "Maximum", "AlgebraicSum", "UnboundedSum"}; std::string agg = c.pick(aggs);
    int n = c.choose(4); std::vector<int> ix; DV deg; const double D[] = {0, 0.25, 0.6, 1}; for (int i = 0; i < n; ++i) { ix.push_back(c.choose(n > 2 && !c.thorough ? 8 : (int) Z.size())); if (i == 0) c.begin(); } if (!n) c.begin(); for (int i = 0; i < n; ++i) deg.push_back(c.pick(D));
    F::Engine e("e"); e.addInputVariable(new F::InputVariable("i", 0, 1)); e.getInputVariable(0)->setValue(0.5); std::vector<std::unique_ptr<F::Term>> own; std::map<int, F::Term*> made;
    F::Aggregated a("o", 0, 1, bld::snorm(agg)); DV in = {0.5}; F::Minimum imp;
    for (int i = 0; i < n; ++i) { if (!made[ix[(size_t) i]]) { own.emplace_back(bld::term(Z[(size_t) ix[(size_t) i]].t, &e)); own.back()->updateReference(&e); made[ix[(size_t) i]] = own.back().get(); } a.addTerm(made[ix[(size_t) i]], deg[(size_t) i], i % 2 ? &imp : 0); }
    std::unique_ptr<F::WeightedDefuzzifier> d(avg ? (F::WeightedDefuzzifier*) (type.empty() ? new F::WeightedAverage : new F::WeightedAverage(type)) : (F::WeightedDefuzzifier*) (type.empty() ? new F::WeightedSum : new F::WeightedSum(type)));
    if (n == 1) { std::unique_ptr<F::WeightedDefuzzifier> k(static_cast<F::WeightedDefuzzifier*>(d->clone())); d.swap(k); }
    c.expect(d->getTypeName() == (type.empty() ? "Automatic" : type) && d->className() == (avg ? "WeightedAverage" : "WeightedSum"), "type-name", [&] { return "the type is " + d->getTypeName(); });
    // reference
    std::vector<std::pair<int, double>> g; for (int i = 0; i < n; ++i) { size_t j = 0; while (j < g.size() && g[j].first != ix[(size_t) i]) ++j; if (j == g.size()) g.push_back({ix[(size_t) i], deg[(size_t) i]}); else g[j].second = agg.empty() ? g[j].second + deg[(size_t) i] : snorm(agg, g[j].second, deg[(size_t) i]); }
    bool raises = false; std::string use = type; double w = NaN;
    if (n && (type.empty() || type == "Automatic")) { std::set<int> ks; for (auto& x : g) ks.insert(Z[(size_t) x.first].kind); if (ks.size() != 1 || *ks.begin() == 2) raises = true; else use = *ks.begin() == 0 ? "TakagiSugeno" : "Tsukamoto"; }
    if (n && use == "Tsukamoto") for (auto& x : g) if (Z[(size_t) x.first].kind != 1) raises = true;
    if (n && !raises) { double s = 0, ws = 0; for (auto& x : g) { const ref::Term& t = Z[(size_t) x.first].t; double z = use == "Tsukamoto" ? tsukamoto(t, x.second) : mu(t, x.second, in); s += x.second * z; ws += x.second; } w = avg ? s / ws : s; }
    std::string id = d->className() + " " + type + " of " + a.toString(); c.describe([&] { return id; });
    double v = NaN; bool threw = false; c.step(); try { v = d->defuzzify(&a, 0, 1); } catch (F::Exception&) { threw = true; }
    c.expect(threw == raises, "raises", [&] { return id + (threw ? " raised an exception" : " raised no exception"); });
    if (!raises && !threw) { c.expect(vf::near(v, w, 1e-8), "weighted-value", [&] { return vf::cat(id, " is ", v, ", expected ", w); }); double v2 = d->defuzzify(&a, -100, NaN); c.expect(vf::near(v, v2), "range-matters", [&] { return id + " depends on the range"; }); c.state(vf::hashBytes(&v, sizeof v)); }
    // the inferred type of the set, of a variable with these terms, and of single terms
    if (n) {
        std::set<int> ks; for (auto& x : g) ks.insert(Z[(size_t) x.first].kind); int want = ks.size() == 1 ? *ks.begin() : -1; int gotA = -1, gotV = -1; F::Variable var("v", 0, 1);
        auto code = [](F::WeightedDefuzzifier::Type t) { return t == F::WeightedDefuzzifier::TakagiSugeno ? 0 : t == F::WeightedDefuzzifier::Tsukamoto ? 1 : 2; };
        for (auto& x : g) var.addTerm(made[x.first]->clone()); try { gotA = code(d->inferType(&a)); } catch (F::Exception&) {} try { gotV = code(d->inferType(&var)); } catch (F::Exception&) {}
        c.expect(gotA == want && gotV == want, "infer-type", [&] { return vf::cat("the type inferred for ", id, " is ", gotA, " and ", gotV, ", expected ", want); });
        for (auto& x : g) { F::Activated act(made[x.first], 0.5); c.expect(code(d->inferType(made[x.first])) == Z[(size_t) x.first].kind && code(d->inferType(&act)) == Z[(size_t) x.first].kind, "infer-term-type", [&] { return "the type inferred for " + Z[(size_t) x.first].cls + " is wrong"; }); }
    }
}
VF_SUITE(errors) {
    bool avg = c.flip(); int k = c.choose(5); c.begin(); std::unique_ptr<F::WeightedDefuzzifier> d(avg ? (F::WeightedDefuzzifier*) new F::WeightedAverage : (F::WeightedDefuzzifier*) new F::WeightedSum); bool threw = false; c.step();
    F::Constant t("t", 1); F::Activated act(&t, 1.0); F::Aggregated empty("e", 0, 1, 0);
    if (k == 0) { try { d->defuzzify(&t, 0, 1); } catch (F::Exception&) { threw = true; } } else if (k == 1) { try { d->defuzzify(&act, 0, 1); } catch (F::Exception&) { threw = true; } } else if (k == 2) { try { d->defuzzify(0, 0, 1); } catch (F::Exception&) { threw = true; } } else if (k == 3) { try { d->setType("Sugeno"); } catch (F::Exception&) { threw = true; } } else { threw = nan_(d->defuzzify(&empty, 0, 1)); }
    c.expect(threw, "error", [&] { return vf::cat("case ", k, " is not refused"); });
    F::WeightedAverage bad("nonsense"); c.expect(bad.getType() == F::WeightedDefuzzifier::Automatic, "bad-type", [&] { return std::string("an unknown type does not fall back to automatic"); });
    for (int i = 0; i < 3; ++i) { F::WeightedDefuzzifier::Type ty = (F::WeightedDefuzzifier::Type) i; d->setType(ty); std::string nm = d->getTypeName(); F::WeightedSum o; o.setType(nm); c.expect(o.getType() == ty && d->getType() == ty && F::WeightedDefuzzifier::typeName(ty) == nm, "type-round-trip", [&] { return "the type " + nm + " does not survive its name"; }); }
}
