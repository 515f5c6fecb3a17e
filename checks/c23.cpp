// C23: benchmarks evaluate exactly the requested values from a fresh start in every run, and report the errors and times that follow.
#include "common.h"
using namespace ref;
namespace F = fuzzylite;
namespace {
typedef std::vector<DV> Rows; typedef F::Benchmark B;
ref::Engine spec(int k) {
    ref::Engine e; e.name = vf::cat("e", k); ref::Block b; b.name = "b"; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "Minimum";
    auto lh = [](double lo, double hi) { return std::vector<ref::Term>{T("Ramp", "lo", {hi, lo}), T("Triangle", "mid", {lo, (lo + hi) / 2, hi}), T("Ramp", "hi", {lo, hi})}; };
    if (k == 0) {   // rows depend on the rows before
        e.in = {inVar("a", -1, 2, {T("Triangle", "lo", {-1, -0.5, 0}), T("Triangle", "hi", {1, 1.5, 2})})};
        e.out = {outVar("x", 0, 1, {T("Triangle", "lo", {0, 0.25, 0.5}), T("Triangle", "hi", {0.5, 0.75, 1})}, "Maximum", "Centroid", 37), outVar("y", 0, 4, {T("Triangle", "lo", {0, 0.25, 0.5})}, "Maximum", "Centroid", 20)};
        e.out[0].lockPrev = true; e.out[1].def = 0.125; b.rules = {R(P(0, 0), {C(0, 0)}), R(P(0, 1), {C(0, 1), C(1, 0)}, 0.5)};
    } else if (k == 1) {
        e.in = {inVar("a", 0, 10, lh(0, 10)), inVar("b", -0.5, 0.5, lh(-0.5, 0.5))}; e.in[1].lockRange = true;
        e.out = {outVar("x", -100, 100, {T("Constant", "k", {3}), T("Linear", "l", {1, -2, 0.5})}, "", "WeightedAverage")};
        b.rules = {R(And(P(0, 0), P(1, 2)), {C(0, 0)}), R(Or(P(0, 2), P(1, 0)), {C(0, 1)}), R(P(0, 1, {"very"}), {C(0, 1)}, 0.25)};
    } else {
        e.in = {inVar("a", 0, 1, lh(0, 1)), inVar("b", -2, 2, lh(-2, 2)), inVar("d", 5, 5.25, lh(5, 5.25))};
        e.out = {outVar("x", -100, 100, {T("Linear", "l", {1, 10, 100, 7})}, "", "WeightedSum"), outVar("y", 0, 1, {T("Constant", "k", {0.5}), T("Constant", "m", {-2})}, "", "WeightedAverage")};
        b.rules = {R(P(0, 0), {C(0, 0)}), R(And(P(1, 1), P(2, 2)), {C(1, 0)}), R(P(0, 2), {C(1, 1)}), R(P(2, 0), {C(0, 0), C(1, 0)})};
    }
    e.blocks = {b}; return e;
}
int root(int values, int n) { int r = 1; for (;;) { double p = 1; for (int i = 0; i < n; ++i) p *= r + 1; if (p > values) return r; ++r; } }
Rows grid(const ref::Engine& s, int values, bool all) {
    int n = (int) s.in.size(), m = all ? root(values, n) : std::max(1, values); Rows rows; std::vector<int> ix((size_t) n, 0);
    for (;;) { DV x; for (int i = 0; i < n; ++i) { const ref::Var& v = s.in[(size_t) i]; x.push_back(v.min + (m > 1 ? (v.max - v.min) * ix[(size_t) i] / (m - 1) : 0)); } rows.push_back(x); int i = n - 1; for (; i >= 0; --i) { if (++ix[(size_t) i] < m) break; ix[(size_t) i] = 0; } if (i < 0) break; }
    return rows;
}
bool rowsNear(const Rows& a, const Rows& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) if (!vf::near(a[i][j], b[i][j])) return false; } return true; }
std::string show(const Rows& r) { std::string s; for (size_t i = 0; i < r.size() && i < 6; ++i) { s += "("; for (double x : r[i]) s += vf::num(x) + " "; s += ")"; } return vf::cat(r.size(), " rows ", s); }
// what a run must give: inputs as given, outputs of the engine restarted before the first row
Rows obtained(const ref::Engine& s, const Rows& expected) { ref::State st = initial(s); Rows o; for (auto& x : expected) { DV r; for (size_t i = 0; i < s.in.size(); ++i) { setInput(s, st, i, x[i]); r.push_back(x[i]); } process(s, st); for (double y : st.out) r.push_back(y); o.push_back(r); } return o; }
std::string get(const std::vector<B::Result>& r, const std::string& k) { for (auto& x : r) if (x.first == k) return x.second; return "(none)"; }
}
VF_SUITE(grid) {     // every number of values in both scopes; what is prepared, and what a run obtains
    int k = c.choose(3); bool all = c.flip(); ref::Engine s = spec(k); int top = all ? c.thorough ? 1030 : 740 : k == 2 ? 7 : 33; int values = c.choose(top) - 1; c.begin(); std::unique_ptr<F::Engine> e(bld::engine(s)); B b("b", e.get()); Rows want = grid(s, values, all); b.prepare(values, all ? F::FldExporter::AllVariables : F::FldExporter::EachVariable); c.step(); c.checks(want.size());
    c.expect(rowsNear(b.getExpected(), want), "benchmark-grid", [&] { return vf::cat("engine ", k, ", ", values, all ? " values in all" : " values each", ": prepared ", show(b.getExpected()), ", expected ", show(want)); });
    if (want.size() < 80) { b.runOnce(); Rows o = obtained(s, want); c.step(want.size()); c.expect(rowsNear(b.getObtained(), o), "benchmark-run", [&] { return vf::cat("engine ", k, ", ", values, all ? " values in all" : " values each", ": obtained ", show(b.getObtained()), ", expected ", show(o)); }); } c.state(vf::cat(k, all, values)); c.describe([&] { return show(want); });
}
VF_SUITE(reading) {     // every text of up to 4 (thorough: 5) lines over an alphabet, with every limit of lines
    static const SV L = {"a x y", "0.5 1 2", " -0.25\t3  nan ", "", "# comment", "1", "1 2 3 4", "inf -inf 0", "0.5 one 2", "  # 1 2", "   "}; int n = c.choose(c.thorough ? 6 : 5); std::vector<int> ls; std::string text; for (int i = 0; i < n; ++i) { ls.push_back(c.choose((int) L.size())); text += L[(size_t) ls.back()] + (i + 1 < n || c.flip() ? "\n" : ""); if (i == 1) c.begin(); } c.begin(); int lim = c.choose(n + 3) - 1;
    Rows want; bool refuse = false; for (int i = 0; i < n && (lim < 0 || i < lim) && !refuse; ++i) { std::istringstream is(L[(size_t) ls[(size_t) i]]); std::string w; DV r; bool ok = true, any = false; while (is >> w) { if (!any && w[0] == '#') break; any = true; if (w == "nan") r.push_back(NaN); else if (w == "inf") r.push_back(INFINITY); else if (w == "-inf") r.push_back(-INFINITY); else { char* end; r.push_back(strtod(w.c_str(), &end)); if (*end) ok = false; } } if (!any) continue; if (!ok) { if (i > 0) refuse = true; continue; } want.push_back(r); }
    std::istringstream is(text); B b; b.setExpected(Rows(2, DV(1, 7))); bool threw = false; try { b.prepare(is, lim); } catch (F::Exception&) { threw = true; } c.step((vf::u64) n); c.expect(threw == refuse, "benchmark-reading", [&] { return "text <" + text + "> is " + (threw ? "refused" : "accepted"); }); if (!refuse) c.expect(rowsNear(b.getExpected(), want), "benchmark-reading", [&] { return vf::cat("text <", text, ">, limit ", lim, ": ", show(b.getExpected()), ", expected ", show(want)); }); c.state(text + vf::cat(lim)); c.describe([&] { return "<" + text + ">"; });
}
VF_SUITE(runs) {     // sequences of preparing, running, resetting, changing the engine: every run starts afresh, times accumulate
    int k = c.choose(3); ref::Engine s = spec(k); std::unique_ptr<F::Engine> e(bld::engine(s)); B b("b", e.get()); Rows exp, obt; size_t times = 0; std::string log; int depth = c.thorough ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(8); if (d == 0) c.begin(); std::string err; c.step();
        if (op < 2) { b.prepare(op ? 2 : 3, F::FldExporter::EachVariable); exp = grid(s, op ? 2 : 3, false); log += vf::cat("prepare ", op ? 2 : 3); }
        else if (op == 2) { int row = (int) s.in.size(); Rows r = {DV((size_t) row + 1, 0.5), DV((size_t) row, 1.5), DV((size_t) row + 2, -0.75)}; b.setExpected(r); exp = r; log += "expect three rows"; }
        else if (op == 3) { double t = b.runOnce(); obt = obtained(s, exp); ++times; if (!(t >= 0) || b.getTimes().empty() || b.getTimes().back() != t) err = "the time of the run is not kept"; log += "run once"; }
        else if (op == 4) { DV t = b.run(2); if (t.size() != 2) err = "two runs have not two times"; obt = obtained(s, exp); times += 2; log += "run twice"; }
        else if (op == 5) { b.reset(); obt.clear(); times = 0; log += "reset"; }
        else if (op == 6) { for (auto v : e->inputVariables()) v->setValue(0.3); e->process(); log += "process between"; }
        else { Rows r = exp; r.push_back(DV(s.in.size() - 1, 0.5)); b.setExpected(r); bool threw = false; try { b.runOnce(); } catch (F::Exception&) { threw = true; } if (!threw) err = "a row with too few values is run"; b.setExpected(exp); b.setObtained(obt); log += "run a short row"; }
        log += "; "; for (double t : b.getTimes()) if (!(t >= 0)) err = "a time is not a number"; if (err.empty() && b.getTimes().size() != times) err = vf::cat("there are ", b.getTimes().size(), " times, expected ", times); if (err.empty() && !rowsNear(b.getExpected(), exp)) err = "expected are " + show(b.getExpected()); if (err.empty() && !rowsNear(b.getObtained(), obt)) err = "obtained are " + show(b.getObtained()) + ", expected " + show(obt);
        std::vector<B::Result> r = b.results(); size_t rules = s.blocks[0].rules.size(); if (err.empty() && (get(r, "name") != "b" || get(r, "inputs") != vf::cat(s.in.size()) || get(r, "outputs") != vf::cat(s.out.size()) || get(r, "ruleBlocks") != "1" || get(r, "rules") != vf::cat(rules) || get(r, "runs") != vf::cat(times) || get(r, "evaluations") != vf::cat(exp.size()))) err = "the results count otherwise";
        c.checks(6); if (!err.empty()) { c.fail("benchmark-history", vf::cat("engine ", k, ": after ", log, err)); return; } c.state(vf::cat(k, times, exp.size(), obt.size(), d));
    } c.describe([&] { return log; });
}
VF_SUITE(errors) {     // all pairs of expected and obtained values of up to two outputs and rows: errors, their kinds, their mean square, per output and in all
    double tol = c.pick(DV{1e-6, 0.5}); DV V = {0, 1, 1 + tol / 2, 1 + tol * 3, -2, NaN, INFINITY, -INFINITY}; int outs = 1 + c.choose(2), rows = 1 + c.choose(2); if (outs * rows == 4 && !c.thorough) V = {1, 1 + tol / 2, 1 + tol * 3, NaN, INFINITY}; if (outs * rows == 4 && c.thorough) V = {1, 1 + tol / 2, 1 + tol * 3, -2, NaN, INFINITY};
    F::Engine e("e"); e.addInputVariable(new F::InputVariable("i", 0, 1)); for (int o = 0; o < outs; ++o) e.addOutputVariable(new F::OutputVariable(o ? "q" : "p", 0, o ? 4 : 1)); Rows x((size_t) rows), g((size_t) rows); int n = 0; for (int r = 0; r < rows; ++r) { x[(size_t) r].push_back(0.25); g[(size_t) r].push_back(0.75); for (int o = 0; o < outs; ++o) { x[(size_t) r].push_back(c.pick(V)); g[(size_t) r].push_back(c.pick(V)); if (n++ == 0) c.begin(); } }
    B b("b", &e, tol); b.setExpected(x); b.setObtained(g); c.step(12); std::string err; double mean = 0, nr = 0, w = 0; int all = 0, nf = 0, acc = 0; double sum = 0;
    for (int o = 0; o < outs; ++o) { int a1 = 0, n1 = 0, c1 = 0; double s1 = 0; for (int r = 0; r < rows; ++r) { double p = x[(size_t) r][(size_t) o + 1], q = g[(size_t) r][(size_t) o + 1]; bool eq = p == q || std::fabs(p - q) < tol || (nan_(p) && nan_(q)); if (eq) continue; ++a1; if (std::isfinite(p - q)) { ++c1; s1 += (p - q) * (p - q); } else ++n1; } F::OutputVariable* v = e.getOutputVariable((size_t) o); double m = c1 ? s1 / c1 : 0; if (b.allErrors(v) != a1 || b.nonFiniteErrors(v) != n1 || b.accuracyErrors(v) != c1 || !vf::near(b.meanSquaredError(v), m) || b.numberOfErrors(B::All, v) != a1 || b.numberOfErrors(B::NonFinite, v) != n1 || b.numberOfErrors(B::Accuracy, v) != c1) err += vf::cat("output ", o, " has ", b.allErrors(v), " errors, ", b.nonFiniteErrors(v), " not finite, ", b.accuracyErrors(v), " of accuracy, mean square ", b.meanSquaredError(v), "; expected ", a1, ", ", n1, ", ", c1, ", ", m, "; ");
        all += a1; nf += n1; acc += c1; sum += s1; double range = o ? 4 : 1; mean += range; nr += std::sqrt(m) / range; w += 1 / range; }
    double m = acc ? sum / acc : 0; if (b.allErrors() != all || b.nonFiniteErrors() != nf || b.accuracyErrors() != acc || !vf::near(b.meanSquaredError(), m) || b.numberOfErrors(B::All) != all || b.numberOfErrors(B::NonFinite) != nf || b.numberOfErrors(B::Accuracy) != acc) err += vf::cat("in all there are ", b.allErrors(), " errors, ", b.nonFiniteErrors(), " not finite, ", b.accuracyErrors(), " of accuracy, mean square ", b.meanSquaredError(), "; expected ", all, ", ", nf, ", ", acc, ", ", m, "; ");
    std::vector<B::Result> r = b.results(); if (get(r, "errors") != vf::cat(all) || get(r, "nfErrors") != vf::cat(nf) || get(r, "accErrors") != vf::cat(acc) || std::fabs(strtod(get(r, "rmse").c_str(), 0) - std::sqrt(m)) > 1e-6 * std::sqrt(m) + 1e-6 || std::fabs(strtod(get(r, "nrmse").c_str(), 0) - nr / w) > 1e-6 * nr / w + 1e-6 || get(r, "outputVariable") != (outs == 2 ? "p,q" : "p") || !vf::near(strtod(get(r, "range").c_str(), 0), mean / outs, 1e-3)) err += "the results report other errors; ";
    c.checks(20); c.expect(err.empty(), "benchmark-errors", [&] { return "expected " + show(x) + ", obtained " + show(g) + ": " + err; }); c.state(show(x) + show(g)); c.describe([&] { return show(x) + show(g); });
}
VF_SUITE(reports) {     // units of time, selected outputs, shapes, contents; headers match results; errors only when they can be computed
    static const B::TimeUnit U[] = {B::NanoSeconds, B::MicroSeconds, B::MilliSeconds, B::Seconds, B::Minutes, B::Hours}; static const double S[] = {1e-9, 1e-6, 1e-3, 1, 60, 3600}; static const char* UN[] = {"nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours"};
    int u = c.choose(6), have = c.choose(8), nt = c.choose(4), sel = c.choose(3); bool inc = c.flip(); c.begin(); F::Engine e("e"); e.addInputVariable(new F::InputVariable("i", 0, 1)); e.addOutputVariable(new F::OutputVariable("p", 0, 1)); e.addOutputVariable(new F::OutputVariable("q", 0, 4)); B b("name", &e); DV t; static const double TS[] = {1.5e12, 3.6e13, 7.2e12}; for (int i = 0; i < nt; ++i) t.push_back(TS[i]); b.setTimes(t);
    Rows full(1, DV(3, 1)), fewer(1, DV(1, 1)), two(2, DV(3, 1)); if (have == 1) { b.setExpected(full); b.setObtained(full); } if (have == 2) b.setExpected(full); if (have == 3) { b.setExpected(fewer); b.setObtained(full); } if (have == 4) { b.setExpected(two); b.setObtained(full); } if (have == 5) { b.setExpected(fewer); b.setObtained(fewer); } Rows ragged = full; ragged.push_back(DV(1, 1)); if (have == 6) { b.setExpected(ragged); b.setObtained(two); } if (have == 7) { b.setExpected(two); b.setObtained(ragged); } bool can = have == 1; std::string err; c.step(4);
    if (b.canComputeErrors() != can) err += "errors can be computed is wrong; "; if (!can && (b.allErrors() != -1 || b.nonFiniteErrors() != -1 || b.accuracyErrors() != -1 || !nan_(b.meanSquaredError()))) err += "errors are counted where they cannot be; ";
    F::OutputVariable* o = sel ? e.getOutputVariable((size_t) sel - 1) : 0; std::vector<B::Result> r = sel ? b.results(o, U[u], inc) : b.results(U[u], inc); SV want = {"library", "name", "inputs", "outputs", "ruleBlocks", "rules", "runs", "evaluations"}; if (can) for (auto x : {"outputVariable", "range", "tolerance", "errors", "nfErrors", "accErrors", "rmse", "nrmse"}) want.push_back(x); for (auto x : {"units", "sum(t)", "mean(t)", "sd(t)"}) want.push_back(x); if (inc) for (int i = 0; i < nt; ++i) want.push_back(vf::cat("t", i + 1)); SV got; for (auto& x : r) got.push_back(x.first); if (got != want) err += "the results are others; ";
    if (inc && b.header(nt, can) != want) err += "the header differs from the results; "; double sum = 0, m = 0, var = 0; for (double x : t) sum += x; m = nt ? sum / nt : NaN; for (double x : t) var += (x - m) * (x - m); double sd = nt == 0 ? NaN : nt == 1 ? 0 : std::sqrt(var / (nt - 1)), f = 1e-9 / S[u];
    auto close = [&](const std::string& s, double w) { return nan_(w) ? s == "nan" : std::fabs(strtod(s.c_str(), 0) - w) <= 0.00051 + std::fabs(w) * 1e-9 || (u == 0 && std::fabs(strtod(s.c_str(), 0) - w) <= 0.51); }; if (get(r, "units") != UN[u] || B::stringOf(U[u]) != UN[u]) err += "the unit is " + get(r, "units") + "; "; if (!close(get(r, "sum(t)"), sum * f) || !close(get(r, "mean(t)"), m * f) || !close(get(r, "sd(t)"), sd * f)) err += "the times are " + get(r, "sum(t)") + ", " + get(r, "mean(t)") + ", " + get(r, "sd(t)") + "; "; if (inc) for (int i = 0; i < nt; ++i) if (!close(get(r, vf::cat("t", i + 1)), t[(size_t) i] * f)) err += vf::cat("the time of run ", i + 1, " is ", get(r, vf::cat("t", i + 1)), ", expected ", t[(size_t) i] * f, "; ");
    if (can && get(r, "outputVariable") != (sel == 0 ? "p,q" : sel == 1 ? "p" : "q")) err += "the output variable is " + get(r, "outputVariable") + "; "; if (can && !vf::near(strtod(get(r, "range").c_str(), 0), sel == 0 ? 2.5 : sel == 1 ? 1 : 4, 1e-3)) err += "the range is " + get(r, "range") + "; ";
    for (int v = 0; v < 6; ++v) { if (!vf::near(B::convert(7, U[u], U[v]), 7 * S[u] / S[v])) err += vf::cat("7 ", UN[u], " are ", B::convert(7, U[u], U[v]), " ", UN[v], "; "); }
    for (auto& d : {std::string("\t"), std::string(", ")}) for (int sh = 0; sh < 2; ++sh) for (int ct = 1; ct <= 3; ++ct) { std::string w, h, y; for (size_t i = 0; i < r.size(); ++i) { if (sh) { w += (i ? "\n" : "") + (ct & 1 ? r[i].first : std::string()) + (ct == 3 ? d : "") + (ct & 2 ? r[i].second : ""); } else { h += (i ? d : "") + r[i].first; y += (i ? d : "") + r[i].second; } } if (!sh) w = ct == 1 ? h : ct == 2 ? y : h + "\n" + y; std::string g = b.format(r, sh ? B::Vertical : B::Horizontal, (B::TableContents) ct, d); if (g != w) err += "the table is <" + g + ">; "; }
    c.checks(40); c.expect(err.empty(), "benchmark-report", [&] { return vf::cat("unit ", UN[u], ", case ", have, ", ", nt, " times, selection ", sel, ": ", err); }); c.state(vf::cat(u, have, nt, sel, inc)); c.describe([&] { return b.format(r, B::Horizontal, B::HeaderAndBody); });
}
VF_SUITE(unset) { int k = c.choose(4); c.begin(); B b; bool threw = false; try { if (k == 0) b.prepare(3, F::FldExporter::EachVariable); if (k == 1) b.runOnce(); if (k == 2) b.results(); if (k == 3) b.run(2); } catch (F::Exception&) { threw = true; } c.step(); c.expect(threw && !b.canComputeErrors(), "benchmark-unset", [&] { return vf::cat("operation ", k, " without an engine"); }); c.state(vf::cat(k)); }
