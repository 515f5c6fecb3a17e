// C14: exported datasets contain exactly the requested grid or the given inputs, and what the engine makes of each row in order.
#include "common.h"
#include <fstream>
#include <sys/stat.h>
using namespace ref;
namespace F = fuzzylite;
namespace {
ref::Engine spec(int k) {
    ref::Engine e; e.name = vf::cat("e", k); ref::Block b; b.name = "b"; b.conj = "Minimum"; b.disj = "Maximum"; b.impl = "Minimum";
    auto lh = [](double lo, double hi) { return std::vector<ref::Term>{T("Ramp", "lo", {hi, lo}), T("Triangle", "mid", {lo, (lo + hi) / 2, hi}), T("Ramp", "hi", {lo, hi})}; };
    if (k == 0) {          // one input; the output keeps its last value when nothing is activated: rows depend on the rows before
        e.in = {inVar("a", -1, 2, {T("Triangle", "lo", {-1, -0.5, 0}), T("Triangle", "hi", {1, 1.5, 2})})};
        e.out = {outVar("x", 0, 1, {T("Triangle", "lo", {0, 0.25, 0.5}), T("Triangle", "hi", {0.5, 0.75, 1})}, "Maximum", "Centroid", 37), outVar("y", 0, 1, {T("Triangle", "lo", {0, 0.25, 0.5})}, "Maximum", "Centroid", 20)};
        e.out[0].lockPrev = true; e.out[1].def = 0.125; b.rules = {R(P(0, 0), {C(0, 0)}), R(P(0, 1), {C(0, 1), C(1, 0)}, 0.5)};
    } else if (k == 1) {   // two inputs, one of them locked; outputs computed from inputs
        e.in = {inVar("a", 0, 10, lh(0, 10)), inVar("b", -0.5, 0.5, lh(-0.5, 0.5))}; e.in[1].lockRange = true;
        e.out = {outVar("x", -100, 100, {T("Constant", "k", {3}), T("Linear", "l", {1, -2, 0.5})}, "", "WeightedAverage")};
        b.rules = {R(And(P(0, 0), P(1, 2)), {C(0, 0)}), R(Or(P(0, 2), P(1, 0)), {C(0, 1)}), R(P(0, 1, {"very"}), {C(0, 1)}, 0.25)};
    } else if (k == 2) {   // three inputs, two outputs
        e.in = {inVar("a", 0, 1, lh(0, 1)), inVar("b", -2, 2, lh(-2, 2)), inVar("d", 5, 5.25, lh(5, 5.25))};
        e.out = {outVar("x", -100, 100, {T("Linear", "l", {1, 10, 100, 7})}, "", "WeightedSum"), outVar("y", 0, 1, {T("Constant", "k", {0.5}), T("Constant", "m", {-2})}, "", "WeightedAverage")};
        b.rules = {R(P(0, 0), {C(0, 0)}), R(And(P(1, 1), P(2, 2)), {C(1, 0)}), R(P(0, 2), {C(1, 1)}), R(P(2, 0), {C(0, 0), C(1, 0)})};
    } else if (k == 4) {   // two inputs, one of them with a range of a single value
        e.in = {inVar("a", 0, 2, lh(0, 2)), inVar("b", 3, 3, {T("Triangle", "lo", {2, 3, 4})})}; e.out = {outVar("x", -100, 100, {T("Linear", "l", {1, 10, 100})}, "", "WeightedSum")}; b.rules = {R(P(0, 0), {C(0, 0)}), R(P(1, 0), {C(0, 0)}, 0.5)};
    } else {               // four inputs
        e.in = {inVar("a", 0, 1, lh(0, 1)), inVar("b", 0, 2, lh(0, 2)), inVar("d", 0, 3, lh(0, 3)), inVar("g", -4, 0, lh(-4, 0))};
        e.out = {outVar("x", -100, 100, {T("Linear", "l", {1, 10, 100, 7, -3})}, "", "WeightedSum")}; b.rules = {R(P(0, 0), {C(0, 0)}), R(And(P(1, 1), P(3, 2)), {C(0, 0)})};
    }
    e.blocks = {b}; return e;
}
SV split(const std::string& s, const std::string& sep) { SV r; size_t p = 0, q; while ((q = s.find(sep, p)) != std::string::npos) { r.push_back(s.substr(p, q - p)); p = q + sep.size(); } r.push_back(s.substr(p)); return r; }
SV lines(const std::string& t) { SV l = split(t, "\n"); if (!l.empty() && l.back().empty()) l.pop_back(); return l; }
// how a dataset has to look
struct Look { std::string sep = " "; bool head = true, in = true, out = true; int dec = 3; };
struct Dec { int was; explicit Dec(int d) : was(F::fuzzylite::decimals()) { F::fuzzylite::setDecimals(d); } ~Dec() { F::fuzzylite::setDecimals(was); } };
std::string header(const ref::Engine& s, const Look& k) { SV h; if (k.in) for (auto& v : s.in) h.push_back(v.name); if (k.out) for (auto& v : s.out) h.push_back(v.name); std::string r; for (size_t i = 0; i < h.size(); ++i) r += (i ? k.sep : "") + h[i]; return r; }
// a number written with so many decimals; the library writes magnitudes below one unit of the last decimal as zero
bool written(const std::string& t, double w, int dec) {
    if (nan_(w)) return t == "nan"; if (std::isinf(w)) return t == (w > 0 ? "inf" : "-inf");
    char* end = 0; double g = strtod(t.c_str(), &end); if (t.empty() || *end) return false; size_t dot = t.find('.'); if (dec > 0 && (dot == std::string::npos || (int) (t.size() - dot - 1) != dec)) return false;
    double u = std::pow(10.0, -dec); if (t.find_first_of("123456789") == std::string::npos) return std::fabs(w) < u * (1 + 1e-9) && t[0] != '-';
    return std::fabs(g - w) <= 0.5 * u + 1e-9 * (1 + std::fabs(w));
}
typedef std::vector<DV> Rows;
// rows: empty vector = blank line.  act: which inputs take the values of the row (the others keep their value)
std::string judge(vf::Ctx& c, const ref::Engine& s, ref::State& st, const std::string& text, const Look& k, bool head, const Rows& rows, const std::vector<bool>& act, const F::Engine* e) {
    SV l = lines(text); size_t p = 0; if (!text.empty() && text[text.size() - 1] != '\n') return "the last line is not ended";
    if (head) { if (l.empty() || l[0] != header(s, k)) return "the header is <" + (l.empty() ? "" : l[0]) + ">, expected <" + header(s, k) + ">"; p = 1; }
    if (l.size() != p + rows.size()) return vf::cat("there are ", l.size() - p, " rows, expected ", rows.size());
    for (size_t r = 0; r < rows.size(); ++r) {
        const std::string& t = l[p + r]; if (rows[r].empty()) { if (!t.empty()) return "a blank line is written as <" + t + ">"; continue; }
        DV x; for (size_t i = 0; i < s.in.size(); ++i) { double v = act[i] ? rows[r][i] : st.in[i]; setInput(s, st, i, v); x.push_back(v); }
        process(s, st); c.step(); SV f = split(t, k.sep); size_t n = (k.in ? s.in.size() : 0) + (k.out ? s.out.size() : 0);
        if (n == 0) { if (!t.empty()) return "a row without columns is written as <" + t + ">"; continue; }
        if (f.size() != n) return vf::cat("row ", r, " <", t, "> has ", f.size(), " columns, expected ", n);
        size_t q = 0; if (k.in) for (size_t i = 0; i < s.in.size(); ++i, ++q) { c.checks(); if (!written(f[q], x[i], k.dec)) return vf::cat("row ", r, " <", t, "> has ", f[q], " for input ", s.in[i].name, ", expected ", x[i]); }
        if (k.out) for (size_t i = 0; i < s.out.size(); ++i, ++q) { c.checks(); if (!written(f[q], st.out[i], k.dec)) return vf::cat("row ", r, " <", t, "> has ", f[q], " for output ", s.out[i].name, ", expected ", st.out[i]); }
    }
    for (size_t i = 0; i < s.in.size(); ++i) if (!vf::near(e->getInputVariable(i)->getValue(), st.in[i])) return vf::cat("afterwards input ", s.in[i].name, " has value ", e->getInputVariable(i)->getValue(), ", expected ", st.in[i]);
    for (size_t i = 0; i < s.out.size(); ++i) if (!vf::near(e->getOutputVariable(i)->getValue(), st.out[i])) return vf::cat("afterwards output ", s.out[i].name, " has value ", e->getOutputVariable(i)->getValue(), ", expected ", st.out[i]);
    return "";
}
int root(int values, int n) { int r = 1; for (;;) { double p = 1; for (int i = 0; i < n; ++i) p *= r + 1; if (p > values) return r; ++r; } }   // the largest number of values per variable within the total
Rows grid(const ref::Engine& s, int values, bool all, const std::vector<bool>& act) {
    int n = (int) s.in.size(), m = all ? root(values, n) : std::max(1, values); Rows rows; std::vector<int> ix((size_t) n, 0);
    for (;;) { DV x; for (int i = 0; i < n; ++i) { const ref::Var& v = s.in[(size_t) i]; x.push_back(v.min + (m > 1 ? (v.max - v.min) * ix[(size_t) i] / (m - 1) : 0)); } rows.push_back(x);
        int i = n - 1; for (; i >= 0; --i) { if (!act[(size_t) i]) continue; if (++ix[(size_t) i] < m) break; ix[(size_t) i] = 0; } if (i < 0) break; }
    return rows;
}
F::FldExporter exporter(const Look& k) { F::FldExporter x(k.sep); x.setExportHeader(k.head); x.setExportInputValues(k.in); x.setExportOutputValues(k.out); return x; }
std::string slurp(const std::string& p) { std::ifstream i(p.c_str()); std::ostringstream o; o << i.rdbuf(); return o.str(); }
}
VF_SUITE(grid) {     // every number of values, scope, subset of active variables
    int k = c.choose(5); ref::Engine s = spec(k); int n = (int) s.in.size(); std::vector<bool> act; for (int i = 0; i < n; ++i) act.push_back(!c.flip()); bool all = !c.flip();
    std::vector<int> N; if (all) { for (int i = -1; i <= 18; ++i) N.push_back(i); for (int i : {26, 27, 28, 63, 64, 65, 80, 81, 82, 100, 124, 125, 126, 215, 216, 217, 255, 256, 257, 342, 343, 344, 511, 512, 513, 624, 625, 626, 728, 729, 730, 999, 1000, 1001, 1023, 1024, 1025, 1295, 1296, 1330, 1331, 2400, 2401}) N.push_back(i); if (c.thorough) for (int i = 19; i < 1030; ++i) N.push_back(i); }
    else { int top = k == 0 ? 40 : n == 2 ? 20 : n == 3 ? 9 : 5; for (int i = -1; i <= top; ++i) N.push_back(i); }
    int values = N[(size_t) c.choose((int) N.size())]; c.begin();
    Guard e(bld::engine(s)); ref::State st = initial(s); bool some = std::count(act.begin(), act.end(), true) < n; int keep = some ? c.choose(4) : 0;   // what the unselected variables keep: a value, undefined, outside the range, infinite
    for (int i = 0; i < n; ++i) { double v = keep == 0 ? s.in[(size_t) i].min + 0.3 : keep == 1 ? NaN : keep == 2 ? s.in[(size_t) i].max + 1 + i : -INF; e->getInputVariable((size_t) i)->setValue(v); setInput(s, st, (size_t) i, v); }
    std::vector<F::InputVariable*> av; for (int i = 0; i < n; ++i) av.push_back(act[(size_t) i] ? e->getInputVariable((size_t) i) : 0); bool every = std::count(act.begin(), act.end(), true) == n; Look look; look.dec = 6; Dec d(6);
    F::FldExporter x; F::FldExporter::ScopeOfValues sc = all ? F::FldExporter::AllVariables : F::FldExporter::EachVariable; std::string t = every && values % 2 ? x.toString(e.e, values, sc) : x.toString(e.e, values, sc, av);
    c.describe([&] { return t; }); std::string m = judge(c, s, st, t, look, true, grid(s, values, all, act), act, e.e); c.expect(m.empty(), "grid", [&] { std::string a; for (bool b : act) a += b ? "+" : "-"; return vf::cat("engine ", k, ", ", values, " values for ", all ? "all" : "each", " variables ", a, ": ", m); });
    if (all && every && values > 0) { double p = (double) lines(t).size() - 1; c.expect(p <= values, "more-rows-than-asked", [&] { return vf::cat(values, " values were asked for, ", p, " rows are written"); }); }
    c.state(t);
}
VF_SUITE(looks) {     // all parts, separators, decimals, ways to write, one after the other on the same engine
    int k = c.choose(3); ref::Engine s = spec(k); Look look; look.head = !c.flip(); look.in = !c.flip(); look.out = !c.flip(); look.sep = c.pick(SV{" ", ",", ", ", "\t", ";;"}); look.dec = c.pick(std::vector<int>{3, 0, 1, 9}); int how = c.choose(7); c.begin(); Dec d(look.dec);
    Guard e(bld::engine(s)); ref::State st = initial(s); F::FldExporter x = exporter(look); std::unique_ptr<F::FldExporter> cl(x.clone()); std::vector<bool> act(s.in.size(), true);
    c.expect(cl->getSeparator() == look.sep && cl->exportsHeader() == look.head && cl->exportsInputValues() == look.in && cl->exportsOutputValues() == look.out && cl->name() == "FldExporter", "options", [&] { return std::string("the options of an exporter are not kept"); });
    c.expect(x.header(e.e) == header(s, look), "header", [&] { return "the header is <" + x.header(e.e) + ">"; });
    std::string log; Rows given; { Rows g = grid(s, 3, false, act); for (size_t i = g.size(); i-- > 0;) given.push_back(g[i]); } std::string src; for (auto& r : given) { for (double v : r) src += vf::num(v) + " "; src += "\n"; }
    for (int round = 0; round < 2; ++round) {
        std::string t, path = c.scratch + "/x.fld"; Rows rows; bool head = look.head;
        switch (how) {
            case 0: break;
            case 1: { t = cl->toString(e.e, 9); rows = grid(s, 9, true, act); break; }
            case 2: { std::ostringstream w; x.write(e.e, w, 2, F::FldExporter::EachVariable); t = w.str(); rows = grid(s, 2, false, act); break; }
            case 3: { x.toFile(path, e.e, 10); t = slurp(path); rows = grid(s, 10, true, act); break; }
            case 4: { std::istringstream r(src); t = x.toString(e.e, r); rows = given; break; }
            case 5: { std::istringstream r(src); x.toFile(path, e.e, r); t = slurp(path); rows = given; break; }
            case 6: { std::ostringstream w; for (auto& r : given) cl->write(e.e, w, r); t = w.str(); rows = given; head = false; break; }
        }
        if (how == 0) { const F::Exporter& base = x; t = base.toString(e.e); rows = grid(s, 1024, true, act); }
        std::string m = judge(c, s, st, t, look, head, rows, act, e.e); c.expect(m.empty(), "dataset", [&] { return vf::cat("engine ", k, " way ", how, " round ", round, ": ", m, "\n", t.substr(0, 300)); }); c.state(t);
        if (how == 3 || how == 5) { std::string old = t; bool refused = false; try { std::istringstream r(src); if (how == 3) x.toFile(c.scratch + "/none/x.fld", e.e, 4); else x.toFile(c.scratch + "/none/x.fld", e.e, r); } catch (F::Exception&) { refused = true; } c.expect(refused, "no-such-directory", [&] { return std::string("writing into a directory that does not exist is not refused"); }); }
    }
}
VF_SUITE(reading) {     // every dataset of up to 4 lines over an alphabet of lines
    static const char* const L[] = {"0.25 -0.25", "", "# c", "a b", "9\t0.125", "  7 0.5  ", "nan 0.1", "1 2 3", "-inf inf", "4", "4 x", "  # 1 2", " ", "11 -3", "1e1 .5", "1,2"};
    int n = c.choose(c.thorough ? 5 : 4), end = c.choose(3); if (end == 2 && n > 2 && !c.thorough) c.prune(); std::string src; std::vector<std::string> ls; for (int i = 0; i < n; ++i) { if (i == 1) c.begin(); ls.push_back(L[c.choose(n == 4 && c.thorough ? 13 : 16)]); src += ls.back() + (end == 1 && i + 1 == n ? "" : end == 2 ? "\r\n" : "\n"); } if (n < 2) c.begin();
    ref::Engine s = spec(1); Look look; look.dec = 6; Dec d(6);
    // what has to come out
    Rows rows; bool fails = false; int nline = 0; for (auto& l : ls) {
        ++nline; size_t a = l.find_first_not_of(" \t"); if (a != std::string::npos && l[a] == '#') continue;
        std::istringstream w(l); std::string tok; DV x; bool bad = false; while (w >> tok) { char* e; double v = strtod(tok.c_str(), &e); if (*e) bad = true; x.push_back(v); }
        if (bad) { if (nline == 1) continue; fails = true; break; }
        if (!x.empty() && x.size() < 2) { fails = true; break; } rows.push_back(x); }
    if (end == 1 && n && ls.back().empty() && !fails) rows.pop_back();   // an empty last line that is not ended is no line
    std::string shown; for (int how = 0; how < 3; ++how) {
        Guard e(bld::engine(s)); ref::State st = initial(s); F::FldExporter x; std::ostringstream w; std::istringstream r(src); std::string t, path = c.scratch + "/r.fld"; bool refused = false; std::string what;
        try { if (how == 0) x.write(e.e, w, r); else if (how == 1) t = x.toString(e.e, r); else x.toFile(path, e.e, r); } catch (F::Exception& ex) { refused = true; what = ex.getWhat(); }
        if (how == 0) t = w.str(); if (how == 2) t = slurp(path); shown = t;
        c.expect(refused == fails, "refused", [&] { return "reading <" + src + "> is " + (refused ? "refused: " + what : std::string("not refused")); });
        if (refused != fails) continue;
        if (fails && how) continue;   // only the stream keeps what was written before the failure
        std::string m = judge(c, s, st, t, look, true, rows, {true, true}, e.e); c.expect(m.empty(), "reading", [&] { return vf::cat("reading <", src, "> gives <", t, ">: ", m); });
    }
    c.describe([&] { return src + "->\n" + shown; }); c.state(shown);
}
VF_SUITE(rows) {     // single rows with too few, enough and too many values, and active variables
    static const double V[] = {0.3, NaN, -7, INF}; int k = c.choose(3); ref::Engine s = spec(k); int n = (int) s.in.size(); Guard e(bld::engine(s)); ref::State st = initial(s); int len = c.choose(n + 2); DV x; for (int i = 0; i < len; ++i) x.push_back(V[c.choose(4)]); c.begin();
    F::FldExporter ex; Look look; look.dec = 6; Dec d(6); std::ostringstream w; bool refused = false, want = len > 0 && len < n; try { ex.write(e.e, w, x); } catch (F::Exception&) { refused = true; }
    c.expect(refused == want, "row-refused", [&] { return vf::cat("a row of ", len, " values for ", n, " inputs is ", refused ? "" : "not ", "refused"); }); if (!refused) { std::string m = judge(c, s, st, w.str(), look, false, {x}, std::vector<bool>((size_t) n, true), e.e); c.expect(m.empty(), "row", [&] { return m; }); }
    else c.expect(w.str().empty() && nan_(e->getInputVariable((size_t) 0)->getValue()), "row-refused-changes", [&] { return std::string("a refused row changed the engine or wrote something"); });
    for (int wrong : {n - 1, n + 1}) { if (wrong < 0) continue; bool no = false; std::vector<F::InputVariable*> av((size_t) wrong, (F::InputVariable*) 0); try { ex.toString(e.e, 4, F::FldExporter::AllVariables, av); } catch (F::Exception&) { no = true; } c.expect(no, "active-variables", [&] { return std::string("a wrong number of active variables is accepted"); }); }
    c.state(w.str());
}
namespace {
// what is wrong with the plots of a script: for each chosen output those against (a, b) and (b, a), or along and across a, each under a name of its own, all arranged
std::string plotsOf(const ref::Engine& s, const std::string& text, int a, int b, int sub) {
    std::string t; for (char ch : text) if (ch != ' ' && ch != '\t') t += ch;
    std::map<std::string, int> want; const std::string A = s.in[(size_t) a].name, B = s.in[(size_t) b].name; std::set<std::string> names; size_t p = 0; int n = 0;
    for (size_t i = 0; i < s.out.size(); ++i) if (sub >> i & 1) { const std::string& o = s.out[i].name; if (a != b) { ++want[vf::cat(A, ",", B, ",", o)]; ++want[vf::cat(B, ",", A, ",", o)]; } else { ++want[vf::cat(A, ",", o, ",along")]; ++want[vf::cat(A, ",", o, ",across")]; } }
    while ((p = t.find("=ggplot(engine.df,aes(", p)) != std::string::npos) {
        size_t from = t.rfind('\n', p), end = t.find("\n\n", p), q = p + 22; std::string name = t.substr(from + 1, p - from - 1), k = t.substr(p, end - p), X = t.substr(q, t.find(',', q) - q), Y = t.substr(q + X.size() + 1, t.find(')', q) - q - X.size() - 1); p = end; ++n; if (!names.insert(name).second) return "two plots are called " + name;
        auto after = [&](const std::string& key) { size_t z = k.find(key); if (z == std::string::npos) return std::string("?"); z += key.size(); return k.substr(z, k.find_first_of(",)\n", z) - z); }; auto has = [&](const std::string& x) { return k.find(x) != std::string::npos; };
        std::string Z; bool ok; if (a != b) { Z = after("geom_tile(aes(fill="); ok = has("stat_contour(aes(x=" + X + ",y=" + Y + ",z=" + Z + "),color=\"co3\")") && has("scale_fill_gradient(low=\"lo1\",high=\"hi2\")") && has("ggtitle(\"(" + X + "," + Y + ")=" + Z + "\")"); --want[vf::cat(X, ",", Y, ",", Z)]; }
        else { bool across = has("coord_flip()"); Z = after("geom_line(aes(color="); ok = Z == Y && has("scale_color_gradient(low=\"lo1\",high=\"hi2\")") && has("ggtitle(\"" + (across ? Z + "vs" + X : X + "vs" + Z) + "\")"); --want[vf::cat(X, ",", Z, across ? ",across" : ",along")]; }
        if (!ok) return "the parts of plot " + name + " do not belong together";
    }
    for (auto& w : want) if (w.second) return vf::cat("the plot of ", w.first, w.second > 0 ? " is missing" : " is too many");
    size_t g = t.find("arrangeGrob("); if (g == std::string::npos) return "the plots are not arranged"; SV parts = split(t.substr(g + 12, t.find(')', g) - g - 12), ","); size_t used = 0; for (auto& x : parts) { if (names.count(x)) { ++used; names.erase(x); } else if (x.find('=') == std::string::npos) return "there is no plot " + x; } return used == (size_t) n ? "" : "a plot is not arranged";
}
}
VF_SUITE(rscript) {     // R scripts carry the engine and the dataset of the chosen variables
    int k = c.choose(3); ref::Engine s = spec(k); s.desc = c.flip() ? "about it" : ""; int n = (int) s.in.size(), a = c.choose(n), b = c.choose(n); bool all = !c.flip(); int how = c.choose(6); int values = how >= 4 ? 1024 : c.pick(std::vector<int>{1, 2, 5, 8, 27}); int sub = c.choose(1 << s.out.size()); if (!sub) c.prune(); if (how >= 4 && (a != 0 || b != 1 % n || !all || sub != (1 << s.out.size()) - 1)) c.prune(); c.begin();     // ways 4 and 5: the script of an engine
    Guard e(bld::engine(s)); ref::State st = initial(s); for (int i = 0; i < n; ++i) { e->getInputVariable((size_t) i)->setValue(0.2); setInput(s, st, (size_t) i, 0.2); }
    std::vector<F::OutputVariable*> os; for (size_t i = 0; i < s.out.size(); ++i) if (sub >> i & 1) os.push_back(e->getOutputVariable(i)); std::string fll = F::FllExporter().toString(e.e), t, path = c.scratch + "/x.R"; F::RScriptExporter x; x.setMinimumColor("lo1"); x.setMaximumColor("hi2"); x.setContourColor("co3");
    F::InputVariable *A = e->getInputVariable((size_t) a), *B = e->getInputVariable((size_t) b); F::FldExporter::ScopeOfValues sc = all ? F::FldExporter::AllVariables : F::FldExporter::EachVariable; std::vector<bool> act; for (int i = 0; i < n; ++i) act.push_back(i == a || i == b); Rows rows = grid(s, values, all, act); bool reader = how == 2 || how == 3; std::string src; if (reader) { act.assign((size_t) n, true); rows = grid(s, 2, false, act); src = "#\n"; for (auto& r : rows) { for (double v : r) src += vf::num(v) + " "; src += "\n"; } }
    std::istringstream in(src); if (how == 0) t = x.toString(e.e, A, B, values, sc, os); else if (how == 1) { x.toFile(path, e.e, A, B, values, sc, os); t = slurp(path); } else if (how == 2) t = x.toString(e.e, A, B, in, os); else if (how == 3) { x.toFile(path, e.e, A, B, in, os); t = slurp(path); } else if (how == 4) t = x.toString(e.e); else { const F::Exporter& ex = x; ex.toFile(path, e.e); t = slurp(path); }
    auto between = [&](const std::string& key) { size_t p = t.find(key + " = \""); if (p == std::string::npos) return std::string("?"); p += key.size() + 4; return t.substr(p, t.find('"', p) - p); };
    c.expect(between("engine.name") == s.name && between("engine.fll") == fll && (s.desc.empty() ? t.find("engine.description") == std::string::npos : between("engine.description") == s.desc), "r-engine", [&] { return std::string("the script does not carry the engine"); });
    Look look; std::string m = judge(c, s, st, between("engine.fld"), look, true, rows, act, e.e); c.expect(m.empty(), "r-dataset", [&] { return vf::cat("engine ", k, " variables ", a, ",", b, " ", values, " ", all, " way ", how, ": ", m); });
    // every chosen output is plotted against the chosen inputs, no other output is
    m = plotsOf(s, t, a, b, sub); c.expect(m.empty(), "r-plot", [&] { return m + "\n" + t.substr(t.find("ggplot(engine") == std::string::npos ? 0 : t.find("ggplot(engine")); });
    std::ostringstream im; x.writeScriptImportingDataFrame(e.e, im, A, B, "some/file.fld", os); std::string it = im.str(); t.swap(it); m = plotsOf(s, t, a, b, sub); c.expect(m.empty() && between("engine.fldFile") == "some/file.fld" && between("engine.name") == s.name && between("engine.fll") == fll, "r-import", [&] { return m + "\n" + t; }); t.swap(it);
    bool colours = t.find("low=\"lo1\", high=\"hi2\"") != std::string::npos && (a == b || t.find("color=\"co3\"") != std::string::npos); c.expect(colours, "r-colours", [&] { return std::string("the colours are not used"); }); c.state(t);
}
