// C20: comparisons, number and text utilities follow their definitions.
#include <fuzzylite/Headers.h>
#include <algorithm>
#include <cctype>
#include <limits>
#include "vf.h"
namespace F = fuzzylite;
namespace {
typedef std::vector<double> DV; typedef std::vector<std::string> SV; typedef F::Op Op;
const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
bool nan_(double x) { return x != x; }
struct Settings { double m; int d; std::ios_base::fmtflags f; Settings() : m(F::fuzzylite::macheps()), d(F::fuzzylite::decimals()), f(F::fuzzylite::scalarFormat()) {} ~Settings() { F::fuzzylite::setMachEps(m); F::fuzzylite::setDecimals(d); F::fuzzylite::setScalarFormat(f); } };
bool same(double a, double b) { return a == b || (nan_(a) && nan_(b)); }
// all strings of up to n characters of an alphabet
std::string word(vf::Ctx& c, const SV& alphabet, int n) { std::string s; int k = c.choose(n + 1); for (int i = 0; i < k; ++i) { s += c.pick(alphabet); if (i == 1) c.begin(); } c.begin(); return s; }
std::string show(const SV& v) { std::string s; for (auto& x : v) s += "<" + x + ">"; return s; }
bool space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\v' || ch == '\f'; }
// grammar of numbers: blanks sign digits [. digits] [e sign digits], or nan, inf, -inf exactly
bool number(const std::string& s, double* v) {
    if (s == "nan") { *v = NaN; return true; } if (s == "inf") { *v = INF; return true; } if (s == "-inf") { *v = -INF; return true; }
    size_t i = 0; while (i < s.size() && space(s[i])) ++i; size_t b = i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; int d = 0; while (i < s.size() && isdigit((unsigned char) s[i])) { ++i; ++d; } if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char) s[i])) { ++i; ++d; } } if (!d) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; int e = 0; while (i < s.size() && isdigit((unsigned char) s[i])) { ++i; ++e; } if (!e) return false; }
    if (i != s.size()) return false; *v = strtod(s.c_str() + b, 0); return true;
}
}
VF_SUITE(compare) {     // all pairs of values under several tolerances, given or set for the library
    static const DV E = {1e-6, 0.1, 0, 1e-12}; double eps = c.pick(E); bool given = c.flip();
    DV v = {0, -0.0, 1, -1, 0.5, eps, -eps, eps / 2, eps * 0.999, eps * 1.001, 1 + eps / 2, 1 + eps * 1.5, 1 - eps / 2, 1 - eps * 1.5, 1e300, -1e300, 1e-300, INF, -INF, NaN}; double a = c.pick(v), b = c.pick(v); c.begin();
    Settings keep; if (!given) F::fuzzylite::setMachEps(eps); bool eq = a == b || std::fabs(a - b) < eps || (nan_(a) && nan_(b)), lt = !eq && a < b, gt = !eq && a > b, le = eq || a < b, ge = eq || a > b; bool r[6];
    if (given) { r[0] = Op::isEq(a, b, eps); r[1] = Op::isLt(a, b, eps); r[2] = Op::isGt(a, b, eps); r[3] = Op::isLE(a, b, eps); r[4] = Op::isGE(a, b, eps); r[5] = Op::isClose(a, b, eps); } else { r[0] = Op::isEq(a, b); r[1] = Op::isLt(a, b); r[2] = Op::isGt(a, b); r[3] = Op::isLE(a, b); r[4] = Op::isGE(a, b); r[5] = Op::isClose(a, b); }
    c.step(6); bool w[6] = {eq, lt, gt, le, ge, eq}; static const char* N[] = {"equal", "less", "greater", "less or equal", "greater or equal", "close"}; for (int i = 0; i < 6; ++i) c.expect(r[i] == w[i], "comparison", [&] { return vf::cat(a, " is ", r[i] ? "" : "not ", N[i], " to ", b, " with tolerance ", eps); });
    if (!given) {
        auto num = [&](double got, bool want, const char* n) { c.expect(got == (want ? 1.0 : 0.0), "comparison-number", [&] { return vf::cat(n, "(", a, ", ", b, ") is ", got, " with tolerance ", eps); }); };
        num(Op::eq(a, b), eq, "eq"); num(Op::neq(a, b), !eq, "neq"); num(Op::lt(a, b), lt, "lt"); num(Op::le(a, b), le, "le"); num(Op::gt(a, b), gt, "gt"); num(Op::ge(a, b), ge, "ge"); auto one = [&](double x) { return x == 1 || std::fabs(x - 1) < eps; }; num(Op::logicalAnd(a, b), one(a) && one(b), "and"); num(Op::logicalOr(a, b), one(a) || one(b), "or"); num(Op::logicalNot(a), !one(a), "not");
        for (int g = 0; g < 2; ++g) for (int l = 0; l < 2; ++l) for (double x : {0.0, 1.0, 0.5, eps, INF, (double) NaN}) { bool q = x == a || std::fabs(x - a) < eps || (nan_(x) && nan_(a)), p = x == b || std::fabs(x - b) < eps || (nan_(x) && nan_(b)); bool want = (g ? q || x > a : !q && x > a) && (l ? p || x < b : !p && x < b); c.expect(Op::in(x, a, b, g, l) == want, "interval", [&] { return vf::cat(x, " is ", want ? "not " : "", "in ", g ? "[" : "(", a, ", ", b, l ? "]" : ")", " with tolerance ", eps); }); }
        for (double x : {-2.0, 0.0, 0.3, 1.0, 2.0, INF, -INF, (double) NaN}) { double want = x > b ? b : x < a ? a : x; c.expect(same(Op::bound(x, a, b), want), "bound", [&] { return vf::cat(x, " bounded by ", a, " and ", b, " is ", Op::bound(x, a, b)); });
            double sc = (b - a) / (3 - (-1)) * (x - (-1)) + a; c.expect(vf::near(Op::scale(x, -1, 3, a, b), sc) && vf::near(Op::scale(x, -1, 3, a, b, false), sc), "scale", [&] { return vf::cat(x, " scaled from -1..3 to ", a, "..", b, " is ", Op::scale(x, -1, 3, a, b)); }); double bd = sc > b ? b : sc < a ? a : sc; c.expect(vf::near(Op::scale(x, -1, 3, a, b, true), bd), "scale-bounded", [&] { return vf::cat(x, " scaled from -1..3 to ", a, "..", b, " and bounded is ", Op::scale(x, -1, 3, a, b, true)); }); }
        c.expect(same(Op::min(a, b), nan_(a) || nan_(b) ? NaN : a < b ? a : b) && same(Op::max(a, b), nan_(a) || nan_(b) ? NaN : a > b ? a : b), "min-max", [&] { return vf::cat("of ", a, " and ", b, " min is ", Op::min(a, b), " and max is ", Op::max(a, b)); });
        c.expect(same(Op::add(a, b), a + b) && same(Op::subtract(a, b), a - b) && same(Op::multiply(a, b), a * b) && same(Op::divide(a, b), a / b) && same(Op::modulo(a, b), std::fmod(a, b)) && same(Op::negate(a), -a), "arithmetic", [&] { return vf::cat("on ", a, " and ", b); });
        c.expect(Op::isNaN(a) == nan_(a) && Op::isInf(a) == std::isinf(a) && Op::isFinite(a) == std::isfinite(a), "classes", [&] { return vf::cat("of ", a); }); c.step(50);
    }
    c.state(vf::cat(eps, given, a, b)); c.describe([&] { return vf::cat(a, " and ", b, " with tolerance ", eps); });
}
VF_SUITE(rounding) {     // numbers in steps of an eighth, and large ones
    int k = c.choose(401); double base = c.pick(DV{0, 1e6, -1e6, 1e15}); c.begin(); double x = base + (k - 200) / 8.0; double r = Op::round(x); double want = x >= 0 ? std::floor(x + 0.5) : -std::floor(-x + 0.5); c.step(); c.expect(same(r, want), "round", [&] { return vf::cat(x, " rounds to ", r); }); c.state(vf::num(x));
}
VF_SUITE(counting) {     // counters of up to 3 (thorough: 4) digits with all bounds run through every combination once, the last digit fastest
    int n = 1 + c.choose(c.thorough ? 4 : 3); std::vector<int> lo, hi, x; for (int i = 0; i < n; ++i) { lo.push_back(c.choose(3) - 1); hi.push_back(lo.back() + c.choose(3)); if (i == 0) c.begin(); } x = lo; std::vector<int> m = lo; std::string err; int count = 0;
    while (err.empty()) { bool more = Op::increment(x, lo, hi); c.step(); bool want = false; for (int i = n - 1; i >= 0; --i) { if (m[(size_t) i] < hi[(size_t) i]) { ++m[(size_t) i]; want = true; break; } m[(size_t) i] = lo[(size_t) i]; } ++count; if (more != want) err = vf::cat("step ", count, more ? " says there are more" : " says there are no more"); else if (x != m) err = vf::cat("step ", count, " gives another combination"); if (!want) break; }
    int p = c.choose(n); x = m = lo; bool more = Op::increment(x, p, lo, hi), want = false; for (int i = p; i >= 0; --i) { if (m[(size_t) i] < hi[(size_t) i]) { ++m[(size_t) i]; want = true; break; } m[(size_t) i] = lo[(size_t) i]; } if (err.empty() && (more != want || x != m)) err = vf::cat("incrementing position ", p);
    std::string what; for (int i = 0; i < n; ++i) what += vf::cat(lo[(size_t) i], "..", hi[(size_t) i], " "); c.checks((vf::u64) count * 2); c.expect(err.empty(), "increment", [&] { return "digits " + what + ": " + err; }); std::vector<int> none; c.expect(!Op::increment(none, none, none), "increment", [&] { return std::string("a counter without digits increments"); }); c.state(what + vf::cat(p)); c.describe([&] { return what; });
}
VF_SUITE(statistics) {     // all vectors of up to 4 (thorough: 6) values; midpoints of all small ranges
    static const DV V = {0, 1, -2.5, 4, 1e6, INF, NaN}; int n = c.choose(c.thorough ? 7 : 5); DV v; for (int i = 0; i < n; ++i) { v.push_back(c.pick(V)); if (i == 1) c.begin(); } c.begin(); double s = 0; for (double x : v) s += x; double mean = n ? s / n : NaN, var = 0; for (double x : v) var += (x - mean) * (x - mean); var = n == 0 ? NaN : n == 1 ? 0 : var / (n - 1); auto show = [&] { std::string t; for (double x : v) t += vf::num(x) + " "; return t; };
    c.step(6); c.expect(vf::near(Op::sum(v), s) && vf::near(Op::mean(v), mean), "mean", [&] { return vf::cat("of ", show(), "sum is ", Op::sum(v), ", mean is ", Op::mean(v)); }); c.expect(vf::near(Op::variance(v), var) && vf::near(Op::standardDeviation(v), std::sqrt(var)) && vf::near(Op::variance(v, mean), var) && vf::near(Op::standardDeviation(v, mean), std::sqrt(var)), "deviation", [&] { return vf::cat("of ", show(), "variance is ", Op::variance(v), ", deviation is ", Op::standardDeviation(v)); }); if (n > 1) { double o = 0; for (double x : v) o += (x - 1) * (x - 1); c.expect(vf::near(Op::variance(v, 1), o / (n - 1)), "deviation", [&] { return vf::cat("of ", show(), "about 1 the variance is ", Op::variance(v, 1)); }); }
    std::string j; for (size_t i = 0; i < v.size(); ++i) j += (i ? ", " : "") + F::Op::str(v[i]); c.expect(Op::join(v, ", ") == j, "join-numbers", [&] { return "of " + show() + "is " + Op::join(v, ", "); }); if (n == 2 && std::isfinite(v[0]) && std::isfinite(v[1])) for (int r = -1; r < 8; ++r) { DV m = Op::midpoints(v[0], v[1], r), w; for (int i = 0; i < r; ++i) w.push_back(v[0] + (v[1] - v[0]) * (2 * i + 1) / (2.0 * r)); bool ok = m.size() == w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = vf::near(m[i], w[i]); c.expect(ok, "midpoints", [&] { return vf::cat(r, " midpoints between ", v[0], " and ", v[1]); }); } c.state(show()); c.describe(show);
}
VF_SUITE(splitting) {     // all texts of up to 6 (thorough: 8) letters with all delimiters, both ways; and joining
    static const SV A = {"a", ",", "b"}; static const SV D = {",", "a", ",a", ",,", "ab", "", "abab"}; std::string s = word(c, A, c.thorough ? 8 : 6); const std::string& d = c.pick(D); bool ignore = c.flip(); SV want; if (s.empty() || d.empty()) want.push_back(s); else { std::string tok; for (size_t i = 0; i <= s.size();) { if (i == s.size() || s.compare(i, d.size(), d) == 0) { if (!(tok.empty() && ignore)) want.push_back(tok); tok.clear(); if (i == s.size()) break; i += d.size(); } else tok += s[i++]; } }
    SV got = Op::split(s, d, ignore); c.step(); c.expect(got == want, "split", [&] { return "<" + s + "> split at <" + d + "> gives " + show(got) + ", expected " + show(want); }); if (ignore) c.expect(Op::split(s, d) == want, "split", [&] { return "<" + s + "> split at <" + d + ">: empty ones are not ignored by default"; }); std::string j; for (size_t i = 0; i < want.size(); ++i) j += (i ? d : "") + want[i]; c.expect(Op::join(got, d) == j, "join", [&] { return show(got) + " joined with <" + d + ">"; }); if (!ignore && !d.empty()) c.expect(Op::join(got, d) == s, "split-join", [&] { return "<" + s + "> split and joined with <" + d + "> is <" + Op::join(got, d) + ">"; }); c.state(s + "|" + d + (ignore ? "i" : "")); c.describe([&] { return "<" + s + "> at <" + d + ">"; });
}
VF_SUITE(replacing) {     // all texts of up to 6 (thorough: 8) letters, what is sought, and what replaces it
    static const SV A = {"a", "b"}; static const SV R = {"", "x", "a", "aba", "bb"}; std::string s = word(c, A, c.thorough ? 9 : 7); std::string f; { int k = c.choose(4); for (int i = 0; i < k; ++i) f += c.pick(A); } const std::string& r = c.pick(R); bool all = c.flip(); std::string want; bool done = f.empty(); for (size_t i = 0; i < s.size();) if (!done && s.compare(i, f.size(), f) == 0) { want += r; i += f.size(); done = !all; } else want += s[i++];
    std::string got = Op::findReplace(s, f, r, all), two = all ? Op::replaceAll(s, f, r) : Op::replaceFirst(s, f, r); c.step(2); c.expect(got == want && two == want, "replace", [&] { return "replacing " + std::string(all ? "all" : "the first") + " <" + f + "> by <" + r + "> in <" + s + "> gives <" + got + "> and <" + two + ">, expected <" + want + ">"; }); if (all) c.expect(Op::findReplace(s, f, r) == want, "replace", [&] { return std::string("not all are replaced by default"); }); c.state(s + "|" + f + "|" + r + (all ? "a" : "")); c.describe([&] { return "<" + f + "> by <" + r + "> in <" + s + ">"; });
}
namespace { int isVowel(int ch) { return ch == 'a' || ch == 'e'; } }
VF_SUITE(trimming) {     // all texts of up to 5 (thorough: 6) characters: trimmed, made a name, formatted
    static const SV A = {"a", " ", "\t", "\n", "\r", "_", ".", "9", "-", "#", "Z"}; std::string s = word(c, A, c.thorough ? 6 : 5); size_t b = 0, e = s.size(); while (b < e && space(s[b])) ++b; while (e > b && space(s[e - 1])) --e; std::string t = s.substr(b, e - b), got = Op::trim(s); c.step(3); c.expect(got == t, "trim", [&] { return "<" + s + "> trimmed is <" + got + ">"; });
    std::string name; for (char ch : s) if (isalnum((unsigned char) ch) || ch == '_' || ch == '.') name += ch; if (name.empty()) name = "_"; got = Op::validName(s); c.expect(got == name, "name", [&] { return "the name made of <" + s + "> is <" + got + ">, expected <" + name + ">"; }); c.expect(Op::validName(got) == got, "name", [&] { return "<" + got + "> is not a name"; });
    for (auto& r : {std::string(), std::string("++")}) { std::string f; for (char ch : s) f += isVowel(ch) ? std::string(1, ch) : r; got = Op::format(s, &isVowel, r); c.expect(got == f, "format", [&] { return "<" + s + "> formatted is <" + got + ">"; }); } c.state(s); c.describe([&] { return "<" + s + ">"; });
}
VF_SUITE(reading) {     // all texts of up to 5 (thorough: 6) characters as a number
    static const SV A = {"0", "1", "9", ".", "-", "+", "e", "E", " ", "n", "a", "i", "f", "x", "\n"}; std::string s = word(c, A, c.thorough ? 6 : 5); double v = 0, got = 0; bool ok = number(s, &v), threw = false; if (ok && std::isinf(v) && s.find('i') == std::string::npos) c.prune();   // beyond the range of double
    try { got = Op::toScalar(s); } catch (F::Exception&) { threw = true; } c.step(4); c.expect(threw == !ok && (threw || same(got, v)), "number", [&] { return "<" + s + "> is read as " + (threw ? "not a number" : vf::num(got)) + ", expected " + (ok ? vf::num(v) : "not a number"); });
    bool flag = !ok; got = Op::toScalar(s, -7, &flag); c.expect(flag == ok && same(got, ok ? v : -7), "number-alternative", [&] { return "<" + s + "> is read as " + vf::num(got) + (flag ? "" : " (not a number)"); }); c.expect(same(Op::toScalar(s, NaN), ok ? v : NaN), "number-alternative", [&] { return "<" + s + ">"; }); c.expect(Op::isNumeric(s) == ok, "numeric", [&] { return "<" + s + "> is " + (ok ? "not " : "") + "numeric"; }); if (ok) c.state(s); c.checks(); c.describe([&] { return "<" + s + ">"; });
}
VF_SUITE(lists) {     // all texts of up to 5 (thorough: 6) words and blanks as a list of numbers
    static const SV A = {"1", "-2.5", "nan", "-inf", "x", "1e", " ", "\t ", "\n", "1e3", "inf"}; std::string s = word(c, A, c.thorough ? 6 : 4); DV want, got; bool ok = true; std::istringstream is(s); std::string w; DV alt; while (is >> w) { double v; if (number(w, &v)) { want.push_back(v); alt.push_back(v); } else { ok = false; alt.push_back(9); } if (std::isinf(alt.back()) && w.find('i') == std::string::npos) c.prune(); } bool threw = false; try { got = Op::toScalars(s); } catch (F::Exception&) { threw = true; } auto eq = [](const DV& a, const DV& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) r = same(a[i], b[i]); return r; }; c.step(2); c.expect(threw == !ok && (threw || eq(got, want)), "numbers", [&] { return "<" + s + "> is read as " + (threw ? "not numbers" : vf::cat(got.size(), " numbers")); }); bool flag = !ok; got = Op::toScalars(s, 9, &flag); c.expect(flag == ok && eq(got, alt), "numbers-alternative", [&] { return "<" + s + ">"; }); c.state(s); c.describe([&] { return "<" + s + ">"; });
}
VF_SUITE(writing) {     // all numbers of a grid with all numbers of decimals, given or set, in three formats: what is written reads back to within half a unit
    static const DV V = {0, -0.0, 1, -1, 0.5, 0.25, 1.0 / 3, 2.0 / 3, 0.0005, 0.00049, 0.0015, 0.001, 0.00099, 1e-7, -0.0004, -0.0006, 0.9995, 0.99949, 9.9999999, 123456.789, -123456.7894, 1e9, 1e15, 1e-300, 3.14159265358979, NaN, INF, -INF}; double x = c.pick(V) * c.pick(DV{1, 3, 10, -1}); int d = c.choose(c.thorough ? 13 : 10) - 1; int way = c.choose(4); c.begin(); Settings keep; std::string got; std::ios_base::fmtflags f = std::ios_base::fixed; if (way == 0) { F::fuzzylite::setDecimals(d < 0 ? 3 : d); if (d < 0) d = 3; got = Op::str(x); } else { if (way == 2) f = std::ios_base::scientific; if (way == 3) f = std::ios_base::fmtflags(0); if (way == 2 && c.flip()) { F::fuzzylite::setScalarFormat(f); got = Op::str(x, d); } else got = Op::str(x, d, f); }
    std::string want; char b[400]; int p = d < 0 ? 6 : d; double y = d >= 0 && std::fabs(x) < std::pow(10.0, -d) ? 0 : x; snprintf(b, sizeof b, f == std::ios_base::fixed ? "%.*f" : f == std::ios_base::scientific ? "%.*e" : "%.*g", p, y == 0 && y != x ? 0.0 : y); want = nan_(x) ? "nan" : std::isinf(x) ? x < 0 ? "-inf" : "inf" : b; if (way == 3 && d == 0) { snprintf(b, sizeof b, "%.*g", 0, y); if (std::isfinite(x)) want = b; } if (x == 0 && std::signbit(x) && got != want && got == want.substr(1)) want = got;   // the sign of zero does not matter
    c.step(); c.expect(got == want, "write", [&] { return vf::cat(x, " with ", d, " decimals in format ", way, " is written <", got, ">, expected <", want, ">"); }); if (f == std::ios_base::fixed && std::isfinite(x) && y == x) c.expect(std::fabs(Op::toScalar(got) - x) <= 0.5000001 * std::pow(10.0, -p) + std::fabs(x) * 1e-15, "write-read", [&] { return vf::cat(x, " is written <", got, ">"); });
    c.expect(Op::str((int) 42) == "42" && Op::str((size_t) 7) == "7" && Op::str(-3) == "-3" && Op::join(3, "-", 1, 2, 3) == "1-2-3" && Op::join(1, "-", (const char*) "q") == "q" && Op::join(2, ",", (const char*) "a", "b") == "a,b", "write-others", [&] { return std::string("integers and texts"); }); c.state(vf::cat(x, d, way)); c.describe([&] { return vf::cat(x, " with ", d, " decimals: ", got); });
}
