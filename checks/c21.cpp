// C21: the command-line application does what its arguments and keys ask for, and its status tells whether it did.
#include "common.h"
#include <csignal>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace application {      // all that it includes is included above
#include "src/main.cpp"
}
namespace F = fuzzylite;
namespace {
typedef std::map<std::string, std::string> Files;
const char* A = "Engine: a\nInputVariable: u\n  range: 0 1\n  term: lo Triangle 0 0.25 0.5\n  term: hi Triangle 0.5 0.75 1\nInputVariable: v\n  range: -1.5 1.5\n  lock-range: true\n  term: lo Ramp 1.5 -1.5\n  term: hi Ramp -1.5 1.5\nOutputVariable: o\n  range: 0 1\n  aggregation: Maximum\n  defuzzifier: Centroid 10\n  lock-previous: true\n  term: lo Triangle 0 0.125 0.5\n  term: hi Triangle 0.5 0.75 1\nRuleBlock: r\n  conjunction: Minimum\n  implication: Minimum\n  activation: General\n  rule: if u is lo and v is lo then o is lo\n  rule: if u is hi and v is hi then o is hi with 0.5\n";
const char* H = "Engine: h\nInputVariable: u\n  range: 0 1\n  term: lo Ramp 1 0\n  term: hi Ramp 0 1\nOutputVariable: o\n  range: -9 9\n  defuzzifier: WeightedAverage\n  default: 1\n  term: k Constant 1\n  term: f Constant 2\nOutputVariable: p\n  range: -99 99\n  defuzzifier: WeightedSum\n  default: 0.5\n  term: g Function o+u\nRuleBlock: r\n  activation: General\n  rule: if u is lo then o is k\n  rule: if u is hi then o is f\n  rule: if u is any then p is g\n";
F::Engine* read(const std::string& format, const std::string& text) { if (format == "fll") return F::FllImporter().fromString(text); if (format == "fis") return F::FisImporter().fromString(text); if (format == "fcl") return F::FclImporter().fromString(text); throw F::Exception("format"); }
std::string write(const std::string& format, F::Engine* e) { if (format == "fll") return F::FllExporter().toString(e); if (format == "fis") return F::FisExporter().toString(e); if (format == "fcl") return F::FclExporter().toString(e); if (format == "cpp") return F::CppExporter().toString(e); if (format == "java") return F::JavaExporter().toString(e); throw F::Exception("format"); }
const Files& files() {     // the files there are when the application starts
    static Files f; if (f.empty()) {
        f["a.fll"] = A; f["h.fll"] = H; std::unique_ptr<F::Engine> e(F::FllImporter().fromString(A)); f["b.fis"] = F::FisExporter().toString(e.get()); f["c.d.fcl"] = F::FclExporter().toString(e.get()); f["noext"] = A; f["broken.fll"] = "Engine: a\nInputVariable: b\n  colour: 2\n"; f["in.fld"] = "u v\n0.25 0\n# c\n0.75 1\n\n2 2\n"; f["bad.fld"] = "0.25 0\n0.75\n";
        f["one.fld"] = "0.25\n0.75\n"; e.reset(F::FllImporter().fromString(H)); f["h.fld"] = F::FldExporter().toString(e.get(), 4, F::FldExporter::EachVariable); e.reset(F::FllImporter().fromString(A)); f["a.fld"] = F::FldExporter().toString(e.get(), 3, F::FldExporter::EachVariable); f["off.fld"] = "0.25 0 0.5\n0.75 0.5 0.25\n";
    }
    return f;
}
std::string slurp(const std::string& p) { std::ifstream i(p); std::ostringstream o; o << i.rdbuf(); return o.str(); }
bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
std::string put(vf::Ctx& c, const std::string& n, const std::string& t) { std::ofstream(c.scratch + "/" + n) << t; return n; }
struct Settings { int d; bool l; double m; Settings() : d(F::fuzzylite::decimals()), l(F::fuzzylite::isLogging()), m(F::fuzzylite::macheps()) {} ~Settings() { F::fuzzylite::setDecimals(d); F::fuzzylite::setLogging(l); F::fuzzylite::setMachEps(m); } };
struct Ran { int status; std::string out; };
// runs the application in the scratch directory with what is typed
Ran run(vf::Ctx& c, const SV& args, const std::string& typed = "") {
    static std::string made; if (made != c.scratch) { made = c.scratch; for (auto& f : files()) put(c, f.first, f.second); }
    Settings keep; std::vector<const char*> v = {"fuzzylite"}; for (auto& a : args) v.push_back(a.c_str()); v.push_back(0); std::ostringstream o; std::string t = typed.empty() ? std::string() : typed; FILE* in = t.empty() ? fopen("/dev/null", "r") : fmemopen(&t[0], t.size(), "r"), *was = stdin; stdin = in; std::streambuf* b = std::cout.rdbuf(o.rdbuf()); char here[4096]; if (!getcwd(here, sizeof here) || chdir(c.scratch.c_str())) abort();
    Ran r = {-1, ""}; std::string what; try { r.status = F::Console::main((int) v.size() - 1, v.data()); } catch (std::exception& e) { what = e.what(); } if (chdir(here)) abort(); std::cout.rdbuf(b); stdin = was; fclose(in); r.out = o.str(); if (r.status == -1) { r.out += "an exception escaped: " + what; } return r;
}
std::string ext(const std::string& p) { size_t k = p.rfind('.'); return k == std::string::npos ? "" : p.substr(k + 1); }
bool decimalNumber(const std::string& s, double& v) { char* e; if (s.empty()) return false; v = strtod(s.c_str(), &e); return !*e; }
// what the arguments ask for; throws when they cannot be followed; file: where it goes, or the standard output
std::string asked(const SV& args, std::string& file) {
    struct No {}; if (args.size() % 2) throw No(); std::map<std::string, std::string> o; for (size_t i = 0; i < args.size(); i += 2) o[args[i]] = args[i + 1]; static const std::set<std::string> known = {"-i", "-if", "-o", "-of", "-example", "-decimals", "-d", "-values", "-scope", "-dheader", "-dinputs"};
    if (o.size() == 1 && o.begin()->first[0] != '-') { std::string a = o.begin()->first, b = o.begin()->second; o["-i"] = a; o["-o"] = b; } else for (auto& x : o) if (!known.count(x.first)) throw No();
    std::unique_ptr<F::Engine> e; if (o.count("-example")) { std::string n = o["-example"]; if (n == "m" || n == "mamdani") e.reset(F::Console::mamdani()); else if (n == "t" || n == "ts" || n == "takagi-sugeno") e.reset(F::Console::takagiSugeno()); else throw No(); }
    else { if (!o.count("-i")) throw No(); std::string f = o["-i"]; if (!files().count(f)) throw No(); std::string fmt = o.count("-if") ? o["-if"] : ext(f); e.reset(read(fmt, files().at(f))); }
    file = o["-o"]; std::string fmt = o.count("-of") ? o["-of"] : ext(file); if (file.find('/') != std::string::npos) throw No(); double d; Settings keep; if (o.count("-decimals")) { if (!decimalNumber(o["-decimals"], d)) throw No(); F::fuzzylite::setDecimals((int) d); }
    if (fmt != "fld") return write(fmt, e.get());
    F::FldExporter x(" "); if (o.count("-dheader")) x.setExportHeader(o["-dheader"] == "true"); if (o.count("-dinputs")) x.setExportInputValues(o["-dinputs"] == "true"); std::ostringstream w;
    if (o.count("-d")) { if (!files().count(o["-d"])) throw No(); std::istringstream r(files().at(o["-d"])); x.write(e.get(), w, r); return w.str(); }
    if (o.count("-values")) { if (!decimalNumber(o["-values"], d)) throw No(); F::FldExporter::ScopeOfValues s = F::FldExporter::EachVariable; if (o.count("-scope")) { if (o["-scope"] == "AllVariables") s = F::FldExporter::AllVariables; else if (o["-scope"] != "EachVariable") throw No(); } x.write(e.get(), w, (int) d, s); return w.str(); }
    return "interactive";
}
std::string show(const SV& a) { std::string s; for (auto& x : a) s += " <" + x + ">"; return s; }
void judge(vf::Ctx& c, const SV& args) {
    files();
    std::string want, file; bool ok = true; try { want = asked(args, file); } catch (...) { ok = false; }
    Ran r = run(c, args); c.step(); c.checks(3); std::string err;
    if ((r.status == 0) != ok) err = vf::cat("status ", r.status, " for arguments that ", ok ? "can" : "cannot", " be followed: ", r.out);
    else if (!ok && r.out.empty()) err = "nothing is said about the failure";
    else if (ok && want != "interactive") { std::string got = file.empty() ? r.out : slurp(c.scratch + "/" + file); if (got != want) err = "<" + got + "> is written, expected <" + want + ">"; }
    else if (ok && (file.empty() ? r.out : slurp(c.scratch + "/" + file)).find('>') == std::string::npos) err = "the interactive console does not begin";
    for (auto& a : args) if (files().count(a)) put(c, a, files().at(a)); else if (a.find('/') == std::string::npos && !a.empty()) unlink((c.scratch + "/" + a).c_str());
    c.expect(err.empty(), "command-line", [&] { return "arguments" + show(args) + ": " + err; }); c.state(show(args)); c.describe([&] { return show(args) + " -> " + (ok ? want : "refused"); });
}
void option(vf::Ctx& c, SV& a, const char* k, const SV& v) { int n = c.choose((int) v.size() + 1); if (n) { a.push_back(k); a.push_back(v[(size_t) n - 1]); } }
}
VF_SUITE(options) {     // all combinations of values of the options about engines
    SV a; option(c, a, "-i", {"a.fll", "b.fis", "c.d.fcl", "noext", "broken.fll", "missing.fll"}); option(c, a, "-if", {"fll", "fis", "fcl", "fld"}); option(c, a, "-o", {"x.fll", "x.y.fis", "x.fcl", "x.cpp", "x.java", "plain", "x.txt", "none/x.fll"}); c.begin(); option(c, a, "-of", {"fll", "fis", "fcl", "cpp", "java", "R"}); option(c, a, "-example", {"m", "mamdani", "t", "h"}); option(c, a, "-decimals", {"0", "5", "x"}); if (a.size() < 2) c.prune(); judge(c, a);
}
VF_SUITE(data) {     // all combinations of values of the options about datasets
    SV a; if (c.flip()) { a = {"-i", c.pick(SV{"a.fll", "b.fis", "c.d.fcl", "h.fll"})}; } else a = {"-example", c.pick(SV{"m", "t"})}; if (c.flip()) { a.push_back("-of"); a.push_back("fld"); option(c, a, "-o", {"plain"}); } else { a.push_back("-o"); a.push_back("x.fld"); } option(c, a, "-d", {"in.fld", "bad.fld", "missing.fld"}); c.begin(); option(c, a, "-values", {"4", "9", "1", "x"}); option(c, a, "-scope", {"AllVariables", "EachVariable", "None"}); option(c, a, "-dheader", {"true", "false"}); option(c, a, "-dinputs", {"true", "false"}); option(c, a, "-decimals", {"0", "6"}); judge(c, a);
}
VF_SUITE(sequences) {     // all lists of up to 4 (thorough: 6) arguments: orders, repetitions, missing values, unknown options
    static const SV W = {"-i", "a.fll", "-o", "x.fis", "-of", "fcl", "-example", "m", "-nope", "c.d.fcl", "."}; SV a; int n = 2 + c.choose(c.thorough ? 5 : 3); for (int i = 0; i < n; ++i) { a.push_back(W[(size_t) c.choose(n > 4 ? 9 : (int) W.size())]); if (i == 1) c.begin(); } judge(c, a);
}
namespace {
// the values typed: a row for every processing; plain: whether the whole line of the row shows the inputs
struct Row { DV in, out; bool plain; SV typed; };
std::vector<Row> console(F::Engine* e, const std::string& keys, bool& quit) {
    std::vector<Row> rows; DV in; SV typed; std::string part; bool plain = true; quit = false;
    for (char k : keys) {
        if (isspace((unsigned char) k)) { double v = e->getInputVariable(in.size())->getValue(), x; bool num = part == "nan" || (decimalNumber(part, x) && part.find("nan") == std::string::npos); if (num) v = part == "nan" ? ref::NaN : x; in.push_back(v); typed.push_back(num ? part : part + "[" + F::Op::str(v) + "]"); part = ""; if (in.size() < e->numberOfInputVariables()) continue; k = 'p'; }
        if (k == 4) { quit = true; break; } if (!isgraph((unsigned char) k)) continue; k = (char) tolower((unsigned char) k) == k || !strchr("RDPQH", k) ? k : (char) tolower((unsigned char) k);
        if (k == 'r') { e->restart(); in.clear(); typed.clear(); part = ""; plain = true; } else if (k == 'd') { in.clear(); typed.clear(); part = ""; plain = true; } else if (k == 'h') { part = ""; plain = in.empty() && plain; }
        else if (k == 'q') { quit = true; break; }
        else if (k == 'p') { Row r; r.plain = plain && part.empty(); for (size_t i = 0; i < in.size(); ++i) e->getInputVariable(i)->setValue(in[i]); for (size_t i = in.size(); i < e->numberOfInputVariables(); ++i) typed.push_back(F::Op::str(e->getInputVariable(i)->getValue())); r.typed = typed; e->process(); for (auto v : e->inputVariables()) r.in.push_back(v->getValue()); for (auto v : e->outputVariables()) r.out.push_back(v->getValue()); rows.push_back(r); in.clear(); typed.clear(); part = ""; plain = true; }
        else part += k;
    }
    return rows;
}
void type(vf::Ctx& c, int k, bool file, const std::string& keys) {
    SV args = {"-i", k == 0 ? "a.fll" : k == 1 ? "h.fll" : "b.fis", "-of", "fld"}; if (file) { args.push_back("-o"); args.push_back("typed"); } Ran r = run(c, args, keys); std::unique_ptr<F::Engine> e(read(k == 2 ? "fis" : "fll", files().at(args[1]))); bool quit; std::vector<Row> rows = console(e.get(), keys, quit); std::string err, text = r.out;
    if (r.status) err = vf::cat("status ", r.status, ": ", r.out); if (file) { text = slurp(c.scratch + "/typed"); std::string shown = r.out; while (!text.empty() && text.back() == '\n') text.pop_back(); while (!shown.empty() && shown.back() == '\n') shown.pop_back(); if (err.empty() && shown != text) err = "the file and the terminal show different texts"; unlink((c.scratch + "/typed").c_str()); }
    std::vector<std::string> got; std::istringstream is(text); std::string l; while (std::getline(is, l)) if (l.find("=\t") != std::string::npos) got.push_back(l);
    if (err.empty() && got.size() != rows.size()) err = vf::cat(got.size(), " rows are shown, expected ", rows.size());
    for (size_t i = 0; err.empty() && i < rows.size(); ++i) { std::string o, in; for (size_t j = 0; j < rows[i].out.size(); ++j) o += (j ? "\t" : "") + F::Op::str(rows[i].out[j]); for (auto& t : rows[i].typed) in += t + "\t"; size_t p = got[i].find("=\t"); if (got[i].substr(p + 2) != o) err = "row <" + got[i] + "> instead of outputs <" + o + ">"; size_t b = got[i].find_first_not_of('>'); if (err.empty() && rows[i].plain && got[i].substr(b, p - b) != in) err = "row <" + got[i] + "> instead of inputs <" + in + ">"; }
    c.step((vf::u64) keys.size()); c.checks(rows.size() * 2 + 2); std::string id; for (char ch : keys) id += ch == '\n' ? std::string("\\n") : ch == 4 ? std::string("^D") : std::string(1, ch); c.expect(err.empty(), "interactive-console", [&] { return "engine " + args[1] + ", keys <" + id + ">: " + err; }); c.state(vf::cat(k, file, id)); c.describe([&] { return id + "\n" + text; });
}
}
VF_SUITE(keys) {     // all sequences of up to 5 (thorough: 6) keys
    static const char K[] = {'5', '.', '-', ' ', '\n', 'P', 'r', 'D', 'h', 'q', 'x', 4}; int k = c.choose(2); bool file = c.flip(); std::string s; int n = c.choose(c.thorough ? 7 : 5); for (int i = 0; i < n; ++i) { s += K[c.choose(12)]; if (i == 1) c.begin(); } c.begin(); type(c, k, file, s);
}
VF_SUITE(values) {     // all sequences of up to 5 (thorough: 6) values and commands
    static const SV W = {"0.25 ", "0.75\n", "abc ", "\t", "nan ", "P", "d", "R", "H", "1e-1 ", "0.5"}; int k = c.choose(3); std::string s; int n = c.choose(c.thorough ? 7 : 6); for (int i = 0; i < n; ++i) { s += W[(size_t) c.choose((int) W.size())]; if (i == 1) c.begin(); } c.begin(); type(c, k, false, s);
}
namespace {
// the row of a benchmark without the times
std::string row(const std::string& fll, const std::string& fld, int runs) {
    std::unique_ptr<F::Engine> e(F::FllImporter().fromString(files().at(fll))); F::Benchmark b(e->getName(), e.get()); std::istringstream is(files().at(fld)); b.prepare(is); for (int i = 0; i < runs; ++i) b.runOnce(); return b.format(b.results(), F::Benchmark::Horizontal, F::Benchmark::Body);
}
SV cells(const std::string& l) { SV r(1); for (char ch : l) if (ch == '\t') r.push_back(""); else r.back() += ch; return r; }
bool sameButTimes(const std::string& a, const std::string& b, int runs) { SV x = cells(a), y = cells(b); size_t t = 3 + (size_t) std::max(0, runs); if (x.size() != y.size() || x.size() < t) return false; for (size_t i = 0; i + t < x.size(); ++i) if (x[i] != y[i]) return false; for (size_t i = x.size() - t; i < x.size(); ++i) { double v; if (!decimalNumber(x[i], v) || v < 0) return false; } return true; }
SV tables(const std::string& text) { SV r; std::istringstream is(text); std::string l; while (std::getline(is, l)) if (std::count(l.begin(), l.end(), '\t') >= 8) r.push_back(l); return r; }
std::string header(int runs) { return F::Op::join(F::Benchmark().header(runs, true), "\t"); }
}
VF_SUITE(benchmark) {     // all combinations of engines, datasets, runs and destinations
    std::string fll = c.pick(SV{"a.fll", "h.fll", "broken.fll", "missing.fll"}), fld = c.pick(SV{"a.fld", "off.fld", "h.fld", "bad.fld", "one.fld", "missing.fld", "in.fld"}), runs = c.pick(SV{"1", "3", "0", "x", ""}), out = c.pick(SV{"", "x.tsv", "none/x.tsv"}); SV args = {"benchmark", fll, fld}; if (!runs.empty()) args.push_back(runs); else if (!out.empty()) c.prune(); if (!out.empty()) args.push_back(out); c.begin();
    int n = atoi(runs.c_str()); bool ok = runs != "x" && !runs.empty() && out != "none/x.tsv"; std::string want; try { if (ok) want = row(fll, fld, n); } catch (std::exception&) { ok = false; }
    Ran r = run(c, args); std::string err; c.step(); c.checks(4); if ((r.status == 0) != ok) err = vf::cat("status ", r.status, ": ", r.out); if (err.empty() && !ok && r.out.empty()) err = "nothing is said about the failure";
    if (err.empty() && ok) { SV t = tables(out.empty() ? r.out : slurp(c.scratch + "/" + out)); if (t.size() != 2 || t[0] != header(n) || !sameButTimes(t[1], want, n)) err = vf::cat("the table has ", t.size(), " lines", t.size() > 1 ? ": <" + t[0] + "> <" + t[1] + ">, expected <" + want + ">" : ""); }
    unlink((c.scratch + "/x.tsv").c_str()); c.expect(err.empty(), "benchmark-command", [&] { return "arguments" + show(args) + ": " + err; }); c.state(show(args)); c.describe([&] { return show(args) + want; });
}
VF_SUITE(benchmarks) {     // all lists of up to 3 lines: pairs of files, comments, blank lines, missing files
    static const char* L[][2] = {{"a.fll", "a.fld"}, {"  h.fll ", "h.fld\t"}, {"#a.fll", "a.fld"}, {"", ""}, {"a.fll", "off.fld"}, {"missing.fll", "a.fld"}, {"a.fll", "missing.fld"}, {"# comment", "# comment"}}; int n = c.choose(4); std::string fl, fd; bool ok = true, file = c.flip(), last = c.flip(); std::vector<int> ls; int runs = 1 + c.choose(2); for (int i = 0; i < n; ++i) { int l = c.choose(8); ls.push_back(l); fl += std::string(L[l][0]) + (i + 1 < n || last ? "\n" : ""); fd += std::string(L[l][1]) + (i + 1 < n || last ? "\n" : ""); if (l == 5 || l == 6) ok = false; } int gone = c.choose(3); if (gone && n) c.prune(); c.begin();
    put(c, "l.txt", fl); put(c, "d.txt", fd); SV args = {"benchmarks", gone == 1 ? "gone.txt" : "l.txt", gone == 2 ? "gone.txt" : "d.txt", vf::cat(runs)}; if (file) args.push_back("x.tsv"); if (gone) ok = false;
    Ran r = run(c, args); std::string err; c.step((vf::u64) n + 1); c.checks((vf::u64) n + 2); if ((r.status == 0) != ok) err = vf::cat("status ", r.status, ": ", r.out); if (err.empty() && ok) { SV t = tables(file ? slurp(c.scratch + "/x.tsv") : r.out), want; for (int l : ls) if (l != 2 && l != 3 && l != 7) want.push_back(row(l == 1 ? "h.fll" : "a.fll", l == 0 ? "a.fld" : l == 1 ? "h.fld" : "off.fld", runs)); if (t.size() != want.size() + 1 || t[0] != header(runs)) err = vf::cat("the table has ", t.size(), " lines, expected ", want.size() + 1); for (size_t i = 0; err.empty() && i < want.size(); ++i) if (!sameButTimes(t[i + 1], want[i], runs)) err = "line <" + t[i + 1] + ">, expected <" + want[i] + ">"; }
    unlink((c.scratch + "/x.tsv").c_str()); c.expect(err.empty(), "benchmarks-command", [&] { return "lists <" + fl + "> <" + fd + ">: " + err; }); c.state(fl + vf::cat(file, last, runs, gone)); c.describe([&] { return fl; });
}
VF_SUITE(program) {     // the status of the program itself, run as a process
    static const std::vector<SV> L = {{}, {"x"}, {"a.fll", "x.fll"}, {"a.fll", "x.txt"}, {"missing.fll", "x.fll"}, {"broken.fll", "x.fll"}, {"-example", "m", "-of", "fll"}, {"-example", "z", "-of", "fll"}, {"-i", "a.fll", "-o"}, {"-i", "a.fll", "-nope", "1"}, {"benchmark", "a.fll", "a.fld", "1"}, {"benchmark", "a.fll", "missing.fld", "1"}, {"benchmark", "a.fll"}, {"benchmarks", "gone", "gone", "1"}, {"benchmarks", "gone"}, {"export-examples", "gone", "gone"}, {"-i", "a.fll", "-of", "fld"}, {"-i", "a.fll", "-of", "fld", "-values", "x"}}; static const int ok[] = {1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0};
    int k = c.choose((int) L.size()); c.begin(); run(c, {}); fflush(0); pid_t p = fork(); if (!p) { if (chdir(c.scratch.c_str()) || !freopen("/dev/null", "r", stdin) || !freopen("out.txt", "w", stdout)) _exit(99); std::vector<const char*> v = {"fuzzylite"}; for (auto& a : L[(size_t) k]) v.push_back(a.c_str()); v.push_back(0); int s = application::main((int) v.size() - 1, v.data()); std::cout.flush(); fflush(0); _exit(s & 255); }
    int st = 0; waitpid(p, &st, 0); std::string out = slurp(c.scratch + "/out.txt"); c.step(); bool good = WIFEXITED(st) && (WEXITSTATUS(st) == 0) == (ok[k] == 1) && WEXITSTATUS(st) != 99 && !out.empty() == (k != 2); c.expect(good, "program-status", [&] { return vf::cat("arguments", show(L[(size_t) k]), ": status ", st, ", output <", out, ">"); }); unlink((c.scratch + "/x.fll").c_str()); unlink((c.scratch + "/x.txt").c_str()); c.state(vf::cat(k)); c.describe([&] { return show(L[(size_t) k]) + out; });
}
VF_SUITE(examples) {     // all examples in all formats: the files hold what the exporters give
    static const SV D = {"mamdani", "mamdani/matlab", "mamdani/octave", "takagi-sugeno", "takagi-sugeno/matlab", "takagi-sugeno/octave", "tsukamoto", "hybrid"}; std::string to = c.scratch + "/ex"; int fresh = c.choose(1); c.begin(); (void) fresh; mkdir(to.c_str(), 0755); for (auto& d : D) mkdir((to + "/" + d).c_str(), 0755);
    Ran r = run(c, {"export-examples", "/repo/examples", to}); c.step(273); if (r.status) { c.fail("export-examples", vf::cat("status ", r.status, ": ", r.out.size() > 600 ? r.out.substr(r.out.size() - 600) : r.out)); return; }
    int n = 0; std::string err; FILE* p = popen("cd /repo/examples && find mamdani takagi-sugeno tsukamoto hybrid -name '*.fll' | sort", "r"); char l[512]; SV names; while (fgets(l, sizeof l, p)) { std::string s = l; s = s.substr(0, s.find('\n')); names.push_back(s.substr(0, s.size() - 4)); } pclose(p); Settings keep;
    for (auto& x : names) { std::unique_ptr<F::Engine> e(F::FllImporter().fromString(slurp("/repo/examples/" + x + ".fll"))); for (auto f : {"fll", "fis", "fcl", "cpp", "java", "fld", "R"}) { F::fuzzylite::setDecimals(f == std::string("fld") ? 9 : 3); std::string got = slurp(to + "/" + x + "." + f), want; ++n; try { want = f == std::string("fld") ? F::FldExporter(" ").toString(e.get()) : f == std::string("R") ? "\"" + x.substr(x.rfind('/') + 1) + ".fld\"" : write(f, e.get()); } catch (F::Exception&) { if (exists(to + "/" + x + "." + f)) err += x + "." + f + " is exported though it cannot be; "; continue; } bool ok = f == std::string("R") || f == std::string("cpp") || f == std::string("java") ? got.find(want) != std::string::npos : got == want; if (!ok) err += x + "." + f + " has other contents; "; } }
    c.checks((vf::u64) n); if (names.size() < 30) err += "examples are missing"; c.expect(err.empty(), "export-examples", [&] { return err; }); c.state(vf::cat(n)); c.describe([&] { return vf::cat(n, " files"); });
}
VF_SUITE(builtin) {     // the built-in examples are the engines they document, however they are asked for
    int k = c.choose(3), way = c.choose(2), dec = c.choose(10); c.begin(); static const char* N[] = {"mamdani", "takagi-sugeno", "hybrid"}; std::string want = slurp(vf::cat(getenv("VP_VERIF") ? getenv("VP_VERIF") : "/verif", "/checks/builtin-", N[k], ".fll"));
    struct Dec { int d; Dec() : d(F::fuzzylite::decimals()) {} ~Dec() { F::fuzzylite::setDecimals(d); } } keep; F::fuzzylite::setDecimals(9);
    std::unique_ptr<F::Engine> w(F::FllImporter().fromString(want)); c.step(); std::string got;
    if (way == 0) { std::unique_ptr<F::Engine> e(k == 0 ? F::Console::mamdani() : k == 1 ? F::Console::takagiSugeno() : F::Console::hybrid()); F::fuzzylite::setDecimals(dec); got = F::FllExporter().toString(e.get()); }
    else { if (k == 2) c.prune(); Ran r = run(c, {"-example", N[k], "-of", "fll", "-decimals", vf::cat(dec)}, ""); got = r.out; F::fuzzylite::setDecimals(dec); if (r.status) got = "status " + got; }
    std::string text = F::FllExporter().toString(w.get()); while (!got.empty() && got.back() == '\n') got.pop_back(); while (!text.empty() && text.back() == '\n') text.pop_back();
    c.expect(got == text, "builtin", [&] { return vf::cat("example ", N[k], " is not the documented one\n", got); }); c.state(got);
}
