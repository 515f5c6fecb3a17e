#include "vf.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <exception>

namespace {
long g_live = 0;
long g_failIn = -1;
bool g_failed = false;
}
#ifndef VF_NO_NEW
static void* vfAlloc(size_t n) {
    if (g_failIn >= 0) {
        if (g_failIn == 0) { g_failIn = -1; g_failed = true; throw std::bad_alloc(); }
        --g_failIn;
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED);
    return p;
}
static void vfFree(void* p) { if (p) { __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); free(p); } }
void* operator new(size_t n) { return vfAlloc(n); }
void* operator new[](size_t n) { return vfAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return vfAlloc(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return vfAlloc(n); } catch (...) { return 0; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { vfFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vfFree(p); }
void operator delete(void* p) noexcept { vfFree(p); }
void operator delete[](void* p) noexcept { vfFree(p); }
void operator delete(void* p, size_t) noexcept { vfFree(p); }
void operator delete[](void* p, size_t) noexcept { vfFree(p); }
#endif

namespace vf {

long liveBlocks() { return g_live; }
void failAllocationAfter(long n) { g_failIn = n; g_failed = false; }
bool allocationFailed() { return g_failed; }

u64 hashBytes(const void* p, size_t n, u64 h) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
u64 mix(u64 a, u64 b) { u64 v[2] = {a, b}; return hashBytes(v, sizeof v); }

std::string num(double x) {
    if (x != x) return "nan";
    if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
    char b[64]; snprintf(b, sizeof b, "%.17g", x);
    double y = 0;
    for (int p = 1; p < 17; ++p) { char t[64]; snprintf(t, sizeof t, "%.*g", p, x); y = strtod(t, 0); if (y == x) return t; }
    return b;
}

std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }

struct Slot {   // shared with the parent: what a shard is doing right now
    volatile int suite; volatile int n; volatile u64 cases; volatile int replaying;
    volatile int ch[512];
};

struct Violation { std::string caseId, key, msg; };

struct SuiteStats { u64 cases = 0, executed = 0, steps = 0, compared = 0; std::vector<u64> states; bool complete = true; std::vector<std::string> samples; };

static Slot* g_slot = 0;
static std::unordered_set<u64>* g_states = 0;
static std::unordered_map<u64, int>* g_seen = 0;
static std::vector<Violation>* g_viol = 0;
static std::set<std::string>* g_violKeys = 0;
static u64 g_failCount = 0;
static std::set<std::string> g_known;
static std::string g_curSuite;
static int g_curSuiteIdx = 0;
static std::vector<int> g_replay; static bool g_replayMode = false;

static std::string idOf(const Ctx& c) {
    std::string s = g_curSuite + ":";
    for (size_t i = 0; i < c.pos && i < c.choices.size(); ++i) { if (i) s += "."; s += std::to_string(c.choices[i]); }
    return s;
}

int Ctx::choose(int n) {
    if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
    if (pos < choices.size()) {
        if (limits.size() > pos) {
            if (limits[pos] >= 0 && limits[pos] != n) { fprintf(stderr, "vf: nondeterministic harness in %s: limit %d then %d\n", idOf(*this).c_str(), limits[pos], n); _exit(70); }
            limits[pos] = n;
        } else limits.push_back(n);
        if (choices[pos] >= n) { fprintf(stderr, "vf: replayed choice out of range\n"); _exit(71); }
    } else { choices.push_back(0); limits.push_back(n); }
    int r = choices[pos++];
    if (g_slot && pos <= 512) { g_slot->ch[pos - 1] = r; g_slot->n = (int) pos; }
    return r;
}

void Ctx::begin() {
    if (gated) return;
    gated = true;
    if (replaying) return;
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < pos; ++i) { h ^= (u64) choices[i] + 0x9e3779b97f4a7c15ull; h *= 1099511628211ull; h ^= h >> 31; }
    if ((int) (h % (u64) shardN) != shardId) throw Skip();
}

bool Ctx::seen(u64 h, int remaining) {
    if (replaying || pos < choices.size()) return false;   // only states reached by the newest choice, not the replayed prefix
    auto it = g_seen->find(h);
    if (it == g_seen->end()) { (*g_seen)[h] = remaining; return false; }
    if (it->second >= remaining) return true;
    it->second = remaining;
    return false;
}

void Ctx::state(u64 h) { if (g_states) g_states->insert(mix(h, hashStr(g_curSuite))); }

void Ctx::fail(const std::string& key, const std::string& msg) {
    failed = true; if (!g_known.count(key)) ++g_failCount;
    if (!g_viol) return;
    if (g_violKeys->insert(key).second || g_replayMode) g_viol->push_back(Violation{idOf(*this), key, msg});
}

static bool advance(Ctx& c) {
    c.choices.resize(c.pos); c.limits.resize(c.pos);
    while (!c.choices.empty()) {
        if (c.choices.back() + 1 < c.limits.back()) { ++c.choices.back(); return true; }
        c.choices.pop_back(); c.limits.pop_back();
    }
    return false;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }

static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char) ch;
    }
    return o;
}

static std::string escLine(const std::string& s) { std::string o; for (char ch : s) { if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch == '\\') o += "\\\\"; else o += ch; } return o; }
static std::string unescLine(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i]; } else o += s[i]; } return o; }

struct Opts { std::string property, tier = "quick", out, known, replayDir, replay, only, argv0; u64 seed = 1; int jobs = 8; double deadline = 500; double hang = 60; };

static void runBody(Ctx& c, const Suite& s) {
    try { s.body(c); }
    catch (const Skip&) {}
    catch (const std::exception& e) {
        std::string w = e.what();
        c.fail("uncaught-exception", "an exception escaped to the caller where none was expected: " + w.substr(0, 600));
    }
}

// one shard: runs all suites, writes its statistics to `path`
static int shardMain(const Opts& o, int shard, Slot* slot, const std::string& path, const std::string& scratch, double tEnd) {
    std::ofstream out(path.c_str());
    std::vector<Violation> viol; std::set<std::string> keys; g_viol = &viol; g_violKeys = &keys;
    g_slot = slot;
    for (size_t si = 0; si < suites().size(); ++si) {
        const Suite& s = suites()[si];
        if (!o.only.empty() && ("," + o.only + ",").find("," + s.name + ",") == std::string::npos) continue;
        std::unordered_set<u64> states; std::unordered_map<u64, int> seen; g_states = &states; g_seen = &seen;
        g_curSuite = s.name; g_curSuiteIdx = (int) si; slot->suite = (int) si;
        SuiteStats st;
        Ctx c; c.thorough = o.tier == "thorough"; c.seed = o.seed; c.shardId = shard; c.shardN = o.jobs; c.scratch = scratch;
        double t0 = now();
        u64 nextSample = 0;
        do {
            c.pos = 0; c.gated = false; c.failed = false; c.desc.clear();
            slot->n = 0; slot->cases = slot->cases + 1;
            c.verbose = st.samples.size() < 2 && st.executed >= nextSample;
            u64 stepsBefore = c.steps;
            runBody(c, s);
            ++st.cases;
            if (c.gated && c.steps > stepsBefore) {
                ++st.executed;
                if (c.verbose && !c.desc.empty()) { st.samples.push_back(idOf(c) + " " + c.desc.substr(0, 700)); nextSample = st.executed * 37 + 101; }
            }
            if (g_failCount > 300) { st.complete = false; break; }
            if ((st.cases & 63) == 0 && now() > tEnd) { st.complete = false; break; }
        } while (advance(c));
        out << "suite\t" << s.name << "\t" << st.executed << "\t" << c.steps << "\t" << c.compared << "\t" << (st.complete ? 1 : 0) << "\t" << (now() - t0) << "\n";
        for (auto& x : st.samples) out << "sample\t" << s.name << "\t" << escLine(x) << "\n";
        std::vector<u64> v(states.begin(), states.end()); std::sort(v.begin(), v.end());
        FILE* f = fopen((path + "." + std::to_string(si)).c_str(), "wb"); if (!v.empty()) { size_t w = fwrite(v.data(), 8, v.size(), f); (void) w; } fclose(f);
        for (auto& x : viol) out << "viol\t" << x.caseId << "\t" << escLine(x.key) << "\t" << escLine(x.msg) << "\n";
        viol.clear();
        out.flush();
        if (g_failCount > 300) break;
    }
    out << "done\n"; out.close();
    return 0;
}

static int replayMain(const Opts& o, const std::string& scratch) {
    size_t k = o.replay.find(':');
    std::string sn = o.replay.substr(0, k), ch = o.replay.substr(k + 1);
    std::vector<Violation> viol; std::set<std::string> keys; g_viol = &viol; g_violKeys = &keys; g_replayMode = true;
    std::unordered_map<u64, int> seen; g_seen = &seen;
    for (size_t si = 0; si < suites().size(); ++si) if (suites()[si].name == sn) {
        g_curSuite = sn;
        Ctx c; c.thorough = o.tier == "thorough"; c.seed = o.seed; c.replaying = true; c.verbose = true; c.scratch = scratch;
        std::stringstream ss(ch); std::string t;
        while (std::getline(ss, t, '.')) if (!t.empty()) { c.choices.push_back(atoi(t.c_str())); c.limits.push_back(-1); }
        runBody(c, suites()[si]);
        printf("case %s\n%s\n", o.replay.c_str(), c.desc.c_str());
        for (auto& v : viol) printf("FAIL %s: %s\n", v.key.c_str(), v.msg.c_str());
        if (viol.empty()) printf("no violation\n");
        fflush(stdout);
        return viol.empty() ? 0 : 1;
    }
    fprintf(stderr, "unknown suite %s\n", sn.c_str());
    return 2;
}

static void rmTree(const std::string& p) {   // only ever called with a directory this program made with mkdtemp
    DIR* d = opendir(p.c_str());
    if (d) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string q = p + "/" + n; struct stat s; if (!lstat(q.c_str(), &s) && S_ISDIR(s.st_mode)) rmTree(q); else unlink(q.c_str()); } closedir(d); }
    rmdir(p.c_str());
}

struct ReplayResult { bool failed; bool hung; bool crashed; std::string output; };
static ReplayResult replayFresh(const Opts& o, const std::string& id, double limit, const std::string& tmp) {
    std::string outf = tmp + "/replay.out";
    pid_t p = fork();
    if (p == 0) {
        int fd = open(outf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
        std::string seed = std::to_string(o.seed);
        execl(o.argv0.c_str(), o.argv0.c_str(), "--property", o.property.c_str(), "--tier", o.tier.c_str(), "--seed", seed.c_str(), "--replay", id.c_str(), (char*) 0);
        _exit(99);
    }
    double t0 = now(); int st = 0; bool hung = false;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
    }
    ReplayResult R; R.hung = hung; R.crashed = !hung && (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 1));
    R.failed = hung || R.crashed || WEXITSTATUS(st) == 1;
    std::ifstream f(outf.c_str()); std::stringstream b; b << f.rdbuf(); R.output = b.str();
    if (R.output.size() > 20000) R.output.resize(20000);
    return R;
}

static int parentMain(Opts o) {
    double t0 = now();
    char tmpl[] = "/tmp/vf.XXXXXX"; std::string tmp = mkdtemp(tmpl);
    Slot* slots = (Slot*) mmap(0, sizeof(Slot) * (size_t) o.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids((size_t) o.jobs); std::vector<int> done((size_t) o.jobs, 0), status((size_t) o.jobs, 0);
    std::vector<u64> lastCases((size_t) o.jobs, 0); std::vector<double> lastT((size_t) o.jobs, now());
    // known findings
    std::map<std::string, std::string> known;
    { std::ifstream f(o.known.c_str()); std::string line; std::string pre = "known: property=" + o.property + " key=";
      while (std::getline(f, line)) if (line.compare(0, pre.size(), pre) == 0) { std::string r = line.substr(pre.size()); size_t sp = r.find(' '); known[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1); } }
    for (auto& k : known) g_known.insert(k.first);
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < o.jobs; ++i) {
        pid_t p = fork();
        if (p == 0) {
            std::string scratch = tmp + "/s" + std::to_string(i); mkdir(scratch.c_str(), 0755);
            int fd = open((tmp + "/err." + std::to_string(i)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
            int r = shardMain(o, i, slots + i, tmp + "/out." + std::to_string(i), scratch, t0 + o.deadline);
            _exit(r);
        }
        pids[(size_t) i] = p;
    }
    std::vector<Violation> viol; std::vector<std::pair<std::string, std::string>> suspects;   // id, why
    int left = o.jobs;
    bool broken = false; std::string brokenWhy;
    auto slotId = [&](int i) { std::string s = suites()[(size_t) slots[i].suite].name + ":"; for (int k = 0; k < slots[i].n && k < 512; ++k) { if (k) s += "."; s += std::to_string(slots[i].ch[k]); } return s; };
    while (left > 0) {
        usleep(10000);
        for (int i = 0; i < o.jobs; ++i) if (!done[(size_t) i]) {
            int st; pid_t r = waitpid(pids[(size_t) i], &st, WNOHANG);
            if (r == pids[(size_t) i]) {
                done[(size_t) i] = 1; --left; status[(size_t) i] = st;
                if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
                    std::ifstream f((tmp + "/err." + std::to_string(i)).c_str()); std::stringstream b; b << f.rdbuf(); std::string e = b.str(); if (e.size() > 4000) e.resize(4000);
                    if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) suspects.push_back(std::make_pair(slotId(i), "nondeterministic behaviour: " + e));
                    else suspects.push_back(std::make_pair(slotId(i), (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + std::string(" ") + e));
                }
                continue;
            }
            if (slots[i].cases != lastCases[(size_t) i]) { lastCases[(size_t) i] = slots[i].cases; lastT[(size_t) i] = now(); }
            else if (now() - lastT[(size_t) i] > o.hang) {
                kill(pids[(size_t) i], SIGKILL); waitpid(pids[(size_t) i], &st, 0); done[(size_t) i] = 1; --left;
                suspects.push_back(std::make_pair(slotId(i), "no progress for " + std::to_string((int) o.hang) + " s (hang)"));
            }
        }
    }
    // gather
    std::map<std::string, SuiteStats> stats; std::map<std::string, double> suiteT; std::vector<std::string> order;
    for (int i = 0; i < o.jobs; ++i) {
        std::ifstream f((tmp + "/out." + std::to_string(i)).c_str()); std::string line; bool fin = false;
        while (std::getline(f, line)) {
            std::vector<std::string> p; { std::stringstream ss(line); std::string t; while (std::getline(ss, t, '\t')) p.push_back(t); }
            if (p.empty()) continue;
            if (p[0] == "suite" && p.size() >= 7) {
                if (!stats.count(p[1])) order.push_back(p[1]);
                SuiteStats& s = stats[p[1]]; s.executed += strtoull(p[2].c_str(), 0, 10); s.steps += strtoull(p[3].c_str(), 0, 10); s.compared += strtoull(p[4].c_str(), 0, 10); if (p[5] != "1") s.complete = false;
                suiteT[p[1]] = std::max(suiteT[p[1]], atof(p[6].c_str()));
            } else if (p[0] == "sample" && p.size() >= 3) { if (stats[p[1]].samples.size() < 2) stats[p[1]].samples.push_back(unescLine(p[2])); }
            else if (p[0] == "viol" && p.size() >= 3) viol.push_back(Violation{p[1], unescLine(p[2]), p.size() > 3 ? unescLine(p[3]) : ""});
            else if (p[0] == "done") fin = true;
        }
        if (!fin && suspects.empty()) { broken = true; brokenWhy = "a shard ended without a result"; }
    }
    u64 states = 0, steps = 0, execs = 0, compared = 0; bool complete = suspects.empty();
    std::ostringstream per; std::ostringstream samples; bool firstS = true, firstP = true;
    for (size_t si = 0; si < suites().size(); ++si) {
        const std::string& n = suites()[si].name;
        if (!stats.count(n)) continue;
        std::vector<u64> all;
        for (int i = 0; i < o.jobs; ++i) { FILE* f = fopen((tmp + "/out." + std::to_string(i) + "." + std::to_string(si)).c_str(), "rb"); if (!f) continue; u64 b[4096]; size_t r; while ((r = fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + r); fclose(f); }
        std::sort(all.begin(), all.end()); u64 d = (u64) (std::unique(all.begin(), all.end()) - all.begin());
        SuiteStats& s = stats[n];
        states += d; steps += s.steps; execs += s.executed; compared += s.compared; complete = complete && s.complete;
        per << (firstP ? "" : ",") << "\n   {\"suite\":\"" << n << "\",\"executions\":" << s.executed << ",\"distinct_states\":" << d << ",\"operations\":" << s.steps << ",\"comparisons\":" << s.compared << ",\"complete\":" << (s.complete ? "true" : "false") << ",\"seconds\":" << suiteT[n] << "}";
        firstP = false;
        for (auto& x : s.samples) { samples << (firstS ? "" : ",") << "\n   \"" << esc(x) << "\""; firstS = false; }
    }
    mkdir(o.replayDir.c_str(), 0755);
    int nviol = 0; std::set<std::string> reported;
    auto report = [&](const std::string& id, const std::string& key, const std::string& msg, const std::string& detail) {
        std::string safe; for (char ch : key) safe += isalnum((unsigned char) ch) ? ch : '_'; if (safe.size() > 60) safe.resize(60);
        std::string path = o.replayDir + "/" + o.property + "-" + safe + ".txt";
        std::ofstream f(path.c_str());
        f << "property " << o.property << "\nkey " << key << "\ncase " << id << "\nreplay with: " << o.argv0 << " --property " << o.property << " --tier " << o.tier << " --seed " << o.seed << " --replay '" << id << "'\n\n" << msg << "\n\n" << detail << "\n";
        f.close();
        printf("%s: %s\n", key.c_str(), msg.substr(0, 600).c_str());
        printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), path.c_str());
        ++nviol;
    };
    int unreplayed = 0;
    for (auto& v : viol) {
        if (!reported.insert(v.key).second) continue;
        if (known.count(v.key)) { printf("KNOWN-FINDING: property=%s %s [%s]\n", o.property.c_str(), known[v.key].c_str(), v.key.c_str()); continue; }
        if (nviol >= 5) { ++nviol; continue; }
        ReplayResult r = replayFresh(o, v.caseId, 120, tmp);
        ReplayResult r2 = replayFresh(o, v.caseId, 120, tmp);
        std::string d = r.output;
        if (!(r.failed && r2.failed)) { d = "NOTE: the case does not fail when run alone in a fresh process: the failure depends on the executions before it in the same process (state leaking between engines); re-run the whole check to reproduce.\n" + d; ++unreplayed; }
        report(v.caseId, v.key, v.msg, d);
    }
    for (auto& s : suspects) {
        ReplayResult r = replayFresh(o, s.first, 150, tmp);
        bool hang = s.second.find("hang") != std::string::npos;
        if (hang && !r.failed) { fprintf(stderr, "note: case %s made no progress but passes alone; treated as a slow machine\n", s.first.c_str()); broken = true; brokenWhy = "shard killed as hung, case passes alone"; continue; }
        std::string key = hang ? "hang" : "crash";
        std::string suite = s.first.substr(0, s.first.find(':'));
        key += "-" + suite;
        if (!reported.insert(key).second) continue;
        if (known.count(key)) { printf("KNOWN-FINDING: property=%s %s [%s]\n", o.property.c_str(), known[key].c_str(), key.c_str()); continue; }
        if (nviol >= 5) { ++nviol; continue; }
        report(s.first, key, s.second, r.output);
    }
    double wall = now() - t0;
    std::ofstream f(o.out.c_str());
    f << "{\"property\":\"" << o.property << "\",\"tier\":\"" << o.tier << "\",\"seed\":" << o.seed << ",\"level\":\"model_checking\",\n \"coverage\":{\"states\":" << states << ",\"transitions\":" << steps << ",\"traces_validated_against_impl\":" << execs << ",\"comparisons_with_reference_model\":" << compared << ",\"exhaustive\":" << (complete ? "true" : "false")
      << ",\n  \"suites\":[" << per.str() << "\n  ],\n  \"samples\":[" << samples.str() << "\n  ]},\n \"wall_s\":" << wall << ",\"violations\":" << nviol << "}\n";
    f.close();
    printf("%s %s: executions=%llu distinct_states=%llu operations=%llu comparisons=%llu complete=%d violations=%d wall=%.1fs\n", o.property.c_str(), o.tier.c_str(), (unsigned long long) execs, (unsigned long long) states, (unsigned long long) steps, (unsigned long long) compared, (int) complete, nviol, wall);
    for (auto& n : order) printf("  %-28s executions=%llu steps=%llu compared=%llu complete=%d %.1fs\n", n.c_str(), (unsigned long long) stats[n].executed, (unsigned long long) stats[n].steps, (unsigned long long) stats[n].compared, (int) stats[n].complete, suiteT[n]);
    fflush(stdout);
    rmTree(tmp);
    if (nviol) return 1;
    if (broken) { fprintf(stderr, "check error: %s\n", brokenWhy.c_str()); return 3; }
    return 0;
}

}

int main(int argc, char** argv) {
    vf::Opts o; 
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; o.argv0 = self;
    long cpus = sysconf(_SC_NPROCESSORS_ONLN); o.jobs = (int) (cpus < 1 ? 1 : cpus > 16 ? 16 : cpus);
    o.out = "/dev/null"; o.replayDir = "/tmp";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--property") o.property = v; else if (a == "--tier") o.tier = v; else if (a == "--out") o.out = v; else if (a == "--known") o.known = v;
        else if (a == "--replaydir") o.replayDir = v; else if (a == "--replay") o.replay = v; else if (a == "--only") o.only = v;
        else if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10); else if (a == "--jobs") o.jobs = atoi(v.c_str());
        else if (a == "--deadline") o.deadline = atof(v.c_str()); else if (a == "--hang") o.hang = atof(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
        ++i;
    }
    if (!o.replay.empty()) {
        char tmpl[] = "/tmp/vfr.XXXXXX"; std::string tmp = mkdtemp(tmpl);
        int r = vf::replayMain(o, tmp); vf::rmTree(tmp); return r;
    }
    return vf::parentMain(o);
}
