// Bounded exhaustive explorer ("stateless model checker") used by every check in this directory.
//
// A suite is a function body(Ctx&).  Every decision the body takes goes through Ctx::choose(n); the
// explorer enumerates *all* sequences of choices depth first, running the body (and thus the real
// library code) from scratch for every one of them.  A case is therefore identified by its suite and
// its choices ("suite:3.0.1"), and can be replayed in a fresh process from that identifier alone.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vf {

typedef uint64_t u64;

struct Skip {};   // abandon the current case: another shard owns it, or it was pruned

u64 hashBytes(const void* p, size_t n, u64 seed = 1469598103934665603ull);
inline u64 hashStr(const std::string& s, u64 seed = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), seed); }
u64 mix(u64 a, u64 b);

struct Ctx {
    // --- enumeration
    int choose(int n);                       // 0..n-1, all of them
    bool flip() { return choose(2) == 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t) choose((int) v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[choose((int) N)]; }
    void begin();                            // shard gate: cases are distributed by the choices made so far
    void prune() { throw Skip(); }
    bool seen(u64 state, int remaining);     // state cache: true if already expanded with >= remaining steps left
    // --- accounting
    void state(u64 h);                       // an observed state/outcome (distinct ones are counted)
    void state(const std::string& s) { state(hashStr(s)); }
    void step(u64 n = 1) { steps += n; }     // operations executed on the implementation
    void checks(u64 n = 1) { compared += n; }// comparisons against the reference model
    // --- verdicts
    void fail(const std::string& key, const std::string& msg);
    void expect(bool ok, const char* key, const std::function<std::string()>& msg) { ++compared; if (!ok) fail(key, msg()); }
    template <class F> void describe(F f) { if (verbose) desc += f(); }
    // --- context
    bool thorough = false, verbose = false;
    u64 seed = 1;
    std::string desc;
    std::string scratch;                     // private scratch directory of this process
    // --- internal
    std::vector<int> choices, limits;
    size_t pos = 0;
    u64 steps = 0, compared = 0;
    int shardId = 0, shardN = 1;
    bool gated = false, replaying = false, failed = false;
};

typedef std::function<void(Ctx&)> Body;
struct Suite { std::string name; Body body; };
std::vector<Suite>& suites();
struct Register { Register(const char* n, Body b) { suites().push_back(Suite{n, b}); } };
#define VF_SUITE(name) static void vf_##name(vf::Ctx& c); static vf::Register vf_reg_##name(#name, vf_##name); static void vf_##name(vf::Ctx& c)

// Live heap blocks allocated with operator new in this process (for leak checks), and fault injection.
long liveBlocks();
void failAllocationAfter(long n);   // the n-th allocation from now throws bad_alloc (0: the next); <0: off
bool allocationFailed();

// --- numeric helpers
inline bool near(double a, double b, double tol = 1e-9) {
    if (a != a || b != b) return a != a && b != b;
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}
std::string num(double x);          // exact (hex free) readable representation
template <class T> std::string cat1(const T& t) { std::ostringstream o; o << t; return o.str(); }
inline std::string cat1(double t) { return num(t); }
inline std::string cat() { return ""; }
template <class T, class... R> std::string cat(const T& t, const R&... r) { return cat1(t) + cat(r...); }
}
#endif
