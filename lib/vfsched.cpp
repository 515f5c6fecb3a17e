#include "vfsched.h"
#include <atomic>
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <locale>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// this file is compiled without instrumentation
extern char __data_start, _end, __ehdr_start;

namespace {
using sched::u64;
enum { T = 3 };
struct Vc { uint32_t c[T]; };
struct Thread { int id; Vc vc; sem_t go; bool finished; u64 points; u64 accesses; const std::function<std::string()>* body; std::string result; int depth; };
Thread g_t[T]; int g_n = 0; sched::Plan g_plan; u64 g_point = 0, g_switches = 0, g_conflicts = 0; size_t g_next = 0; sem_t g_done;
thread_local Thread* self __attribute__((tls_model("initial-exec"))) = 0;
thread_local bool inside __attribute__((tls_model("initial-exec"))) = false;   // in here already
char *g_arena = 0, *g_top = 0, *g_limit = 0; bool g_useArena = false; bool g_blocked[T];
std::string* g_race = 0; std::string* g_trouble = 0;

// ---- shadow memory: per byte and thread, the clock of the latest read and write
struct Granule { u64 key; uint16_t r[T][8], w[T][8]; uint32_t rpc[T], wpc[T]; };
Granule* g_shadow = 0; u64 g_mask = 0, g_used = 0;
void growShadow() {
    u64 n = g_mask ? (g_mask + 1) * 2 : 1 << 15; Granule* old = g_shadow; u64 oldN = g_mask ? g_mask + 1 : 0;
    g_shadow = (Granule*) mmap(0, n * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_mask = n - 1;
    for (u64 i = 0; i < oldN; ++i) if (old[i].key) { u64 h = (old[i].key * 0x9e3779b97f4a7c15ull) >> 20; while (g_shadow[h & g_mask].key) ++h; g_shadow[h & g_mask] = old[i]; }
    if (old) munmap(old, oldN * sizeof(Granule));
}
Granule& granule(u64 key) {
    if (g_used * 2 >= g_mask) growShadow();
    u64 h = (key * 0x9e3779b97f4a7c15ull) >> 20;
    while (g_shadow[h & g_mask].key && g_shadow[h & g_mask].key != key) ++h;
    Granule& g = g_shadow[h & g_mask]; if (!g.key) { g.key = key; ++g_used; } return g;
}
bool isStatic(const void* p) { return (char*) p >= &__data_start && (char*) p < &_end; }
bool isHeap(const void* p) { return (char*) p >= g_arena && (char*) p < g_limit; }
std::string where(u64 pc) { char b[32]; snprintf(b, sizeof b, "@%llx", pc); return b; }

void switchTo(Thread* t) { ++g_switches; Thread* me = self; sem_post(&t->go); sem_wait(&me->go); }
Thread* nextOf(int id) { for (int k = 1; k < g_n; ++k) { Thread* t = &g_t[(id + k) % g_n]; if (!t->finished && !g_blocked[t->id]) return t; } return 0; }
void point() {
    Thread* me = self; ++me->points; u64 p = g_point++;
    if (g_next < g_plan.preempt.size() && g_plan.preempt[g_next] == p) { ++g_next; if (Thread* t = nextOf(me->id)) switchTo(t); }
}
void blockedYield() {   // what this thread waits for must come from another one
    Thread* me = self; g_blocked[me->id] = true; Thread* t = nextOf(me->id);
    if (!t) { *g_trouble = "deadlock: every thread waits"; sem_post(&g_done); sem_wait(&me->go); }
    switchTo(t); g_blocked[me->id] = false;
}
void wakeAll() { for (int i = 0; i < g_n; ++i) g_blocked[i] = false; }

void access(const void* p, size_t n, bool write, void* pc) {
    Thread* me = self; if (!me || inside) return;
    bool st = isStatic(p); if (!st && !isHeap(p)) return;
    inside = true; ++me->accesses;
    if (g_plan.grain >= sched::Accesses || (st && g_plan.grain >= sched::Statics)) point();
    if (g_plan.races) {
        u64 a = (u64) p, e = a + n;
        while (a < e) {
            Granule& g = granule(a >> 3); u64 base = a & ~7ull;
            for (; a < e && a < base + 8; ++a) {
                int b = (int) (a & 7);
                for (int i = 0; i < g_n; ++i) if (i != me->id) {
                    if (g.w[i][b] > me->vc.c[i] || (write && g.r[i][b] > me->vc.c[i])) {
                        ++g_conflicts;
                        if (g_race->empty()) { bool ow = g.w[i][b] > me->vc.c[i]; char buf[64]; snprintf(buf, sizeof buf, "%s of %zu byte(s) of %s memory", write ? "a write" : "a read", n, st ? "static" : "heap"); *g_race = std::string(buf) + " by thread " + std::to_string(me->id) + " at " + where((u64) pc - (u64) &__ehdr_start) + " and a" + (ow ? " write" : " read") + " by thread " + std::to_string(i) + " at " + where(ow ? g.wpc[i] : g.rpc[i]) + " that nothing orders"; }
                    }
                }
                (write ? g.w : g.r)[me->id][b] = (uint16_t) me->vc.c[me->id];
            }
            (write ? g.wpc : g.rpc)[me->id] = (uint32_t) ((u64) pc - (u64) &__ehdr_start);
        }
    }
    inside = false;
}
// ---- synchronisation objects: their clocks
std::map<const void*, Vc>* g_sync = 0; std::map<const void*, int>* g_owner = 0;
void acquire(const void* o) { Vc& v = (*g_sync)[o]; for (int i = 0; i < T; ++i) if (v.c[i] > self->vc.c[i]) self->vc.c[i] = v.c[i]; }
void release(const void* o) { Vc& v = (*g_sync)[o]; for (int i = 0; i < T; ++i) if (self->vc.c[i] > v.c[i]) v.c[i] = self->vc.c[i]; if (++self->vc.c[self->id] > 65000) _exit(87); }
struct In { bool was; In() : was(inside) { inside = true; } ~In() { inside = was; } };
bool active() { return self && !inside; }
void hidden(const void* object) { access(object, 1, true, __builtin_return_address(0)); }   // a libc function with a state of its own
}

// ---- memory
static void* arenaAlloc(size_t n) {
    if (g_useArena) { size_t k = (n + 31) & ~(size_t) 15; char* p = __atomic_fetch_add(&g_top, k, __ATOMIC_RELAXED); if (p + k < g_limit) return p; _exit(88); }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
static void arenaFree(void* p) { if (p && !((char*) p >= g_arena && (char*) p < g_limit)) free(p); }
void* operator new(size_t n) { return arenaAlloc(n); }
void* operator new[](size_t n) { return arenaAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arenaFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arenaFree(p); }
void operator delete(void* p) noexcept { arenaFree(p); }
void operator delete[](void* p) noexcept { arenaFree(p); }
void operator delete(void* p, size_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t) noexcept { arenaFree(p); }

// ---- callbacks of the instrumentation
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (active() && g_plan.grain >= sched::Functions) { In in; point(); } }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); void* __real_memchr(const void*, int, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); access(a, n + 1, false, PC); return n; }
void* __wrap_memchr(const void* a, int c, size_t n) { access(a, n, false, PC); return __real_memchr(a, c, n); }

// atomics: executed as sequentially consistent, ordering only what their memory order orders (a load does not release what its thread wrote before)
static void atomicPoint(const void* p, int order, bool load, bool store) {
    if (!active()) return; In in; point();
    if (load && (order == 1 || order == 2 || order >= 4)) acquire(p);
    if (store) { if (order >= 3) release(p); else if (!load) (*g_sync)[p] = Vc(); }
}
#define ATOMIC(BITS, TYPE) \
    TYPE __tsan_atomic##BITS##_load(const volatile TYPE* p, int o) { atomicPoint((const void*) p, o, true, false); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##BITS##_store(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, false, true); __atomic_store_n(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_exchange(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_exchange_n(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_fetch_add(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_fetch_sub(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_fetch_and(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_fetch_or(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_fetch_xor(p, v, 5); } \
    TYPE __tsan_atomic##BITS##_fetch_nand(volatile TYPE* p, TYPE v, int o) { atomicPoint((const void*) p, o, true, true); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE* p, TYPE* e, TYPE v, int o, int) { atomicPoint((const void*) p, o, true, true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE* p, TYPE* e, TYPE v, int o, int) { atomicPoint((const void*) p, o, true, true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
    TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE* p, TYPE e, TYPE v, int o, int) { atomicPoint((const void*) p, o, true, true); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, u64)
static char g_fence; void __tsan_atomic_thread_fence(int) { atomicPoint(&g_fence, 5, true, true); }
void __tsan_atomic_signal_fence(int) {}

// initialisation of statics inside functions
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
int __wrap___cxa_guard_acquire(u64* g) {
    if (!active()) return __real___cxa_guard_acquire(g);
    In in; point(); char* b = (char*) g;
    for (;;) { if (b[0]) { acquire(g); return 0; } auto o = g_owner->find(g); if (o == g_owner->end()) { (*g_owner)[g] = self->id; acquire(g); return 1; } if (o->second == self->id) { *g_trouble = "a static is initialised while it is being initialised"; return 1; } blockedYield(); }
}
void __wrap___cxa_guard_release(u64* g) { if (!self) return __real___cxa_guard_release(g); In in; ((char*) g)[0] = 1; g_owner->erase(g); release(g); wakeAll(); }
void __wrap___cxa_guard_abort(u64* g) { if (!self) return __real___cxa_guard_abort(g); In in; g_owner->erase(g); release(g); wakeAll(); }

// locks
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
static std::map<const void*, int>* g_count;
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_lock(m);
    In in; point();
    for (;;) { auto o = g_owner->find(m); if (o == g_owner->end()) break; if (o->second == self->id) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++(*g_count)[m]; return 0; } *g_trouble = "a thread locks a mutex it holds"; } blockedYield(); }
    (*g_owner)[m] = self->id; (*g_count)[m] = 1; acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_trylock(m);
    In in; point(); auto o = g_owner->find(m);
    if (o != g_owner->end()) { if (o->second == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++(*g_count)[m]; return 0; } return EBUSY; }
    (*g_owner)[m] = self->id; (*g_count)[m] = 1; acquire(m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) return __real_pthread_mutex_unlock(m);
    In in; if (--(*g_count)[m] > 0) return 0; g_owner->erase(m); release(m); wakeAll(); return 0;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!active()) return __real_pthread_once(o, f);
    { In in; point(); for (;;) { auto k = g_owner->find(o); if (k == g_owner->end()) { if ((*g_count)[o]) { acquire(o); return 0; } (*g_owner)[o] = self->id; acquire(o); break; } blockedYield(); } }
    try { f(); } catch (...) { In in; g_owner->erase(o); release(o); wakeAll(); throw; }
    { In in; (*g_count)[o] = 1; g_owner->erase(o); release(o); wakeAll(); } return 0;
}
static int rwLock(pthread_rwlock_t* m) { In in; point(); for (;;) { auto o = g_owner->find(m); if (o == g_owner->end()) break; blockedYield(); } (*g_owner)[m] = self->id; acquire(m); return 0; }   // readers exclude each other here: fewer interleavings, same order of accesses
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return active() ? rwLock(m) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return active() ? rwLock(m) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!active()) return __real_pthread_rwlock_unlock(m); In in; g_owner->erase(m); release(m); wakeAll(); return 0; }

// functions of the C library that keep a state of their own: it counts as one variable
static char stStrtok, stRand, stLocale, stTime;
char* __real_strtok(char*, const char*); char* __wrap_strtok(char* a, const char* b) { hidden(&stStrtok); return __real_strtok(a, b); }
int __real_rand(); int __wrap_rand() { hidden(&stRand); return __real_rand(); }
void __real_srand(unsigned); void __wrap_srand(unsigned s) { hidden(&stRand); __real_srand(s); }
char* __real_setlocale(int, const char*); char* __wrap_setlocale(int c, const char* l) { hidden(&stLocale); return __real_setlocale(c, l); }
struct tm* __real_localtime(const time_t*); struct tm* __wrap_localtime(const time_t* t) { hidden(&stTime); return __real_localtime(t); }
struct tm* __real_gmtime(const time_t*); struct tm* __wrap_gmtime(const time_t* t) { hidden(&stTime); return __real_gmtime(t); }
void __real__ZNSt6locale6globalERKS_(void* r, const void* l); void __wrap__ZNSt6locale6globalERKS_(void* r, const void* l) { hidden(&stLocale); __real__ZNSt6locale6globalERKS_(r, l); }
}

static void* worker(void* v) {
    Thread* me = (Thread*) v; sem_wait(&me->go); self = me;
    std::string r; try { r = (*me->body)(); } catch (std::exception& e) { r = std::string("raised ") + e.what(); }
    inside = true; me->result = r; me->finished = true; wakeAll();
    Thread* t = nextOf(me->id); self = 0;
    if (t) sem_post(&t->go); else sem_post(&g_done);
    sem_wait(&me->go);   // stay until all have ended: thread-local objects keep their places
    return 0;
}

namespace sched {
static void put(FILE* f, const std::string& s) { u64 n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static bool get(const std::string& b, size_t& at, std::string& s) { if (at + 8 > b.size()) return false; u64 n; memcpy(&n, b.data() + at, 8); at += 8; if (at + n > b.size()) return false; s = b.substr(at, n); at += n; return true; }

static void child(int fd, const std::vector<std::function<std::string()> >& bodies, const Plan& plan, const std::function<void()>& setup, const std::function<std::string()>& after) {
    alarm(100);
    size_t size = (size_t) 3 << 30; g_arena = (char*) mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_top = g_arena; g_limit = g_arena + size; g_useArena = true;
    g_plan = plan; g_n = (int) bodies.size(); g_race = new std::string; g_trouble = new std::string; g_sync = new std::map<const void*, Vc>; g_owner = new std::map<const void*, int>; g_count = new std::map<const void*, int>;
    try { if (setup) setup(); } catch (std::exception& e) { fprintf(stderr, "setup: %s\n", e.what()); _exit(89); }
    sem_init(&g_done, 0, 0); pthread_t th[T]; growShadow();
    for (int i = 0; i < g_n; ++i) { Thread& t = g_t[i]; t.id = i; memset(&t.vc, 0, sizeof t.vc); t.vc.c[i] = 1; sem_init(&t.go, 0, 0); t.finished = false; t.points = t.accesses = 0; t.body = &bodies[(size_t) i]; g_blocked[i] = false; pthread_create(&th[i], 0, worker, &t); }
    sem_post(&g_t[plan.first].go); while (sem_wait(&g_done)) {}
    std::string a; if (g_trouble->empty() && after) a = after();
    FILE* f = fdopen(fd, "w"); u64 acc = 0;
    for (int i = 0; i < g_n; ++i) { put(f, g_t[i].result); put(f, std::to_string(g_t[i].points)); acc += g_t[i].accesses; }
    put(f, std::to_string(acc)); put(f, std::to_string(g_conflicts)); put(f, std::to_string(g_switches)); put(f, std::to_string(g_used)); put(f, *g_race); put(f, *g_trouble); put(f, a); fflush(f);
    _exit(0);
}
static std::string symbols(std::string s) {   // @offset -> function and line
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; size_t at;
    while ((at = s.find('@')) != std::string::npos) {
        size_t e = at + 1; while (e < s.size() && isxdigit((unsigned char) s[e])) ++e;
        std::string cmd = std::string("addr2line -f -C -s -e ") + self + " 0x" + s.substr(at + 1, e - at - 1) + " 2>/dev/null", out; char b[512];
        if (FILE* p = popen(cmd.c_str(), "r")) { while (fgets(b, sizeof b, p)) { std::string l = b; if (!l.empty() && l.back() == '\n') l.pop_back(); out += (out.empty() ? "" : " ") + l.substr(0, 160); } pclose(p); }
        s.replace(at, e - at, "[" + out + "]");
    }
    return s;
}
Result run(const std::vector<std::function<std::string()> >& bodies, const Plan& plan, const std::function<void()>& setup, const std::function<std::string()>& after) {
    Result R; int fds[2]; if (pipe(fds)) { R.trouble = "no pipe"; return R; }
    fflush(stdout); fflush(stderr); pid_t p = fork();
    if (p == 0) { close(fds[0]); child(fds[1], bodies, plan, setup, after); }
    close(fds[1]); std::string b; char buf[65536]; ssize_t k; while ((k = read(fds[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) b.append(buf, (size_t) k);
    close(fds[0]); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { R.trouble = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("the execution does not end") : "killed by signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st)); return R; }
    size_t at = 0; std::string s; bool ok = true;
    for (size_t i = 0; i < bodies.size(); ++i) { ok = ok && get(b, at, s); R.results.push_back(s); ok = ok && get(b, at, s); R.points.push_back(ok ? strtoull(s.c_str(), 0, 10) : 0); }
    ok = ok && get(b, at, s); if (ok) R.accesses = strtoull(s.c_str(), 0, 10); ok = ok && get(b, at, s); if (ok) R.conflicts = strtoull(s.c_str(), 0, 10); ok = ok && get(b, at, s); if (ok) R.switches = strtoull(s.c_str(), 0, 10); ok = ok && get(b, at, s); if (ok) R.granules = strtoull(s.c_str(), 0, 10);
    ok = ok && get(b, at, R.race) && get(b, at, R.trouble) && get(b, at, R.after); if (!ok) R.trouble = "the execution gave no result";
    if (!R.race.empty()) R.race = symbols(R.race);
    return R;
}
}
