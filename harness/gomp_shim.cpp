// A small OpenMP run time on plain threads, so that ThreadSanitizer sees the synchronisation of parallel regions exactly.
// It stands in for libgomp in the harness that looks for data races (every schedule is legal for it, including the ones chosen here).
#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <vector>
namespace {
struct Team {
    int size; std::mutex m; std::condition_variable cv; int waiting = 0; unsigned long gen = 0; bool flag = false;
    struct Loop { bool started = false; long next = 0, end = 0, incr = 1, chunk = 1; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true; int left = 0; };
    std::map<unsigned, Loop> loops; std::map<unsigned, bool> singles;
    explicit Team(int n) : size(n) {}
    void barrier() { std::unique_lock<std::mutex> l(m); unsigned long g = gen; if (++waiting == size) { waiting = 0; gen++; cv.notify_all(); } else cv.wait(l, [&] { return gen != g; }); }
};
struct Ctx { Team* team = nullptr; int id = 0; unsigned loop = 0, single = 0; };
thread_local Ctx ctx; std::atomic<int> maxThreads{4};
std::mutex gm; std::map<void*, std::recursive_mutex*>& locks() { static auto* p = new std::map<void*, std::recursive_mutex*>; return *p; }
std::recursive_mutex& lockOf(void* p) { std::lock_guard<std::mutex> l(gm); auto& q = locks()[p]; if (!q) q = new std::recursive_mutex; return *q; }
void go(Team& t, int id, void (*fn)(void*), void* data) { Ctx old = ctx; ctx = Ctx(); ctx.team = &t; ctx.id = id; fn(data); ctx = old; }
void region(void (*fn)(void*), void* data, unsigned n, const Team::Loop* l) {
    if (ctx.team && ctx.team->size > 1) n = 1; if (n == 0) n = (unsigned)maxThreads.load(); Team t((int)n); if (l) { t.loops[0] = *l; t.loops[0].started = true; }
    std::vector<std::thread> v; for (unsigned i = 1; i < n; i++) v.emplace_back([&t, i, fn, data] { go(t, (int)i, fn, data); }); go(t, 0, fn, data); for (auto& x : v) x.join(); }
bool next(long* a, long* b) { Team& t = *ctx.team; std::lock_guard<std::mutex> g(t.m); auto& l = t.loops[ctx.loop]; bool more = l.incr > 0 ? l.next < l.end : l.next > l.end; if (!more) return false; *a = l.next; long e = l.next + l.chunk * l.incr; if (l.incr > 0 ? e > l.end : e < l.end) e = l.end; *b = e; l.next = e; return true; }
bool unext(unsigned long long* a, unsigned long long* b) { Team& t = *ctx.team; std::lock_guard<std::mutex> g(t.m); auto& l = t.loops[ctx.loop]; bool more = l.up ? l.unext < l.uend : l.unext > l.uend; if (!more) return false; *a = l.unext; unsigned long long left = l.up ? l.uend - l.unext : l.unext - l.uend, step = l.up ? l.uincr : 0ull - l.uincr; unsigned long long c = (left + step - 1) / step; if (c > l.uchunk) c = l.uchunk; unsigned long long e = l.unext + c * l.uincr; if (l.up ? e > l.uend : e < l.uend) e = l.uend; *b = e; l.unext = e; return true; }
Team& alone() { static thread_local Team t(1); return t; }
bool start(long s, long e, long i, long c, long* a, long* b) { if (!ctx.team) ctx.team = &alone(); { Team& t = *ctx.team; std::lock_guard<std::mutex> g(t.m); auto& l = t.loops[ctx.loop]; if (!l.started) { l.started = true; l.next = s; l.end = e; l.incr = i; l.chunk = c > 0 ? c : 1; } } return next(a, b); }
bool ustart(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { if (!ctx.team) ctx.team = &alone(); { Team& t = *ctx.team; std::lock_guard<std::mutex> g(t.m); auto& l = t.loops[ctx.loop]; if (!l.started) { l.started = true; l.up = up; l.unext = s; l.uend = e; l.uincr = i; l.uchunk = c > 0 ? c : 1; } } return unext(a, b); }
}
extern "C" {
typedef unsigned long long ull;
int omp_get_num_threads() { return ctx.team ? ctx.team->size : 1; }
int omp_get_thread_num() { return ctx.id; }
int omp_get_max_threads() { return maxThreads; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return ctx.team && ctx.team->size > 1; }
void omp_set_num_threads(int n) { if (n > 0) maxThreads = n; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { region(fn, d, n, nullptr); }
void GOMP_barrier() { if (ctx.team) ctx.team->barrier(); }
void GOMP_critical_start() { lockOf(nullptr).lock(); }
void GOMP_critical_end() { lockOf(nullptr).unlock(); }
void GOMP_critical_name_start(void** p) { lockOf(p).lock(); }
void GOMP_critical_name_end(void** p) { lockOf(p).unlock(); }
void GOMP_atomic_start() { lockOf((void*)1).lock(); }
void GOMP_atomic_end() { lockOf((void*)1).unlock(); }
bool GOMP_single_start() { if (!ctx.team) return true; Team& t = *ctx.team; std::lock_guard<std::mutex> g(t.m); bool& done = t.singles[ctx.single++]; bool mine = !done; done = true; return mine; }
void GOMP_loop_end() { ctx.loop++; if (ctx.team) ctx.team->barrier(); }
void GOMP_loop_end_nowait() { ctx.loop++; }
#define LOOPS(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return next(a, b); } \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ustart(up, s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return unext(a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { Team::Loop l; l.next = s; l.end = e; l.incr = i; l.chunk = c > 0 ? c : 1; region(fn, d, n, &l); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RUNTIME(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return next(a, b); } \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return ustart(up, s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return unext(a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Team::Loop l; l.next = s; l.end = e; l.incr = i; region(fn, d, n, &l); }
RUNTIME(runtime) RUNTIME(nonmonotonic_runtime) RUNTIME(maybe_nonmonotonic_runtime)
// sections
unsigned GOMP_sections_next() { long a, b; return next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { Team::Loop l; l.next = 1; l.end = (long)count + 1; region(fn, d, n, &l); }
void GOMP_sections_end() { ctx.loop++; if (ctx.team) ctx.team->barrier(); }
void GOMP_sections_end_nowait() { ctx.loop++; }
}
// Counts the exceptions thrown, also those the library catches itself.
#include <dlfcn.h>
std::atomic<int> thrown{0};
extern "C" void __cxa_throw(void* o, void* t, void (*d)(void*)) { thrown++; static auto next = (void (*)(void*, void*, void (*)(void*)))dlsym(RTLD_NEXT, "__cxa_throw"); next(o, t, d); __builtin_unreachable(); }
