// C28: parallel runs are free of data races, and separate objects can be used from separate threads.
// Built with ThreadSanitizer (a race aborts the case) and with the small OpenMP run time of gomp_shim.cpp.
#include "models.hpp"
#include <atomic>
#include <thread>
using namespace models;
const char* pbt::RULE = "the run completes and (openmp) uses two or more threads, or (objects) two or more objects ran at the same time";
extern "C" const char* __tsan_default_suppressions() { return "race:eop_lgamma\n"; } // the C library's lgamma stores a sign nobody reads
// Counts the exceptions thrown, also those the library catches itself.
extern std::atomic<int> thrown; // counted in gomp_shim.cpp
static Out finish(Model& m) { m.run(); return m.out(); }
static void openmp(Src& s, Case& c) {
    int alg; do alg = s.range(0, NALG - 1); while (!hasOmp(alg)); GenOpt g; g.nhi = 30; g.geo = false; Cfg f = genCfg(s, c, alg, g); f.threads = s.range(2, 6); c.desc << " threads=" << f.threads << " auto=" << f.autoBw << f.autoVar << f.autoLambda << " hat=" << f.hat << " cv=" << f.cv;
    if (f.autoBw || f.autoVar || f.autoLambda) c.label("search"); 
    // A location that cannot be fitted makes the threads leave early through a one-way mark; runs in which that happens are not judged.
    { Cfg q = f; q.threads = 1; auto m = make(q); thrown = 0; try { m->run(); } catch (const std::exception&) {} if (thrown) throw Discard(); }
    auto m = make(f); try { m->run(); } catch (const std::exception&) { throw Discard(); } c.interesting(); if (hasPredict(alg) && s.chance(60)) { mat loc(s.range(2, 14), 2); Rng r(f.d.seed + 5); for (size_t i = 0; i < loc.n_rows; i++) loc.row(i) = 0.5 * (f.d.coords.row(r.below(f.d.n)) + f.d.coords.row(r.below(f.d.n))); try { m->predict(loc); c.label("predict"); } catch (const std::exception&) {} }
}
// Several objects, each used by a thread of its own: no races, and each gives the result it gives alone.
static void objects(Src& s, Case& c) {
    int k = s.range(2, 4); std::vector<Cfg> f; std::vector<Out> want; bool shared = s.chance(40); for (int i = 0; i < k; i++) { if (i && shared) { f.push_back(f[0]); continue; } GenOpt g; g.nhi = 26; Cfg q = genCfg(s, c, s.range(0, NALG - 1), g); q.threads = hasOmp(q.alg) && s.chance(25) ? 2 : 0; f.push_back(q); c.desc << " threads=" << q.threads << ";"; }
    c.desc << (shared ? " same data" : " own data"); c.label(shared ? "same data" : "own data"); for (int i = 0; i < k; i++) { if (f[i].threads) f[i].threads = 1; auto m = make(f[i]); Out o; thrown = 0; try { o = finish(*m); } catch (const std::exception&) { throw Discard(); } if (f[i].threads && !thrown) f[i].threads = 2; want.push_back(o); }
    std::vector<Out> got(k); std::vector<std::string> err(k); std::atomic<int> ready{0}; std::vector<std::thread> v; for (int i = 0; i < k; i++) v.emplace_back([&, i] { ready++; while (ready < k) std::this_thread::yield(); try { auto m = make(f[i]); got[i] = finish(*m); } catch (const std::exception& e) { err[i] = e.what(); if (err[i].empty()) err[i] = "?"; } }); for (auto& t : v) t.join(); c.interesting();
    for (int i = 0; i < k; i++) { require(err[i].empty(), std::string(AN[f[i].alg]) + " fails beside other objects: " + err[i]); bool search = f[i].autoBw || f[i].autoVar || f[i].autoLambda || f[i].alg == MULTISCALE; if (f[i].threads > 1 && search) continue; std::string e = f[i].threads > 1 ? diffReordered(got[i], want[i], 1e-6) : diff(got[i], want[i], 0); require(e.empty(), std::string(AN[f[i].alg]) + " gives other results beside other objects: " + e); }
}
int main(int argc, char** argv) { pbt::add("openmp", 600, 20000, openmp); pbt::add("objects", 150, 6000, objects); return pbt::mainImpl(argc, argv); }
