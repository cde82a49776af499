// C08: OpenMP runs give the same answers as serial runs, for every algorithm and every number of threads.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "the serial run succeeds and the parallel run used at least 2 threads";
static const double TOL = 1e-7;
static void same(Src& s, Case& c, int alg) {
    Cfg f = genCfg(s, c, alg); if (alg == GWDR_) f.autoBw = false; int t = s.range(1, 12); c.desc << " threads=" << t; bool predict = hasPredict(alg) && s.chance(40); mat loc; if (predict) { int m = s.range(1, 2 * f.d.n); loc = f.d.geo ? makeLonLat(f.d.seed, m, 0) : makeCoords(f.d.seed + 5, m, 0, f.d.scale); if (s.boolean()) loc = f.d.coords.rows(0, std::min<size_t>(m, f.d.n) - 1); c.desc << " predict " << loc.n_rows; }
    auto a = make(f); Cfg g = f; g.threads = t; auto b = make(g); if (s.chance(30)) { Cfg z = f; z.threads = s.range(1, 4); b = make(z); b->threads(0); b->threads(t); }   // switching back and forth
    Res ra = runModel(*a), rb = runModel(*b); c.label(ra.threw ? "both-fail" : "both-succeed");
    require(ra.threw == rb.threw, std::string("serial ") + (ra.threw ? "fails (" + ra.what + ")" : "succeeds") + " but with " + std::to_string(t) + " threads the run " + (rb.threw ? "fails (" + rb.what + ")" : "succeeds"));
    if (ra.threw) return; c.interesting(t >= 2); std::string e = diff(ra.o, rb.o, TOL); require(e.empty(), "serial and parallel results differ: " + e); require(ra.st == rb.st, "status differs");
    if (predict) { mat pa, pb; bool ta = throws([&] { pa = a->predict(loc); }), tb = throws([&] { pb = b->predict(loc); }); require(ta == tb, "prediction fails in one mode only"); if (!ta) { c.label("predicted"); Out x, y; x.add("prediction", pa); y.add("prediction", pb); e = diff(x, y, TOL); require(e.empty(), "serial and parallel predictions differ: " + e); } }
}
// The criterion of one and the same bandwidth is the same number in both modes (or rejected in both).
static void criterion(Src& s, Case& c) {
    static const int AL[] = {BASIC, GWDR_, GTWR_, LCR, POISSON, BINOMIAL, ROBUST}; int alg = AL[s.below(7)]; GenOpt g; g.autos = false; Cfg f = genCfg(s, c, alg, g); int t = s.range(1, 12); f.hat = true; Cfg h = f; h.threads = t; auto a = make(f), b = make(h);
    Res ra = runModel(*a), rb = runModel(*b); if (ra.threw || rb.threw) throw Discard(); c.desc << " threads=" << t;
    std::vector<Bw> bs = alg == GWDR_ ? f.bs : std::vector<Bw>{f.b}; bool empty = s.chance(25); if (empty && (f.d.layout == 5 || (!f.cv && alg != LCR))) empty = false;
    for (auto& q : bs) { if (empty) { q.kernel = (BandwidthWeight::KernelFunctionType)s.range(2, 4); q.adaptive = false; q.bw = 1e-9 * f.d.scale; } else { q.kernel = (BandwidthWeight::KernelFunctionType)s.below(2); q.bw *= s.real(0.8, 2); if (q.adaptive) q.bw = std::ceil(q.bw); } c.desc << " at " << KN[q.kernel] << " " << q.bw; }
    double ca, cb; ca = a->criterion(bs); cb = b->criterion(bs); c.label(ca == DBL_MAX ? "rejected" : "accepted"); c.interesting(t >= 2);
    if ((ca == DBL_MAX) != (cb == DBL_MAX)) {
        throw Fail("the bandwidth is rejected in one mode only: serial " + num(ca) + ", parallel " + num(cb)); }
    if (empty) require(ca == DBL_MAX, "a bandwidth that leaves every observation without neighbours is scored " + num(ca));
    if (ca != DBL_MAX) closeTo("parallel criterion", cb, ca, 1e-6L);
}
// Many observations, many threads, repeated: schedules that expose unsynchronised shared state.
static void race(Src& s, Case& c) {
    int alg = s.below(MULTISCALE); GenOpt g; g.autos = false; g.nlo = 80; g.nhi = 220; Cfg f = genCfg(s, c, alg, g); int t = s.range(3, 16); c.desc << " threads=" << t << " repeated"; auto a = make(f); Res ra = runModel(*a); if (ra.threw) throw Discard(); c.interesting();
    Cfg h = f; h.threads = t; auto b = make(h); for (int k = 0; k < 3; k++) { Res rb = runModel(*b); require(!rb.threw, "parallel repetition fails: " + rb.what); std::string e = diff(ra.o, rb.o, TOL); require(e.empty(), "serial and repeated parallel results differ: " + e); }
}
// Singular local regressions: both modes must fail (or both reject the bandwidth), never crash or return numbers in one mode only.
static void singular(Src& s, Case& c) {
    static const int AL[] = {BASIC, ROBUST, LCR, GTWR_, GWDR_, POISSON, MULTISCALE}; int alg = AL[s.below(7)]; GenOpt g; g.autos = false; Cfg f = genCfg(s, c, alg, g); int z = s.range(1, f.d.k - 1); f.d.x.col(z).zeros(); int t = s.range(1, 12); c.desc << " zero column " << z << " threads=" << t; c.interesting(t >= 2);
    auto a = make(f); Cfg h = f; h.threads = t; auto b = make(h); Res ra = runModel(*a), rb = runModel(*b); c.label(ra.threw ? "both-fail" : "both-succeed");
    require(ra.threw == rb.threw, std::string("serial ") + (ra.threw ? "fails (" + ra.what + ")" : "succeeds") + " but with " + std::to_string(t) + " threads the run " + (rb.threw ? "fails (" + rb.what + ")" : "succeeds"));
    if (!ra.threw && alg != LCR) { std::string e = diff(ra.o, rb.o, 1e-6); require(e.empty(), "results differ: " + e); }
}
int main(int argc, char** argv) {
    static const int Q[] = {1200, 800, 800, 500, 500, 800, 500, 800, 800, 500, 500, 250};
    for (int a = 0; a < SCALABLE; a++) pbt::add(AN[a], Q[a] * 2, Q[a] * 50, [a](Src& s, Case& c) { same(s, c, a); }, 120);
    pbt::add("criterion", 2500, 60000, criterion);
    pbt::add("race", 400, 8000, race);
    pbt::add("singular", 800, 20000, singular);
    return pbt::mainImpl(argc, argv);
}
