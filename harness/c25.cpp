// C25: robustness — any configuration an algorithm accepts, however odd its data and settings, is answered with results or an error: no memory error, undefined behaviour, crash or hang (run under AddressSanitizer and UndefinedBehaviorSanitizer).
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "the configuration is accepted as valid and differs from a well-posed one in at least one of: sample size, degenerate or extreme data, extreme bandwidths, search bounds or limits; the fit, prediction or criterion was actually executed";
static double weird(Src& s) { static const double V[] = {0, 1, -1, 1e-300, 1e300, -1e300, 1e-12, 1e15, 0.5, 2, INFINITY, NAN}; return V[s.below(12)]; }
static double weirdPlace(Src& s) { static const double V[] = {0, 1, -1, 1e-300, 1e150, -1e150, 1e-12, 1e15, 0.5, 2, INFINITY, NAN}; return V[s.below(12)]; }
static Cfg odd(Src& s, Case& c, int alg) {
    GenOpt g; g.nhi = 22; Cfg f = genCfg(s, c, alg, g); Data& d = f.d; f.threads = hasOmp(alg) && s.chance(35) ? s.range(1, 5) : 0; int n = d.n; c.desc << " threads=" << f.threads << " ODD:";
    auto cut = [&](int m) { d.n = m; d.x = mat(d.x.head_rows(m)); d.y = vec(d.y.head(m)); d.coords = mat(d.coords.head_rows(m)); if (f.times.n_elem) f.times = vec(f.times.head(m)); if (!f.groups.empty()) f.groups.resize(m); };
    int times = s.range(1, 3); for (int q = 0; q < times; q++) switch (s.range(0, 13)) {
    case 0: { int m = s.range(1, std::min(n, 6)); if (d.n > m) { cut(m); c.desc << " n=" << m; c.label("tiny sample"); } break; }
    case 1: { double v = weird(s); d.y.fill(v); c.desc << " y=" << v; c.label("constant response"); break; }
    case 2: { int j = s.range(0, (int)d.x.n_cols - 1); double v = weird(s); d.x.col(j).fill(v); c.desc << " x" << j << "=" << v; c.label("constant column"); break; }
    case 3: { int i = s.range(0, d.n - 1), j = s.range(0, (int)d.x.n_cols - 1); double v = weird(s); d.x(i, j) = v; c.desc << " x(" << i << "," << j << ")=" << v; c.label("odd value in x"); break; }
    case 4: { int i = s.range(0, d.n - 1); double v = weird(s); d.y(i) = v; c.desc << " y(" << i << ")=" << v; c.label("odd value in y"); break; }
    case 5: { int i = s.range(0, d.n - 1); double v = weirdPlace(s); d.coords(i, s.range(0, 1)) = v; c.desc << " coordinate=" << v; c.label("odd coordinate"); break; }
    case 6: { for (int i = 0; i < d.n; i++) d.coords.row(i) = d.coords.row(0); c.desc << " one place"; c.label("coincident"); break; }
    case 7: { static const double B[] = {1, 2, 3, 1e-12, 1e12, 0.25, 1.5, 5, 1e300, INFINITY}; double b = B[s.below(10)]; bool ad = s.boolean(); int k = s.range(0, 4); f.b.bw = b; f.b.adaptive = ad; f.b.kernel = (BandwidthWeight::KernelFunctionType)k; for (auto& z : f.bs) { z.bw = b; z.adaptive = ad; z.kernel = f.b.kernel; } c.desc << " " << KN[k] << (ad ? " adaptive " : " fixed ") << b; c.label("odd bandwidth"); break; }
    case 8: { int k = d.n + s.range(-1, 2); if (k < 1 || alg == MULTISCALE) break; Rng r(d.seed); mat x(d.n, k); for (auto& v : x) v = r.normal(); x.col(0).ones(); d.x = x; d.k = k; c.desc << " k=" << k; c.label("as many variables as observations"); break; }
    case 9: { d.x = mat(d.x.col(0)); d.k = 1; f.bs.resize(std::min<size_t>(f.bs.size(), alg == MULTISCALE ? 1 : 2)); if (alg == MULTISCALE) { f.init.resize(1); f.centred.resize(1); } c.desc << " one variable"; c.label("one variable"); break; }
    case 10: f.autoBw = f.autoBw || alg == BASIC || alg == ROBUST || alg == LCR || alg == POISSON || alg == BINOMIAL || alg == GTWR_ || alg == GWDR_; c.desc << " autobw"; break;
    case 11: f.autoVar = f.autoVar || alg == BASIC || alg == ROBUST || alg == GWDR_; f.thr = weird(s); c.desc << " autovar threshold=" << f.thr; break;
    case 12: if (!f.groups.empty()) { int m = s.range(0, 2); for (size_t i = 0; i < f.groups.size(); i++) f.groups[i] = m == 0 ? "same" : m == 1 ? std::to_string(i) : f.groups[i]; c.desc << (m == 0 ? " one group" : m == 1 ? " a group each" : ""); } f.poly = s.range(0, 12); f.keep = s.range(1, 8); c.desc << " polynomial=" << f.poly << " keep=" << f.keep; break;
    default: { double v = weirdPlace(s); if (f.times.n_elem) f.times.fill(v); f.ridge = weird(s); f.cn = weird(s); f.adjust = true; f.lambda = s.pick(std::vector<double>{0, 1, 0.5}); c.desc << " times=" << v << " ridge=" << f.ridge << " cn=" << f.cn << " lambda=" << f.lambda; } }
    return f;
}
static void robust(Src& s, Case& c) {
    int alg = s.range(0, NALG - 1); Cfg f = odd(s, c, alg); std::unique_ptr<Model> m; try { m = make(f); } catch (const std::exception&) { c.label("refused"); throw Discard(); } if (!m->valid()) { c.label("invalid"); throw Discard(); } c.interesting(); c.label(AN[alg]); int np = s.range(0, 4); bool pred = hasPredict(alg) && s.boolean();
    Res r = runModel(*m); c.label(r.threw ? "error" : "result"); require(r.threw || r.st == Status::Success, "a run that nobody cancelled ends with status " + std::to_string((int)r.st));
    if (pred && np > 0) { Rng q(s.seed()); mat loc(np, 2); for (auto& v : loc) v = q.real(-1, 1) * f.d.scale; if (s.chance(20)) { double v = weirdPlace(s); if (std::isfinite(v)) loc(0, 0) = v; }; c.desc << " predict " << np; try { m->predict(loc); c.label("prediction"); } catch (const std::exception&) { c.label("prediction error"); } }
    if (!r.threw && !pred && !f.autoVar && s.chance(30)) { std::vector<Bw> b = f.bs.empty() ? std::vector<Bw>{f.b} : f.bs; for (auto& z : b) { double v = weird(s); if (v > 0) z.bw = v; } c.desc << " criterion at " << b[0].bw; if (b[0].adaptive && b[0].bw < 1) throw Discard(); try { m->criterion(b); c.label("criterion"); } catch (const std::exception&) { } catch (const Discard&) {} }
}
// the local regressions fail in some or all places, mostly with threads and with selections, so that an error has to leave every kind of parallel region and search
static void failing(Src& s, Case& c) {
    int alg = s.range(0, NALG - 1); GenOpt g; g.nhi = 24; Cfg f = genCfg(s, c, alg, g); Data& d = f.d; f.threads = hasOmp(alg) && s.chance(80) ? s.range(1, 4) : 0; c.desc << " threads=" << f.threads << " FAILING:";
    bool sel = alg == BASIC || alg == ROBUST || alg == GWDR_; if (sel && s.chance(45)) { f.autoVar = true; f.thr = s.boolean() ? 3 : 0.01; c.desc << " autovar"; } if ((sel || alg == LCR || alg == POISSON || alg == BINOMIAL || alg == GTWR_) && s.chance(35)) { f.autoBw = true; c.desc << " autobw"; }
    auto all = [&](double b, bool ad, int k) { f.b.bw = b; f.b.adaptive = ad; f.b.kernel = (BandwidthWeight::KernelFunctionType)k; for (auto& z : f.bs) { z.bw = b; z.adaptive = ad; z.kernel = f.b.kernel; } c.desc << " " << KN[k] << (ad ? " adaptive " : " fixed ") << b; };
    int kx = (int)d.x.n_cols; for (int q = s.range(1, 2); q > 0; q--) switch (s.range(0, 5)) {
    case 0: d.x.col(s.range(0, kx - 1)).zeros(); c.desc << " zero column"; break;
    case 1: if (kx > 1) { int a = s.range(0, kx - 1), b = (a + 1) % kx; d.x.col(b) = d.x.col(a); c.desc << " equal columns"; } break;
    case 2: { int i = s.range(0, d.n - 1); d.coords(i, 0) += 1000 * d.scale; d.geo = false; for (int j = 0; j < kx; j++) d.x(i, j) = 0; all(20 * d.scale, false, s.range(2, 4)); c.desc << " isolated zero observation " << i; break; }
    case 3: all(1e-6, false, s.range(2, 4)); break;
    case 4: all(s.range(1, 3), true, s.range(2, 4)); break;
    default: { int i = s.range(0, d.n - 1); d.x(i, s.range(0, kx - 1)) = s.boolean() ? NAN : INFINITY; c.desc << " non-finite value in " << i; } }
    std::unique_ptr<Model> m; try { m = make(f); } catch (const std::exception&) { c.label("refused"); throw Discard(); } if (!m->valid()) { c.label("invalid"); throw Discard(); } c.interesting(); c.label(AN[alg]); if (f.threads) c.label("threads"); if (f.autoVar || f.autoBw) c.label("selection");
    Res r = runModel(*m); c.label(r.threw ? "error" : "result"); require(r.threw || r.st == Status::Success, "a run that nobody cancelled ends with status " + std::to_string((int)r.st));
    if (hasPredict(alg) && s.chance(60)) { Rng q(s.seed()); mat loc(s.range(1, 4), 2); for (auto& v : loc) v = q.real(-1, 1) * d.scale; c.desc << " predict"; try { m->predict(loc); c.label("prediction"); } catch (const std::exception&) { c.label("prediction error"); } }
    else if (!f.autoVar && s.chance(60) && !r.threw) { std::vector<Bw> b = f.bs.empty() ? std::vector<Bw>{f.b} : f.bs; for (auto& z : b) z.bw = z.adaptive ? 2 : 1e-7; c.desc << " criterion at " << b[0].bw; try { m->criterion(b); c.label("criterion"); } catch (const std::exception&) { } catch (const Discard&) {} }
}
int main(int argc, char** argv) { pbt::add("robust", 2500, 60000, robust, 90); pbt::add("failing", 1800, 40000, failing, 90); return pbt::mainImpl(argc, argv); }
