// C18: multiscale GWR — backfitting, per-variable bandwidth selection and diagnostics against an executable specification.
#include "models.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
const char* pbt::RULE = "at least two backfitting sweeps or one selected bandwidth, all local regressions well conditioned, no decision (stopping, golden-section comparison) at a rounding tie; every output is compared";
struct Spec { const Data* d; M X; V Y; std::vector<Bw> b; std::vector<int> init; std::vector<int> crit; std::vector<double> thr; size_t retry, maxit; bool cvr, hat; double eps, lo = -1, hi = -1; int adLow = 10; long evals = 0, sweeps = 0; bool tie = false; };
struct Uni { V be; M S; R tr = 0; bool ok = true; };
static Uni uni(const M& X, int j, const V& y, const std::vector<V>& W, bool cv, bool wantS) {
    size_t n = X.r; Uni u; u.be.assign(n, 0); if (wantS) u.S = M(n, n);
    for (size_t i = 0; i < n; i++) { R a = 0, b = 0, m = 0; for (size_t q = 0; q < n; q++) { m = std::max(m, X(q, j) * X(q, j)); if (cv && q == i) continue; a += W[i][q] * X(q, j) * X(q, j); b += W[i][q] * X(q, j) * y[q]; } if (!(a > 1e-9L * m)) { u.ok = false; return u; } u.be[i] = b / a; u.tr += X(i, j) * X(i, j) * W[i][i] / a; if (wantS) for (size_t q = 0; q < n; q++) u.S(i, q) = X(i, j) * W[i][q] * X(q, j) / a; }
    return u;
}
static R critVal(Spec& s, int j, const V& y, const Bw& b) {
    s.evals++; if (onEdge(s.d->D, b)) throw Discard(); auto W = refWeights(s.d->D, b); bool cv = s.crit[j] == 0; Uni u = uni(s.X, j, y, W, cv, false); if (!u.ok) throw Discard(); R rss = 0; size_t n = s.X.r; for (size_t i = 0; i < n; i++) { R e = y[i] - s.X(i, j) * u.be[i]; rss += e * e; } if (cv) return rss; R N = n; if (rss < 1e-9L) throw Discard(); return N * std::log(rss / N) + N * std::log(2 * 3.14159265358979323846264338L) + N * (N + u.tr) / (N - 2 - u.tr);
}
static double golden(Spec& s, int j, const V& y) {
    Bw b = s.b[j]; bool ad = b.adaptive; double L = s.lo >= 0 ? s.lo : ad ? s.adLow : 0, U = s.hi >= 0 ? s.hi : ad ? s.d->n : maxDist(*s.d); const double G = (std::sqrt(5.0) - 1) / 2; double d = G * (U - L), l = L, u = U, x1 = ad ? std::floor(L + d) : L + d, x2 = ad ? std::round(U - d) : U - d;
    auto f = [&](double x) { Bw t = b; t.bw = x; return critVal(s, j, y, t); }; R f1 = f(x1), f2 = f(x2); int it = 0; double xo;
    auto less = [&] { if (x1 != x2 && std::fabs(f1 - f2) < 1e-8L * (1 + std::fabs(f1) + s.d->n)) throw Discard(); return f1 < f2; }; xo = less() ? x1 : x2; R df = f2 - f1; 
    auto go = [&] { if (x1 != x2 && std::fabs(std::fabs(df) - 1e-4L) < 1e-8L * (1 + std::fabs(f1) + s.d->n)) throw Discard(); return std::fabs(d) > 1e-4 && std::fabs(df) > 1e-4L && it < 100; };
    while (go()) { d *= G; if (less()) { l = x2; x2 = x1; x1 = ad ? std::min(std::round(l + d), U) : l + d; f2 = f1; f1 = f(x1); } else { u = x1; x1 = x2; x2 = ad ? std::max(std::floor(u - d), L) : u - d; f1 = f2; f2 = f(x2); } it++; xo = (x1 == x2 && f1 == f2) ? x2 : less() ? x1 : x2; df = f2 - f1; }
    return xo;
}
struct Res18 { M be; std::vector<double> bw; R rss, trS = 0, trSS = 0; };
static Res18 solve(Spec& s, double bw0, R& cond) {
    size_t n = s.X.r, k = s.X.c; Bw b0 = s.b[0]; b0.bw = bw0; if (onEdge(s.d->D, b0)) throw Discard(); auto W0 = refWeights(s.d->D, b0); M be(n, k); std::vector<M> SA(k, s.hat ? M(n, n) : M(0, 0)); M S0(n, n);
    for (size_t i = 0; i < n; i++) { V x0 = ref::row(s.X, i); ref::Local L = ref::wls(s.X, s.Y, W0[i], &x0, true); if (!L.ok || L.cond > 1e7L) throw Discard(); cond = std::max(cond, L.cond); for (size_t j = 0; j < k; j++) { be(i, j) = L.beta[j]; if (s.hat) for (size_t q = 0; q < n; q++) SA[j](i, q) = s.X(i, j) * L.C(j, q); } if (s.hat) for (size_t q = 0; q < n; q++) S0(i, q) = L.s[q]; }
    for (size_t j = 0; j < k; j++) if (s.init[j] == 0) s.b[j].bw = golden(s, j, s.Y);
    auto resid = [&] { V r(n); for (size_t i = 0; i < n; i++) { r[i] = s.Y[i]; for (size_t j = 0; j < k; j++) r[i] -= be(i, j) * s.X(i, j); } return r; }; auto ss = [](const V& v) { R t = 0; for (auto x : v) t += x * x; return t; }; V r = resid(); R rss0 = ss(r), tss = ss(s.Y), crit = 1e300L; std::vector<size_t> cnt(k, 0); std::vector<int> init = s.init;
    for (size_t it = 1; it <= s.maxit && crit > s.eps; it++) { s.sweeps++;
        for (size_t j = 0; j < k; j++) { V y(n); for (size_t i = 0; i < n; i++) y[i] = r[i] + be(i, j) * s.X(i, j);
            if (init[j] != 2) { double nb = golden(s, j, y), ob = s.b[j].bw, df = std::fabs(nb - ob); if (std::fabs(df - s.thr[j]) < 1e-7 * (1e-3 + s.thr[j])) throw Discard(); if (df > s.thr[j]) cnt[j] = 0; else if (++cnt[j] >= s.retry) init[j] = 2; s.b[j].bw = nb; }
            if (onEdge(s.d->D, s.b[j])) throw Discard(); auto W = refWeights(s.d->D, s.b[j]); Uni u = uni(s.X, j, y, W, false, s.hat); if (!u.ok) throw Discard(); for (size_t i = 0; i < n; i++) be(i, j) = u.be[i]; r = resid();
            if (s.hat) { M A(n, n), Nw(n, n); for (size_t e = 0; e < n * n; e++) A.a[e] = SA[j].a[e] - S0.a[e]; for (size_t a = 0; a < n; a++) for (size_t q = 0; q < n; q++) { R v = u.S(a, q); if (v == 0) continue; for (size_t e = 0; e < n; e++) Nw(a, e) += v * A(q, e); } for (size_t e = 0; e < n * n; e++) { Nw.a[e] += u.S.a[e]; S0.a[e] = Nw.a[e] - A.a[e]; } SA[j] = Nw; } }
        R rss1 = ss(r); crit = s.cvr ? std::fabs(rss1 - rss0) : std::sqrt(std::fabs(rss1 - rss0) / rss1); if (std::fabs(crit - s.eps) < 1e-3L * s.eps + (s.cvr ? 1e-9L * tss : 0)) throw Discard(); if (rss1 < 1e-9L * tss) throw Discard(); rss0 = rss1; }
    Res18 o; o.be = be; o.rss = rss0; for (auto& b : s.b) o.bw.push_back(b.bw); if (s.hat) for (size_t i = 0; i < n; i++) { o.trS += S0(i, i); for (size_t q = 0; q < n; q++) o.trSS += S0(i, q) * S0(i, q); } return o;
}
static Bw genB(Src& s, Case& c, const Data& d, bool smooth) { Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(smooth ? 2 : 5); b.adaptive = s.boolean(); bool cp = b.kernel >= 2; b.bw = b.adaptive ? s.range(std::min(d.n, cp ? d.n / 3 + 4 : 6), d.n + 5) : maxDist(d) * (cp ? s.real(0.5, 1.4) : s.real(0.08, 1.2)); c.desc << " [" << KN[b.kernel] << (b.adaptive ? " adaptive " : " fixed ") << b.bw; return b; }
static void run(Src& s, Case& c, bool search) {
    Data d = genData(s, c, search ? 24 : 22, search ? 36 : 44, 1, search ? 3 : 4, true, {0, 2, 4, 1, 5}); Spec p; p.d = &d; size_t k = d.k; std::vector<bool> cen; std::vector<SpatialWeight> v; bool icpt = !s.chance(25); if (!icpt && s.boolean()) { Rng r(d.seed + 77); for (int i = 0; i < d.n; i++) d.x(i, 0) = 2 + r.normal(); }
    for (size_t j = 0; j < k; j++) { Bw b = genB(s, c, d, search); p.b.push_back(b); int in = 2; if (search) { in = s.range(0, 2); } p.init.push_back(in); p.crit.push_back(s.range(0, 1)); static const double T[] = {1e-5, 1e-3, 0.5, 3}; p.thr.push_back(T[s.below(4)]); cen.push_back(s.chance(40)); c.desc << " init=" << in << (p.crit[j] ? " AIC" : " CV") << " thr=" << p.thr[j] << " centred=" << cen[j] << "]"; v.push_back(sw(b, d.geo)); }
    static const double E[] = {1e-3, 1e-1, 1e-2, 1e-5, 10}; p.eps = E[s.below(search ? 3 : 5)]; p.cvr = s.boolean(); p.maxit = s.chance(40) ? s.range(1, 6) : search ? 12 : 60; p.retry = s.range(1, 4); p.hat = !s.chance(30); int t = s.range(0, 4); if (s.chance(25)) { p.adLow = s.range(8, 18); }
    c.desc << " intercept=" << icpt << (p.cvr ? " CVR" : " dCVR") << " eps=" << p.eps << " maxiter=" << p.maxit << " retry=" << p.retry << " hat=" << p.hat << " threads=" << t << " adaptiveLower=" << p.adLow;
    mat xc = d.x; for (size_t j = icpt ? 1 : 0; j < k; j++) if (cen[j]) { xc.col(j) -= arma::mean(xc.col(j)); if (arma::abs(xc.col(j)).max() < 1e-9) throw Discard(); } p.X = M::from(xc); p.Y = ref::vfrom(d.y);
    if (search && s.chance(25)) { bool ad = p.b[0].adaptive; bool same = true; for (auto& b : p.b) same &= b.adaptive == ad; if (same) { p.lo = ad ? s.range(6, 12) : maxDist(d) * 0.1; p.hi = ad ? d.n - s.range(0, 4) : maxDist(d) * s.real(0.7, 1.3); c.desc << " bounds [" << p.lo << "," << p.hi << "]"; c.label("bounds"); } }
    // the starting values come from a basic model whose bandwidth is selected automatically (checked on its own in C04)
    double bw0; { GWRBasic g(xc, d.y, d.coords, v[0]); g.setIsAutoselectBandwidth(true); g.setBandwidthSelectionCriterion(p.crit[0] ? GWRBasic::AIC : GWRBasic::CV); if (p.lo >= 0) { g.setGoldenLowerBounds(p.lo); g.setGoldenUpperBounds(p.hi); } try { g.fit(); } catch (const std::exception&) { throw Discard(); } bw0 = g.spatialWeight().weight<BandwidthWeight>()->bandwidth(); }
    R cond = 1; std::vector<Bw> given = p.b; Res18 q = solve(p, bw0, cond); c.interesting(p.sweeps >= 2 || p.evals > 0); c.label("sweeps=" + std::to_string(std::min<long>(p.sweeps, 10))); if (p.evals) c.label("bandwidths selected");
    auto conf = [&](GWRMultiscale& a) { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); a.setSpatialWeights(v); std::vector<GWRMultiscale::BandwidthInitilizeType> in; for (int i : p.init) in.push_back((GWRMultiscale::BandwidthInitilizeType)i); a.setBandwidthInitilize(in); std::vector<GWRMultiscale::BandwidthSelectionCriterionType> cr; for (int i : p.crit) cr.push_back(i ? GWRMultiscale::AIC : GWRMultiscale::CV); a.setBandwidthSelectionApproach(cr); a.setPreditorCentered(cen); a.setBandwidthSelectThreshold(p.thr); a.setBandwidthSelectRetryTimes(p.retry); a.setMaxIteration(p.maxit); a.setCriterionType(p.cvr ? GWRMultiscale::CVR : GWRMultiscale::dCVR); a.setCriterionThreshold(p.eps); a.setHasHatMatrix(p.hat); a.setHasIntercept(icpt); a.setAdaptiveLower(p.adLow); if (p.lo >= 0) { a.setGoldenLowerBounds(p.lo); a.setGoldenUpperBounds(p.hi); } if (t) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); } };
    std::unique_ptr<GWRMultiscale> ap; if (s.boolean()) { ap.reset(new GWRMultiscale(d.x, d.y, d.coords, v)); c.label("constructor"); } else ap.reset(new GWRMultiscale()); GWRMultiscale& a = *ap; conf(a); require(a.isValid(), "a consistent model is reported invalid"); mat r = a.fit(); require(a.status() == Status::Success, "status is not Success");
    for (size_t j = 0; j < k; j++) { auto* w = a.spatialWeights()[j].weight<BandwidthWeight>(); require(w->adaptive() == given[j].adaptive && w->kernel() == given[j].kernel, "kernel or bandwidth type of variable " + std::to_string(j) + " changed"); if (given[j].adaptive) require(w->bandwidth() == q.bw[j], "bandwidth of variable " + std::to_string(j) + ": got " + num(w->bandwidth()) + ", expected " + num(q.bw[j])); else closeTo("bandwidth of variable " + std::to_string(j), w->bandwidth(), q.bw[j], p.evals ? 1e-7L : 1e-15L); }
    R tol = (1e-8L + cond * 1e-13L) * 100, fl = 1e-3L * maxabs(q.be); matClose("returned coefficients", r, q.be, tol, fl); matClose("coefficients", a.betas(), q.be, tol, fl);
    auto g = a.diagnostic(); R N = d.n, tss = 0, my = 0, y2 = 0; for (auto y : p.Y) my += y; my /= N; for (auto y : p.Y) { tss += (y - my) * (y - my); y2 += y * y; } R rt = tol * y2; closeTo("RSS", g.RSS, q.rss, 0, rt); R lg = std::log(q.rss / N), lt = N * rt / q.rss; const R P2 = std::log(2 * 3.14159265358979323846264338L);
    closeTo("AIC", g.AIC, N * lg + N * P2 + N + q.trS, 0, lt + tol * N); if (std::fabs(N - 2 - q.trS) > 0.5L) closeTo("AICc", g.AICc, N * lg + N * P2 + N * (N + q.trS) / (N - 2 - q.trS), 0, lt + tol * N * N * 10); closeTo("ENP", g.ENP, 2 * q.trS - q.trSS, 0, tol * N); R edf = N - 2 * q.trS + q.trSS; closeTo("EDF", g.EDF, edf, 0, tol * N); R r2 = 1 - q.rss / tss; closeTo("R2", g.RSquare, r2, 0, rt / tss); if (std::fabs(edf - 1) > 0.1L) closeTo("adjusted R2", g.RSquareAdjust, 1 - (1 - r2) * (N - 1) / (edf - 1), 0, (rt / tss + tol * (1 - r2)) * N * 100);
    c.label(t ? "openmp" : "serial");
}
static void fixedBw(Src& s, Case& c) { run(s, c, false); }
static void search(Src& s, Case& c) { run(s, c, true); }
int main(int argc, char** argv) { pbt::add("backfitting", 4000, 60000, fixedBw); pbt::add("search", 1500, 20000, search); return pbt::mainImpl(argc, argv); }
