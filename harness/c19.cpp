// C19: geographically and temporally weighted regression against local weighted least squares over space-time distances.
#include "gwrcheck.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
#ifndef PART
const char* pbt::RULE = "at least two distinct times, every local normal matrix has condition number below 1e8; every output is compared with the long-double reference";
#endif
struct St { Data d; vec t; double lam, ang; bool obl; };
static R stDist(const St& p, size_t i, size_t j, R lam) { R s = p.d.geo ? ref::greatCircle(p.d.coords(i, 0), p.d.coords(i, 1), p.d.coords(j, 0), p.d.coords(j, 1)) : ref::euclid(p.d.coords(i, 0), p.d.coords(i, 1), p.d.coords(j, 0), p.d.coords(j, 1)), t = (R)p.t(i) - (R)p.t(j); if (lam == 1) return s; if (t < 0) return 1e13L; return lam * s + (1 - lam) * t + 2 * std::sqrt(lam * (1 - lam) * s * t) * (p.obl ? std::cos((R)p.ang) : 1); }
static std::vector<V> dists(const St& p, R lam) { std::vector<V> D(p.d.n, V(p.d.n)); for (int i = 0; i < p.d.n; i++) for (int j = 0; j < p.d.n; j++) D[i][j] = stDist(p, i, j, lam); return D; }
static St genSt(Src& s, Case& c, int nlo, int nhi, int khi) {
    St p; p.d = genData(s, c, nlo, nhi, 1, khi, true, {0, 2, 4, 1, 5}); Data& d = p.d; Rng r(d.seed + 5); p.t = vec(d.n); bool disc = !s.chance(40); double span = d.geo ? 200 : d.scale; int T = s.range(2, 6); int first = s.range(std::min(d.n, 2 * d.k + 4), d.n - 1);
    for (int i = 0; i < d.n; i++) p.t(i) = disc ? (double)r.below(T) * span * 0.3 : r.unit() * span; for (int q = 0; q < first; q++) p.t((q * 7 + 3) % d.n) = 0; if (d.n % 7 == 0) for (int q = 0; q < first; q++) p.t(q) = 0;
    int lk = s.range(0, 5); p.lam = lk == 0 ? 1 : lk == 1 ? 0 : s.real(0.02, 0.98); p.obl = s.boolean(); p.ang = p.obl ? s.real(0.05, 1.5) : 0; c.desc << (disc ? " periods" : " continuous time") << " lambda=" << p.lam; if (p.obl) c.desc << " angle=" << p.ang; c.label(p.lam == 1 ? "lambda=1" : p.lam == 0 ? "lambda=0" : "mixed"); c.label(p.obl ? "oblique" : "orthogonal"); return p;
}
static Bw genStBw(Src& s, Case& c, const St& p, const std::vector<V>& D) { R m = 0; for (auto& v : D) for (auto x : v) if (x < 1e12L) m = std::max(m, x); Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(5); b.adaptive = s.chance(35); bool cp = b.kernel >= 2; if (b.adaptive) b.bw = p.lam < 1 ? s.range(std::min(p.d.n, 2 * p.d.k + 3), p.d.n) : s.range(std::min(p.d.n, cp ? p.d.n / 3 + 2 * p.d.k : p.d.k + 3), p.d.n + 6); else b.bw = (double)m * (cp ? s.real(0.5, 1.6) : s.real(0.12, 1.5)); c.desc << " " << KN[b.kernel] << (b.adaptive ? " adaptive " : " fixed ") << b.bw; c.label(b.adaptive ? "adaptive" : "fixed"); return b; }
static SpatialWeight stw(const St& p, const Bw& b, double lam) { CRSDistance sd(p.d.geo); OneDimDistance td; BandwidthWeight w(b.bw, b.adaptive, b.kernel); if (p.obl) { CRSSTDistance q(&sd, &td, lam, p.ang); return SpatialWeight(&w, &q); } CRSSTDistance q(&sd, &td, lam); return SpatialWeight(&w, &q); }
static std::unique_ptr<GTWR> build(Src& s, const St& p, const Bw& b, int t, bool hat) {
    std::unique_ptr<GTWR> a; if (s.boolean()) a.reset(new GTWR(p.d.x, p.d.y, p.d.coords, stw(p, b, p.lam), hat)); else { a.reset(new GTWR()); a->setIndependentVariables(p.d.x); a->setDependentVariable(p.d.y); a->setSpatialWeight(stw(p, b, p.lam)); a->setHasHatMatrix(hat); } a->setCoords(p.d.coords, p.t); if (t) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(t); } return a;
}
static bool usable(const St& p, const std::vector<V>& D, const Bw& b) { if (onEdge(D, b)) return false; (void)p; for (auto& v : D) { R e = b.adaptive ? ref::adaptiveDistance(v, b.bw) : (R)b.bw; if (!(e > 1e-9L)) return false; } return true; }
static void fit(Src& s, Case& c) {
    St p = genSt(s, c, 14, 50, 4); auto D = dists(p, p.lam); Bw b = genStBw(s, c, p, D); int t = s.range(0, 5); bool hat = !s.chance(20); c.desc << " threads=" << t; if (!usable(p, D, b)) throw Discard(); ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, refWeights(D, b)); if (!g.ok || g.maxCond > 1e8L) throw Discard(); c.interesting(arma::unique(p.t).eval().n_elem >= 2); c.label(t ? "openmp" : "serial");
    auto a = build(s, p, b, t, hat); require(a->isValid(), "a consistent model is reported invalid"); mat r = a->fit(); require(a->status() == Status::Success, "status is not Success"); checkFit(c, *a, r, g, p.d, hat);
    if (s.chance(20)) { c.label("fitted twice"); mat r2 = a->fit(); checkFit(c, *a, r2, g, p.d, hat); }
    // an observation made later than a location's time has no influence there (fixed bandwidth, lambda below one)
    if (!b.adaptive && p.lam < 1 && p.t.max() > p.t.min() && s.chance(50)) { c.label("no influence of the future"); St q = p; double mx = p.t.max(); for (int i = 0; i < p.d.n; i++) if (p.t(i) == mx) { q.d.y(i) = q.d.y(i) * 3 + 100; } auto e = build(s, q, b, t, hat); mat r3 = e->fit(); for (int i = 0; i < p.d.n; i++) if (p.t(i) < mx) for (int j = 0; j < p.d.k; j++) closeTo("coefficient at a location before the changed observations", r3(i, j), r(i, j), 1e-10L, 1e-12L * (1 + std::fabs(r(i, j)))); }
}
static void criterion(Src& s, Case& c) {
    St p = genSt(s, c, 14, 45, 4); auto D = dists(p, p.lam); Bw b = genStBw(s, c, p, D); int t = s.range(0, 5); bool cv = s.boolean(), before = s.boolean(); c.desc << " threads=" << t << (cv ? " CV" : " AICc"); if (!usable(p, D, b)) throw Discard(); ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, refWeights(D, b), cv); if (!g.ok || g.maxCond > 1e7L) throw Discard(); if (!cv && (std::fabs((double)(p.d.n - 2 - g.trS)) < 0.5 || g.rss < 1e-8L * g.tss)) throw Discard();
    c.interesting(arma::unique(p.t).eval().n_elem >= 2); c.label(cv ? "CV" : "AICc"); Bw o = b; o.bw *= 1.3; auto a = build(s, p, o, before ? t : 0, true); a->setBandwidthSelectionCriterion(cv ? GTWR::CV : GTWR::AIC); if (!before && t) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(t); } CRSDistance sd(p.d.geo); OneDimDistance td; SpatialWeight w = stw(p, o, p.lam); w.distance()->makeParameter({p.d.coords, p.d.coords, p.t, p.t}); a->setSpatialWeight(w);
    BandwidthWeight q(b.bw, b.adaptive, b.kernel); double v = 0; require(a->getCriterion(&q, v) == Status::Success, "status of the criterion"); R tol = 1e-6L + g.maxCond * 1e-12L; if (cv) closeTo("CV", v, g.rss, tol * (1 + g.tss / std::max(g.rss, (R)1e-300L))); else closeTo("AICc", v, g.aicc, tol * 100, p.d.n * tol * (10 + g.tss / g.rss) * (1 + 10 / ((p.d.n - 2 - g.trS) * (p.d.n - 2 - g.trS))));
}
// Automatic bandwidth: range, optimality among the evaluated, listed criteria, final fit.
static void autoBw(Src& s, Case& c) {
    St p = genSt(s, c, 24, 44, 3); p.lam = 1; if (s.boolean()) { p.lam = s.real(0.1, 0.9); for (int i = 0; i < p.d.n - 3; i++) p.t(i) = 0; } Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(2); b.adaptive = p.lam < 1 || s.boolean(); b.bw = b.adaptive ? 25 : maxDist(p.d); bool cv = s.boolean(); int t = s.range(0, 4); c.desc << " lambda=" << p.lam << " " << KN[b.kernel] << (b.adaptive ? " adaptive" : " fixed") << (cv ? " CV" : " AIC") << " threads=" << t; auto D = dists(p, p.lam);
    auto a = build(s, p, b, t, true); a->setIsAutoselectBandwidth(true); a->setBandwidthSelectionCriterion(cv ? GTWR::CV : GTWR::AIC); mat r; try { r = a->fit(); } catch (const std::exception&) { throw Discard(); } auto list = a->bandwidthSelectionCriterionList(); auto* w = a->spatialWeight().weight<BandwidthWeight>(); double lo = b.adaptive ? 20 : 0, hi = b.adaptive ? p.d.n : maxDist(p.d); c.interesting(list.size() >= 3); require(!list.empty(), "no criterion list"); require(w->kernel() == b.kernel && w->adaptive() == b.adaptive, "kernel or bandwidth type changed by the selection");
    double best = DBL_MAX, own = DBL_MAX; for (auto& q : list) { best = std::min(best, q.second); if (q.first == w->bandwidth()) own = q.second; require(q.first >= lo && q.first <= hi * (1 + 1e-9), "listed bandwidth " + num(q.first) + " outside the range"); } require(own == best, "the selected bandwidth " + num(w->bandwidth()) + " does not have the smallest listed criterion");
    for (size_t i = 0; i < list.size(); i += 1 + list.size() / 4) { Bw q = b; q.bw = list[i].first; if (!usable(p, D, q)) continue; ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, refWeights(D, q), cv); if (!g.ok || g.maxCond > 1e7L) continue; if (!cv && (std::fabs((double)(p.d.n - 2 - g.trS)) < 0.5 || g.rss < 1e-8L * g.tss)) continue; R tol = 1e-6L + g.maxCond * 1e-12L; if (cv) closeTo("listed CV of " + num(q.bw), list[i].second, g.rss, tol * (1 + g.tss / std::max(g.rss, (R)1e-300L))); else closeTo("listed AICc of " + num(q.bw), list[i].second, g.aicc, tol * 100, p.d.n * tol * (10 + g.tss / g.rss) * 10); c.label("criterion compared"); }
    Bw q = b; q.bw = w->bandwidth(); if (!usable(p, D, q)) return; ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, refWeights(D, q)); if (!g.ok || g.maxCond > 1e8L) return; checkFit(c, *a, r, g, p.d, true); c.label("final fit compared");
}
// Automatic balance of space and time: a golden-section search for the largest R2 over [0,1].
static void autoLambda(Src& s, Case& c) {
    St p = genSt(s, c, 20, 36, 3); int base = p.d.n - s.range(3, 6); for (int i = 0; i < base; i++) p.t(i) = 0; if (s.boolean()) for (int i = base; i < p.d.n; i++) p.t(i) = (p.d.geo ? 200 : p.d.scale) * (0.1 + 0.1 * (i - base)); Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(2); b.adaptive = s.chance(25); b.bw = b.adaptive ? s.range(p.d.n / 2, base) : maxDist(p.d) * s.real(0.25, 1.2); int t = s.range(0, 3); c.desc << " " << KN[b.kernel] << (b.adaptive ? " adaptive " : " fixed ") << b.bw << " threads=" << t;
    int si = -1, sj = -1; for (int i = 0; i < base && si < 0; i++) for (int j = 0; j < base; j++) if (stDist(p, i, j, 1) > 0.1L * maxDist(p.d)) { si = i; sj = j; break; } if (si < 0 || p.t(si) != p.t(sj)) throw Discard();
    auto f = [&](R l) { auto D = dists(p, l); if (b.adaptive) for (auto& v : D) if (ref::adaptiveDistance(v, b.bw) < 1e-9L) throw Discard(); ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, refWeights(D, b)); if (!g.ok || g.maxCond > 1e8L) throw Discard(); return g.r2; };
    const R G = (std::sqrt(5.0L) - 1) / 2; R A = 0, B = 1, P = 1 - G, Q = G, fA = f(A), fB = f(B), fP = f(P), fQ = f(Q); int it = 0; bool tie = false;
    while (it < 40) { if (std::fabs(fA - fB) < 1e-8L) { tie = true; break; } if (std::fabs(fP - fQ) < 1e-8L) { tie = true; break; } if (fP > fQ) { B = Q; fB = fQ; Q = P; fQ = fP; P = A + (1 - G) * (B - A); fP = f(P); } else { A = P; fA = fP; P = Q; fP = fQ; Q = A + G * (B - A); fQ = f(Q); } it++; } (void)tie; if (it < 2) { throw Discard(); }
    c.interesting(); auto a = build(s, p, b, t, true); a->setIsAutoselectLambda(true); mat r = a->fit(); require(a->status() == Status::Success, "status is not Success"); vec dv = a->spatialWeight().distance()->distance(si); R lam = (double)(dv(sj) / stDist(p, si, sj, 1)); if (std::fabs(lam - 1) < 1e-13L || lam < 1e-13L) { c.label("balance at a bound"); return; } require(lam >= A - 1e-7L && lam <= B + 1e-7L, "selected balance " + num(lam) + " outside the bracket [" + num(A) + "," + num(B) + "] the search narrows down to");
    auto D = dists(p, lam); ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, refWeights(D, b)); if (!g.ok || g.maxCond > 1e7L) return; R tol = 1e-5L + g.maxCond * 1e-11L; matClose("coefficients at the selected balance", r, g.betas, tol, 1e-3L * maxabs(g.betas)); closeTo("R2 at the selected balance", a->diagnostic().RSquare, g.r2, 0, 1e-6L + tol); require(g.r2 >= std::max(fP, fQ) - 1e-6L, "R2 at the selected balance is below the best one found"); c.label("rounds=" + std::to_string(it / 5 * 5));
}
#ifndef PART
int main(int argc, char** argv) { pbt::add("fit", 10000, 100000, fit); pbt::add("criterion", 6000, 60000, criterion); pbt::add("auto-bandwidth", 1600, 15000, autoBw); pbt::add("auto-lambda", 1600, 15000, autoLambda); return pbt::mainImpl(argc, argv); }

#endif
