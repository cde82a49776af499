// C16: local-collinearity GWR - locally compensated ridge regression against an independent implementation.
#include "models.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
#ifndef PART
const char* pbt::RULE = "every local ridge system has condition number below 1e7 and no local condition number lies at the threshold; non-trivial: at least one location uses a non-zero ridge parameter";
#endif
struct Loc { bool ok = true, tie = false; R lambda = 0, cn = 0, cond = 0; V beta; };
static Loc local(const Data& d, const V& w, const V& sd, R lam0, bool adjust, R thr) {
    Loc o; int k = d.k; M G(k, k); V nrm(k, 0); for (int r = 0; r < d.n; r++) for (int p = 0; p < k; p++) nrm[p] += w[r] * w[r] * d.X(r, p) * d.X(r, p); for (auto& v : nrm) { v = std::sqrt(v); if (!(v > 0)) { o.ok = false; return o; } }
    for (int r = 0; r < d.n; r++) for (int p = 0; p < k; p++) for (int q = 0; q < k; q++) G(p, q) += w[r] * w[r] * d.X(r, p) * d.X(r, q) / nrm[p] / nrm[q]; V ev; M U; ref::jacobi(G, ev, U); R s0 = std::sqrt(ev[0]), sm = std::sqrt(std::max<R>(ev[k - 1], 0)); if (!(sm > 1e-6L)) { o.ok = false; return o; } o.cn = s0 / sm; o.lambda = lam0; if (adjust) { if (std::fabs(o.cn - thr) < 1e-6L * thr) o.tie = true; if (o.cn > thr) o.lambda = (s0 - thr * sm) / (thr - 1); }
    M A(k, k), Ai; V b(k, 0); for (int r = 0; r < d.n; r++) for (int p = 0; p < k; p++) { b[p] += w[r] * d.X(r, p) / sd[p] * d.Y[r]; for (int q = 0; q < k; q++) A(p, q) += w[r] * d.X(r, p) / sd[p] * d.X(r, q) / sd[q]; } for (int p = 0; p < k; p++) A(p, p) += o.lambda; if (!ref::inv(A, Ai)) { o.ok = false; return o; } o.cond = ref::cond(A, Ai); o.beta.assign(k, 0); for (int p = 0; p < k; p++) { for (int q = 0; q < k; q++) o.beta[p] += Ai(p, q) * b[q]; o.beta[p] /= sd[p]; } return o;
}
struct Setup { Data d; Bw b; R lam, thr; bool adjust; V sd; int t; };
static Setup setup(Src& s, Case& c) {
    Setup u; u.d = genData(s, c, 12, 50, 2, 4); Data& d = u.d; if (s.chance(50) && d.k > 2) { Rng r(d.seed + 2); double a = s.real(0.02, 0.5); for (int i = 0; i < d.n; i++) d.x(i, 2) = d.x(i, 1) * 1.5 + a * r.normal(); c.desc << " collinear(" << a << ")"; } d.X = M::from(d.x); u.b = genBw(s, c, d);
    u.lam = s.chance(50) ? s.real(0, 0.5) : 0; u.adjust = s.boolean(); u.thr = s.chance(30) ? 30 : s.real(1.5, 25); u.t = s.range(0, 6); c.desc << " ridge=" << (double)u.lam << " adjust=" << u.adjust << " threshold=" << (double)u.thr << " threads=" << u.t; if (onEdge(d.D, u.b)) throw Discard();
    u.sd.assign(d.k, 1); for (int j = 1; j < d.k; j++) { R m = 0, v = 0; for (int i = 0; i < d.n; i++) m += d.X(i, j) / d.n; for (int i = 0; i < d.n; i++) v += (d.X(i, j) - m) * (d.X(i, j) - m); u.sd[j] = std::sqrt(v / (d.n - 1)); } return u;
}
static void config(GWRLocalCollinearity& a, const Setup& u, Src& s) {
    regress(a, [&] { Cfg f; f.d = u.d; return f; }()); a.setSpatialWeight(sw(u.b, u.d.geo)); a.setHasHatMatrix(!s.chance(20)); a.setLambda((double)u.lam); a.setLambdaAdjust(u.adjust); a.setCnThresh((double)u.thr); if (u.t > 0) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(u.t); } require(a.isValid(), "a consistent model is reported invalid"); require(a.lambda() == (double)u.lam && a.lambdaAdjust() == u.adjust && a.cnThresh() == (double)u.thr, "settings read back other values");
}
static void fit(Src& s, Case& c) {
    Setup u = setup(s, c); Data& d = u.d; auto W = refWeights(d.D, u.b); M B(d.n, d.k); R worst = 0, trS = 0, trStS = 0; bool ridge = false, hatOk = true;
    for (int i = 0; i < d.n; i++) { Loc q = local(d, W[i], u.sd, u.lam, u.adjust, u.thr); if (!q.ok || q.tie || q.cond > 1e7L) throw Discard(); worst = std::max(worst, q.cond); if (q.lambda > 0) ridge = true; for (int j = 0; j < d.k; j++) B(i, j) = q.beta[j];
        M A(d.k, d.k), Ai; for (int r = 0; r < d.n; r++) for (int p = 0; p < d.k; p++) for (int l = 0; l < d.k; l++) A(p, l) += W[i][r] * d.X(r, p) * d.X(r, l); if (!ref::inv(A, Ai) || ref::cond(A, Ai) > 1e7L) { hatOk = false; continue; } for (int r = 0; r < d.n; r++) { R h = 0; for (int p = 0; p < d.k; p++) for (int l = 0; l < d.k; l++) h += W[i][i] * d.X(i, p) * Ai(p, l) * d.X(r, l) * W[i][r]; trStS += h * h; if (r == i) trS += h; } }
    if (!hatOk) throw Discard(); c.interesting(ridge); c.label(ridge ? "ridge" : "no ridge"); GWRLocalCollinearity a; config(a, u, s); mat be = a.fit(); if (s.chance(25)) { be = a.fit(); c.label("fitted twice"); } require(a.status() == Status::Success, "status is not Success"); R tol = 1e-6L + worst * 1e-12L; matClose("returned coefficients", be, B, tol); matClose("coefficients", a.betas(), B, tol);
    R rss = 0, tss = 0, my = 0, N = d.n; for (auto v : d.Y) my += v / N; for (int i = 0; i < d.n; i++) { R e = d.Y[i]; for (int j = 0; j < d.k; j++) e -= B(i, j) * d.X(i, j); rss += e * e; tss += (d.Y[i] - my) * (d.Y[i] - my); } R amp = 1 + tss / std::max(rss, 1e-300L), rt = tol * 10 * amp; if (rt > 1e-3L) return; auto g = a.diagnostic(); R enp = 2 * trS - trStS, s2 = rss / (N - enp); closeTo("RSS", g.RSS, rss, rt); closeTo("R2", g.RSquare, 1 - rss / tss, 0, rt * 10 * amp); closeTo("ENP", g.ENP, enp, 1e-5L, 1e-6L * N); closeTo("EDF", g.EDF, N - enp, 1e-5L, 1e-6L * N); if (N - enp < 0.5L) return; c.label("diagnostics compared"); R l2 = std::log(2 * 3.14159265358979323846264338L * s2);
    closeTo("AIC", g.AIC, N * (l2 + 1) + 2 * (enp + 1), 1e-6L, N * rt * 10 + 1e-4L * N); if (std::fabs(1 - (enp + 2) / N) > 0.01L) closeTo("AICc", g.AICc, N * l2 + N * ((1 + enp / N) / (1 - (enp + 2) / N)), 1e-4L, N * rt * 10 + 1e-3L * N); closeTo("adjusted R2", g.RSquareAdjust, 1 - (rss / tss) * (N - 1) / (N - enp), 1e-4L, rt * N);
}
static void predict(Src& s, Case& c) {
    Setup u = setup(s, c); Data& d = u.d; int m = s.range(1, 25); mat loc = d.geo ? makeLonLat(d.seed, m, 0) : makeCoords(d.seed + 5, m, d.layout, d.scale); Data e = d; fillDist(e, loc); if (onEdge(e.D, u.b)) throw Discard(); auto W = refWeights(e.D, u.b); for (auto& w : W) { R mx = 0; for (auto v : w) mx = std::max(mx, v); if (mx < 1e-60L) throw Discard(); } M B(m, d.k); R worst = 0; bool ridge = false; for (int i = 0; i < m; i++) { Loc q = local(d, W[i], u.sd, u.lam, u.adjust, u.thr); if (!q.ok || q.tie || q.cond > 1e7L) throw Discard(); worst = std::max(worst, q.cond); if (q.lambda > 0) ridge = true; for (int j = 0; j < d.k; j++) B(i, j) = q.beta[j]; } c.interesting(ridge);
    GWRLocalCollinearity a; config(a, u, s); if (s.boolean()) { try { a.fit(); } catch (const std::exception&) { throw Discard(); } } matClose("predicted coefficients", a.predict(loc), B, 1e-6L + worst * 1e-12L);
}
static void cv(Src& s, Case& c) {
    Setup u = setup(s, c); Data& d = u.d; auto W = refWeights(d.D, u.b); R worst = 0, sum = 0, tss = 0; bool ridge = false; for (int i = 0; i < d.n; i++) { V w = W[i]; w[i] = 0; Loc q = local(d, w, u.sd, u.lam, u.adjust, u.thr); if (!q.ok || q.tie || q.cond > 1e7L) throw Discard(); worst = std::max(worst, q.cond); if (q.lambda > 0) ridge = true; R e = d.Y[i]; for (int j = 0; j < d.k; j++) e -= q.beta[j] * d.X(i, j); sum += e * e; tss += d.Y[i] * d.Y[i]; } c.interesting(ridge); GWRLocalCollinearity a; config(a, u, s); a.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV); a.createDistanceParameter(); BandwidthWeight bw(u.b.bw, u.b.adaptive, u.b.kernel); double v = 0; a.getCriterion(&bw, v); closeTo("CV of the bandwidth", v, sum, (1e-6L + worst * 1e-12L) * 10 * (1 + tss / sum));
}
#ifndef PART
int main(int argc, char** argv) { pbt::add("fit", 12000, 300000, fit); pbt::add("predict", 8000, 150000, predict); pbt::add("cv", 8000, 150000, cv); return pbt::mainImpl(argc, argv); }

#endif
