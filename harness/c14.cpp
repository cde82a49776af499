// C14: robust GWR against an executable specification of both outlier treatments.
#include "models.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
const char* pbt::RULE = "well-conditioned data (condition number below 1e7 in every round) whose outlier decisions are not at a rounding tie; non-trivial: at least one observation was down-weighted or removed";
struct Spec { bool ok = true; ref::GwrFit g; V mask; int rounds = 0, down = 0; R worst = 0; };
static std::vector<V> masked(const std::vector<V>& W, const V& m) { std::vector<V> o = W; for (auto& w : o) for (size_t j = 0; j < w.size(); j++) w[j] *= m[j]; return o; }
static Spec spec(const Data& d, const std::vector<V>& W, bool filtered) {
    Spec s; size_t n = d.n; s.mask.assign(n, 1); s.g = ref::gwr(d.X, d.Y, W); auto bad = [&] { s.worst = std::max(s.worst, s.g.maxCond); return !s.g.ok || s.g.maxCond > 1e7L || s.g.rss < 1e-6L * s.g.tss || s.g.edf < 1; }; if (bad()) { s.ok = false; return s; }
    auto res = [&](size_t i) { return d.Y[i] - s.g.fitted[i]; };
    if (filtered) { R s2 = s.g.rss / s.g.edf; for (size_t i = 0; i < n; i++) { R t = std::fabs(res(i)) / std::sqrt(s2 * s.g.q[i]); if (std::fabs(t - 3) < 1e-5L) { s.ok = false; return s; } if (t > 3) { s.mask[i] = 0; s.down++; } } s.g = ref::gwr(d.X, d.Y, masked(W, s.mask)); s.rounds = 1; if (bad()) s.ok = false; return s; }
    auto filt = [&](R mse) { s.down = 0; for (size_t i = 0; i < n; i++) { R r = std::fabs(res(i)) / std::sqrt(mse); s.mask[i] = r <= 2 ? 1 : r < 3 ? (1 - (r - 2) * (r - 2)) * (1 - (r - 2) * (r - 2)) : 0; if (r > 2) s.down++; } };
    R mse = s.g.rss / n; filt(mse); int any = s.down; R diff = 1; while (diff > 1e-5L && s.rounds < 20) { R old = mse; s.g = ref::gwr(d.X, d.Y, masked(W, s.mask)); if (bad()) { s.ok = false; return s; } mse = s.g.rss / n; filt(mse); any += s.down; diff = std::fabs(old - mse) / mse; s.rounds++; if (std::fabs(diff - 1e-5L) < 1e-7L) { s.ok = false; return s; } }
    s.down = any; return s;
}
static void fit(Src& s, Case& c) {
    Data d = genData(s, c, 12, 45, 1, 4); Bw b = genBw(s, c, d, true); int outl = s.range(0, 5); Rng r(d.seed + 4); double sz = s.chance(50) ? 60 : 15; for (int i = 0; i < outl; i++) d.y(r.below(d.n)) += (r.below(2) ? 1 : -1) * sz * (0.3 + r.unit()); d.Y = ref::vfrom(d.y);
    bool filtered = s.boolean(), hat = !s.chance(20), dflt = s.chance(10); int t = s.range(0, 6); if (dflt) filtered = false; c.desc << " outliers=" << outl << (filtered ? " filtered" : " iterative") << " threads=" << t << " hat=" << hat; if (onEdge(d.D, b)) throw Discard(); auto W = refWeights(d.D, b); Spec q = spec(d, W, filtered); if (!q.ok) throw Discard(); c.interesting(q.down > 0); c.label(filtered ? "filtered" : "iterative"); if (q.down) c.label("down-weighted"); c.label("rounds=" + std::to_string(q.rounds > 5 ? 6 : q.rounds));
    GWRRobust a; a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); a.setSpatialWeight(sw(b, d.geo)); a.setHasHatMatrix(hat); if (!dflt) a.setFiltered(filtered); require(a.filtered() == filtered, "filtered() reads back another value"); if (t > 0) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); }
    mat be = a.fit(); if (s.chance(25)) { be = a.fit(); c.label("fitted twice"); } require(a.status() == Status::Success, "status is not Success"); const ref::GwrFit& g = q.g; R tol = 1e-6L + q.worst * 1e-12L, amp = 1 + g.tss / g.rss, rt = std::min(0.01L, tol * 10 * amp); if (!filtered) { tol *= 10; rt = std::min(0.01L, rt * 10); }
    matClose("returned coefficients", be, g.betas, tol); matClose("coefficients", a.betas(), g.betas, tol); auto e = a.diagnostic(); closeTo("RSS", e.RSS, g.rss, rt); closeTo("ENP", e.ENP, g.enp, tol * 10, tol * d.n); closeTo("EDF", e.EDF, g.edf, tol * 10, tol * d.n); closeTo("R2", e.RSquare, g.r2, 0, rt * amp); closeTo("AIC", e.AIC, g.aic, 1e-8L, d.n * rt * 2);
    if (g.edf > 1.5L) closeTo("adjusted R2", e.RSquareAdjust, g.r2adj, 1e-4L, rt * 100 * amp); if (d.n - 2 - g.trS > 0.5L) closeTo("AICc", e.AICc, g.aicc, 1e-4L, d.n * rt * 20); closeTo("tr(S)", a.sHat()(0), g.trS, tol * 10, tol * d.n); closeTo("tr(StS)", a.sHat()(1), g.trStS, tol * 10, tol * d.n); matClose("q diagonal", mat(a.qDiag()), col(g.q), tol * 10, 1.0L);
    M se(d.n, d.k); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.k; j++) se(i, j) = std::sqrt(g.rss / g.edf * g.se2(i, j)); matClose("standard errors", a.betasSE(), se, std::min(0.05L, rt * 100)); if (a.isStoreS()) matClose("hat matrix", a.s(), g.S, tol * 10, 1.0L);
    // observations removed as outliers have no influence
    if (filtered && q.down) { for (int i = 0; i < d.n; i++) if (q.mask[i] == 0) { if (a.isStoreS()) for (int j = 0; j < d.n; j++) require(a.s()(j, i) == 0, "an observation removed as an outlier still has influence"); } c.label("influence-zero"); }
}
int main(int argc, char** argv) { pbt::add("fit", 16000, 400000, fit); return pbt::mainImpl(argc, argv); }
