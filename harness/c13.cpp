// C13: geographically weighted principal components against the eigen-decomposition of the local weighted covariance.
#include "models.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
const char* pbt::RULE = "at every location more observations than variables have weight above 1e-6 of the largest; all components compared with a Jacobi eigen-decomposition in long double";
static void pca(Src& s, Case& c) {
    Data d = genData(s, c, 10, 60, 3, 6); d.k--; d.x = mat(d.x.cols(1, d.k)); int mix = s.range(0, 2); if (mix == 1) for (int j = 1; j < d.k; j++) d.x.col(j) += 0.8 * d.x.col(j - 1); if (mix == 2) d.x *= 100; d.X = M::from(d.x); Bw b = genBw(s, c, d); int K = s.range(1, d.k); c.desc << " mix=" << mix << " components=" << K; if (onEdge(d.D, b)) throw Discard(); auto W = refWeights(d.D, b);
    for (auto& w : W) { R m = 0; int cnt = 0; for (auto q : w) m = std::max(m, q); for (auto q : w) if (q > 1e-6L * m) cnt++; if (!(m > 1e-200L) || cnt < d.k + 2) throw Discard(); } c.interesting();
    GWPCA a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(sw(b, d.geo)); a.setKeepComponents(K); require(a.isValid(), "a consistent analysis is reported invalid"); a.run(); if (s.chance(25)) { a.run(); c.label("run twice"); } require(a.status() == Status::Success, "status is not Success"); const mat &pv = a.localPV(), &sd = a.sdev(); const arma::cube& ld = a.loadings(); require(pv.n_rows == (uword)d.n && pv.n_cols == (uword)K && ld.n_rows == (uword)d.n && ld.n_cols == (uword)d.k && ld.n_slices == (uword)K && sd.n_rows == (uword)d.n && sd.n_cols >= (uword)K, "result shapes are wrong");
    for (int i = 0; i < d.n; i++) { const V& w = W[i]; R sw_ = 0; V m(d.k, 0); for (auto q : w) sw_ += q; for (int r = 0; r < d.n; r++) for (int j = 0; j < d.k; j++) m[j] += w[r] / sw_ * d.X(r, j); M C(d.k, d.k); for (int r = 0; r < d.n; r++) for (int p = 0; p < d.k; p++) for (int q = 0; q < d.k; q++) C(p, q) += w[r] / sw_ * (d.X(r, p) - m[p]) * (d.X(r, q) - m[q]);
        V ev; M U; ref::jacobi(C, ev, U); R tot = 0; for (auto v : ev) tot += v; std::string at = " at location " + std::to_string(i); for (int j = 0; j < (int)sd.n_cols && j < d.k; j++) closeTo("standard deviation of component " + std::to_string(j) + at, sd(i, j), std::sqrt(std::max<R>(ev[j], 0)), 1e-6L, 1e-6L * std::sqrt(ev[0])); R sum = 0;
        for (int j = 0; j < K; j++) { closeTo("share of variance of component " + std::to_string(j) + at, pv(i, j), 100 * ev[j] / tot, 1e-6L, 1e-6L); sum += pv(i, j); if (j) require(pv(i, j) <= pv(i, j - 1) + 1e-9, "shares of variance increase" + at);
            R gap = 1e300L; for (int q = 0; q < d.k; q++) if (q != j) gap = std::min(gap, std::fabs(ev[q] - ev[j])); R nn = 0; for (int q = 0; q < d.k; q++) nn += (R)ld(i, q, j) * ld(i, q, j); closeTo("length of loading vector" + at, nn, 1, 1e-8L); if (gap > 1e-3L * ev[0]) { R dot = 0; for (int q = 0; q < d.k; q++) dot += (R)ld(i, q, j) * U(q, j); closeTo("alignment of loadings of component " + std::to_string(j) + at, std::fabs(dot), 1, 1e-8L); c.label("loadings-compared"); } for (int q = 0; q < j; q++) { R dt = 0; for (int p = 0; p < d.k; p++) dt += (R)ld(i, p, q) * ld(i, p, j); closeTo("orthogonality of loadings" + at, dt, 0, 0, 1e-8L); } }
        require(sum <= 100 + 1e-6, "shares of variance exceed 100%"); if (K == d.k) closeTo("total share" + at, sum, 100, 1e-8L); }
}
int main(int argc, char** argv) { pbt::add("pca", 20000, 400000, pca); return pbt::mainImpl(argc, argv); }
