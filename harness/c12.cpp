// C12: geographically weighted summary statistics against their definitions.
#include "models.hpp"
using namespace models; using ref::R; using ref::V;
const char* pbt::RULE = "at least two observations have positive weight at every location, all local statistics compared with long-double definitions";
struct St { R mean, var, skew; };
static St stats(const V& x, const V& w) { R s = 0, m = 0, v = 0, k = 0; for (auto q : w) s += q; for (size_t i = 0; i < x.size(); i++) m += w[i] / s * x[i]; for (size_t i = 0; i < x.size(); i++) { R d = x[i] - m; v += w[i] / s * d * d; k += w[i] / s * d * d * d; } return {m, v, k / (v * std::sqrt(v))}; }
static R wcov(const V& x, const V& z, const V& w) { R s = 0, mx = 0, mz = 0, c = 0, w2 = 0; for (auto q : w) s += q; for (size_t i = 0; i < x.size(); i++) { mx += w[i] / s * x[i]; mz += w[i] / s * z[i]; w2 += w[i] / s * w[i] / s; } for (size_t i = 0; i < x.size(); i++) c += w[i] / s * (x[i] - mx) * (z[i] - mz); return c / (1 - w2); }
static V ranks(const V& x) { std::vector<size_t> o(x.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return x[a] < x[b]; }); V r(x.size()); for (size_t i = 0; i < o.size(); i++) r[o[i]] = i + 1; return r; }
// Quantile of weighted data: largest value whose cumulated share does not exceed p (the smallest value if none). NaN when rounding decides.
static R quant(const V& x, const V& w, R p) { std::vector<size_t> o(x.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return x[a] < x[b]; }); R s = 0, c = 0; for (auto q : w) s += q; size_t at = o.size() - 1; for (size_t i = 0; i < o.size(); i++) { c += w[o[i]] / s; if (std::fabs(c - p) < 1e-10L) return NAN; if (c > p) { at = i > 0 ? i - 1 : 0; break; } } return x[o[at]]; }
static void genX(Src& s, Case& c, Data& d) { int q = s.range(0, 2); c.desc << " values=" << q; Rng r(d.seed + 21); if (q == 1) for (auto& v : d.x) v = v * 1000 + 5000; if (q == 2) for (auto& v : d.x) v = -std::fabs(v) - r.unit() * 1e-3; d.X = ref::M::from(d.x); }
static V colOf(const Data& d, int j) { V v(d.n); for (int i = 0; i < d.n; i++) v[i] = d.X(i, j); return v; }
static std::unique_ptr<GWSS> build(const Data& d, const Bw& b, int t, GWSS::GWSSMode m) { std::unique_ptr<GWSS> a(new GWSS()); a->setCoords(d.coords); a->setVariables(d.x); a->setSpatialWeight(sw(b, d.geo)); if (t % 2) a->setGWSSMode(m); if (t > 0) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(t); } a->setGWSSMode(m); return a; }
static Data genVars(Src& s, Case& c, int klo, int khi) { Data d = genData(s, c, 6, 60, klo + 1, khi + 1); d.k--; d.x = mat(d.x.cols(1, d.k)); genX(s, c, d); return d; }
static bool degenerate(const std::vector<V>& W) { for (auto& w : W) { R s = 0, m = 0; for (auto q : w) { s += q; m = std::max(m, q); } if (!(s > 1e-200L) || m / s > 0.98L) return true; } return false; }
static void average(Src& s, Case& c) {
    Data d = genVars(s, c, 1, 4); Bw b = genBw(s, c, d); int t = s.range(0, 6); bool q = s.chance(60); c.desc << " threads=" << t << " quantile=" << q; if (onEdge(d.D, b)) throw Discard(); auto W = refWeights(d.D, b); if (degenerate(W)) throw Discard(); c.interesting();
    auto a = build(d, b, t, GWSS::GWSSMode::Average); a->setQuantile(q); require(a->isValid(), "a consistent summary is reported invalid"); a->run(); require(a->status() == Status::Success, "status is not Success"); ref::M me(d.n, d.k), sd = me, va = me, sk = me, cv = me;
    for (int j = 0; j < d.k; j++) { V x = colOf(d, j); for (int i = 0; i < d.n; i++) { St t2 = stats(x, W[i]); me(i, j) = t2.mean; va(i, j) = t2.var; sd(i, j) = std::sqrt(t2.var); sk(i, j) = t2.skew; cv(i, j) = sd(i, j) / t2.mean; } }
    matClose("local mean", a->localMean(), me, 1e-9L, 1e-6L); matClose("local variance", a->localVar(), va, 1e-8L, maxabs(me) * maxabs(me) * 1e-5L); matClose("local standard deviation", a->localSDev(), sd, 1e-7L, maxabs(me) * 1e-2L); matClose("local skewness", a->localSkewness(), sk, 1e-5L, 1.0L);
    for (int i = 0; i < d.n; i++) for (int j = 0; j < d.k; j++) { if (std::fabs(me(i, j)) > 1e-4L * sd(i, j)) closeTo("local coefficient of variation", a->localCV()(i, j), cv(i, j), 1e-5L); require(a->localVar()(i, j) >= 0, "negative local variance"); }
    if (q) { c.label("quantiles"); for (int j = 0; j < d.k; j++) { V x = colOf(d, j); for (int i = 0; i < d.n; i++) { R q1 = quant(x, W[i], .25L), q2 = quant(x, W[i], .5L), q3 = quant(x, W[i], .75L); if (!std::isnan((double)q2)) closeTo("local median at " + std::to_string(i), a->localMedian()(i, j), q2, 1e-12L); if (std::isnan((double)(q1 + q2 + q3))) continue; closeTo("local IQR at " + std::to_string(i), a->iqr()(i, j), q3 - q1, 1e-9L, 1e-9L * std::fabs(q3)); if (q3 - q1 > 1e-6L * std::fabs(q3)) closeTo("local quantile imbalance", a->qi()(i, j), (2 * q2 - q3 - q1) / (q3 - q1), 1e-6L, 1e-6L); } } }
}
static void correlation(Src& s, Case& c) {
    Data d = genVars(s, c, 2, 5); Bw b = genBw(s, c, d); int t = s.range(0, 6); bool first = s.boolean(); c.desc << " threads=" << t << (first ? " with first only" : " all pairs"); if (onEdge(d.D, b)) throw Discard(); auto W = refWeights(d.D, b); if (degenerate(W)) throw Discard(); c.interesting();
    auto a = build(d, b, t, GWSS::GWSSMode::Correlation); a->setIsCorrWithFirstOnly(first); a->run(); int P = first ? d.k - 1 : d.k * (d.k - 1) / 2; ref::M co(d.n, P), cr = co, sp = co, me(d.n, d.k), va = me; std::vector<V> X, K; for (int j = 0; j < d.k; j++) { X.push_back(colOf(d, j)); K.push_back(ranks(X[j])); for (int i = 0; i < d.n; i++) { St q = stats(X[j], W[i]); me(i, j) = q.mean; va(i, j) = q.var; } }
    int tag = 0; for (int j = 0; j < (first ? 1 : d.k - 1); j++) for (int k = j + 1; k < d.k; k++, tag++) for (int i = 0; i < d.n; i++) { co(i, tag) = wcov(X[j], X[k], W[i]); cr(i, tag) = co(i, tag) / std::sqrt(wcov(X[j], X[j], W[i]) * wcov(X[k], X[k], W[i])); sp(i, tag) = wcov(K[j], K[k], W[i]) / std::sqrt(wcov(K[j], K[j], W[i]) * wcov(K[k], K[k], W[i])); }
    R big = std::max<R>(maxabs(me), std::sqrt(maxabs(va))); matClose("local mean", a->localMean(), me, 1e-9L, 1e-6L); matClose("local variance", a->localVar(), va, 1e-8L, big * big * 1e-5L); matClose("local covariance", a->localCov(), co, 1e-7L, big * big * 1e-4L); matClose("local correlation", a->localCorr(), cr, 1e-5L, 1.0L); matClose("local Spearman correlation", a->localSCorr(), sp, 1e-6L, 1.0L);
    require(arma::abs(a->localCorr()).max() <= 1 + 1e-9 && arma::abs(a->localSCorr()).max() <= 1 + 1e-9, "a correlation exceeds one");
}
// The published building blocks.
static void blocks(Src& s, Case& c) {
    int n = s.range(2, 40); Rng r(s.seed()); vec x(n), w(n), z(n); int kind = s.range(0, 2); c.desc << "n=" << n << " weights=" << kind; for (int i = 0; i < n; i++) { x(i) = r.normal() * 10; z(i) = r.normal(); w(i) = kind == 0 ? 1 : kind == 1 ? r.unit() + 1e-3 : std::pow(r.unit(), 12) + 1e-9; } if (s.chance(30)) w(r.below(n)) = 50; w /= arma::accu(w); V X = ref::vfrom(x), W = ref::vfrom(w), Z = ref::vfrom(z); c.interesting();
    if (arma::max(w) < 0.99) closeTo("weighted covariance", GWSS::covwt(x, z, w), wcov(X, Z, W), 1e-6L, 1e-7L); if (arma::max(w) < 0.9) { R v = GWSS::corwt(x, z, w); require(std::fabs((double)v) <= 1 + 1e-9, "correlation beyond one"); closeTo("weighted correlation", v, wcov(X, Z, W) / std::sqrt(wcov(X, X, W) * wcov(Z, Z, W)), 1e-5L, 1e-6L); }
}
int main(int argc, char** argv) { pbt::add("average", 25000, 500000, average); pbt::add("correlation", 15000, 300000, correlation); pbt::add("blocks", 20000, 300000, blocks); return pbt::mainImpl(argc, argv); }
