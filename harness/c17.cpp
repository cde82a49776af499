// C17: scalable GWR - coefficients are those of the reported scale and penalty, which are those of the reported criterion.
#include "models.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
const char* pbt::RULE = "no tie at the edge of a neighbourhood and every local system has condition number below 6e3; coefficients at all locations compared";
struct NN { std::vector<std::vector<int>> idx; std::vector<V> d; R band0; bool tie = false; };
static NN neighbours(const std::vector<V>& D, size_t m, size_t bandCol, int kernel) {
    NN o; V bc; for (auto& v : D) { std::vector<int> ix(v.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i; std::stable_sort(ix.begin(), ix.end(), [&](int a, int b) { return v[a] < v[b]; }); if (m < v.size() && std::fabs(v[ix[m]] - v[ix[m - 1]]) <= 1e-9L * v[ix[m]]) o.tie = true; V dd; std::vector<int> q(ix.begin(), ix.begin() + m); for (int j : q) dd.push_back(v[j]); bc.push_back(dd[std::min(bandCol, m) - 1]); o.idx.push_back(q); o.d.push_back(dd); }
    std::sort(bc.begin(), bc.end()); size_t n = bc.size(); R med = n % 2 ? bc[n / 2] : (bc[n / 2 - 1] + bc[n / 2]) / 2; o.band0 = kernel == 0 ? med / std::sqrt(3.0L) : med / 3; return o;
}
struct Sys { M A; V b; R c; bool ok; V beta; };
static Sys system(const Data& d, const M& XtX, const V& XtY, const std::vector<int>& ix, const V& dist, R band0, int kernel, int poly, R b, R a) {
    Sys s; s.A = M(d.k, d.k); s.b.assign(d.k, 0); V r(poly + 1); R tot = 0; for (int p = 0; p <= poly; p++) { r[p] = std::pow(b, (R)(p + 1)); tot += r[p]; } for (auto& v : r) v /= tot;
    for (size_t q = 0; q < ix.size(); q++) { R z = dist[q] / band0, g0 = kernel == 0 ? std::exp(-z * z) : std::exp(-z), w = r[0]; for (int p = 1; p <= poly; p++) w += r[p] * std::pow(g0, std::pow(2.0L, poly / 2.0L) / std::pow(2.0L, (R)p)); int j = ix[q]; for (int i = 0; i < d.k; i++) { s.b[i] += w * d.X(j, i) * d.Y[j]; for (int l = 0; l < d.k; l++) s.A(i, l) += w * d.X(j, i) * d.X(j, l); } }
    for (int i = 0; i < d.k; i++) { s.b[i] += a * XtY[i]; for (int l = 0; l < d.k; l++) s.A(i, l) += a * XtX(i, l); } M Ai; s.ok = ref::inv(s.A, Ai); if (!s.ok) return s; s.c = ref::cond(s.A, Ai); s.beta.assign(d.k, 0); for (int i = 0; i < d.k; i++) for (int l = 0; l < d.k; l++) s.beta[i] += Ai(i, l) * s.b[l]; return s;
}
static void fit(Src& s, Case& c) {
    Data d = genData(s, c, 10, 70, 1, 4); int kernel = s.range(0, 1), poly = s.range(1, 5); bool cv = s.boolean(); int lo = std::min(d.n - 1, d.k + 5); double bw = s.range(lo, d.n + 3); bool frac = s.chance(10); c.desc << " " << KN[kernel] << " neighbours=" << bw << (frac ? "+" : "") << " polynomial=" << poly << (cv ? " CV" : " AIC"); if (frac) bw += 0.4;
    Bw b{bw, true, (BandwidthWeight::KernelFunctionType)kernel}; GWRScalable a; conf(a, [&] { Cfg f; f.d = d; f.b = b; f.cv = cv; f.poly = poly; f.hat = true; return f; }()); require(a.isValid(), "a consistent model is reported invalid"); require((int)a.polynomial() == poly, "polynomial() reads back another value");
    size_t m = (size_t)bw >= (size_t)d.n ? d.n - 1 : (size_t)bw, nb = m; M XtX(d.k, d.k); V XtY(d.k, 0); for (int r = 0; r < d.n; r++) for (int i = 0; i < d.k; i++) { XtY[i] += d.X(r, i) * d.Y[r]; for (int l = 0; l < d.k; l++) XtX(i, l) += d.X(r, i) * d.X(r, l); }
    NN fn = neighbours(d.D, m, std::min<size_t>(50, m), kernel); if (fn.tie || !(fn.band0 > 0)) throw Discard();
    mat be = a.fit(); if (s.chance(30) && a.cv() < DBL_MAX) { double p = a.scale(), q = a.penalty(), v = a.cv(); mat b0 = be; be = a.fit(); c.label("fitted twice"); require(a.scale() == p && a.penalty() == q && a.cv() == v, "fitting again ends at scale " + num(a.scale()) + ", penalty " + num(a.penalty()) + " instead of " + num(p) + ", " + num(q)); require(arma::approx_equal(be, b0, "absdiff", 0), "fitting again changes the coefficients"); } require(a.status() == Status::Success, "status is not Success"); if (!(a.cv() < DBL_MAX)) { c.label("no acceptable parameters"); throw Discard(); } R sc = a.scale(), pe = a.penalty(); require(std::isfinite((double)sc) && sc >= 0 && std::isfinite((double)pe) && pe >= 0, "scale or penalty is negative or not finite");
    R worst = 0; M B(d.n, d.k); for (int i = 0; i < d.n; i++) { Sys q = system(d, XtX, XtY, fn.idx[i], fn.d[i], fn.band0, kernel, poly, sc, pe); if (!q.ok || q.c > 6e3L) throw Discard(); worst = std::max(worst, q.c); for (int j = 0; j < d.k; j++) B(i, j) = q.beta[j]; } c.interesting(); c.label(cv ? "CV" : "AIC"); c.label(KN[kernel]); R tol = 1e-7L + worst * worst * 2e-12L;
    matClose("returned coefficients", be, B, tol); matClose("coefficients", a.betas(), B, tol); R rss = 0, tss = 0, my = 0; for (auto v : d.Y) my += v / d.n; for (int i = 0; i < d.n; i++) { R e = d.Y[i]; for (int j = 0; j < d.k; j++) e -= B(i, j) * d.X(i, j); rss += e * e; tss += (d.Y[i] - my) * (d.Y[i] - my); } auto g = a.diagnostic(); R amp = 1 + tss / std::max(rss, 1e-300L); if (amp * tol < 1e-4L) { closeTo("RSS", g.RSS, rss, 1e-7L + tol * amp * 10); closeTo("R2", g.RSquare, 1 - rss / tss, 0, 1e-7L + tol * 10 * amp); }
    R N = d.n, PI2 = 2 * 3.14159265358979323846264338L, trS = g.AIC - (N * std::log((R)g.RSS / N) + N * std::log(PI2) + N); if (std::fabs(g.AIC) < 1e6 && std::fabs(trS) < 1e4L) { closeTo("ENP+EDF", (R)g.ENP + g.EDF, N, 1e-9L, 1e-9L * (std::fabs(g.ENP) + 1)); if (std::fabs(N - 2 - trS) > 0.5L) closeTo("AICc", g.AICc, N * std::log((R)g.RSS / N) + N * std::log(PI2) + N * ((N + trS) / (N - 2 - trS)), 1e-7L, 1e-5L); if (std::fabs(g.EDF - 1) > 0.05) closeTo("adjusted R2", g.RSquareAdjust, 1 - (1 - (R)g.RSquare) * (N - 1) / ((R)g.EDF - 1), 1e-8L, 1e-8L); }
    // the reported criterion is the objective at the reported parameters and no worse than at the start (1, 0.01^2)
    { size_t on = cv ? nb - 1 : nb; NN dn = neighbours(d.D, on, on, kernel); if (!dn.tie) { size_t cols = cv ? on : on + 1, bc = std::min<size_t>({(size_t)50, m, cols}); // with AIC the own observation is prepended
            V bcv; for (int i = 0; i < d.n; i++) bcv.push_back(cv ? dn.d[i][bc - 1] : bc == 1 ? 0 : dn.d[i][bc - 2]); std::sort(bcv.begin(), bcv.end()); R med = d.n % 2 ? bcv[d.n / 2] : (bcv[d.n / 2 - 1] + bcv[d.n / 2]) / 2, band = kernel == 0 ? med / std::sqrt(3.0L) : med / 3; R cmax = 0;
            auto objective = [&](R bb, R aa) -> R { R sse = 0, tr = 0; for (int i = 0; i < d.n; i++) { auto ix = dn.idx[i]; V dd = dn.d[i]; if (!cv) { ix.push_back(i); dd.push_back(0); } Sys q = system(d, XtX, XtY, ix, dd, band, kernel, poly, bb, aa); if (!q.ok) return NAN; cmax = std::max(cmax, q.c); R e = d.Y[i]; for (int j = 0; j < d.k; j++) e -= q.beta[j] * d.X(i, j); sse += e * e; if (!cv) { M MM = ref::mul(ref::tr(q.A), q.A), Mi; if (!ref::inv(MM, Mi)) return NAN; for (int p = 0; p < d.k; p++) for (int l = 0; l < d.k; l++) tr += d.X(i, p) * Mi(p, l) * d.X(i, l); } } if (!cv && std::fabs(N - 2 - tr) < 0.5L) return NAN; return cv ? sse : N * std::log(sse / N) + N * std::log(PI2) + N * (N + tr) / (N - 2 - tr); };
            if (band > 0) { R at = objective(sc, pe), st = objective(1, 1e-4L); if (!std::isnan((double)at) && cmax < 6e3L && amp < 1e6L) { c.label("criterion-compared"); R t = 1e-6L + cmax * cmax * 1e-11L; closeTo("criterion of the reported parameters", a.cv(), at, t * (cv ? amp : 1), cv ? 0 : N * t * amp); if (!std::isnan((double)st)) require(a.cv() <= st + std::fabs(st) * 1e-6L + 1e-6L, "the reported criterion " + num(a.cv()) + " is worse than at the start of the search, " + num(st)); } } } }
    // prediction uses the parameters optimized on the data
    if (s.chance(50)) { int L = s.range(1, 20); mat loc = d.geo ? makeLonLat(d.seed, L, 0) : makeCoords(d.seed + 5, L, d.layout, d.scale); Data e = d; fillDist(e, loc); NN pn = neighbours(e.D, m, std::min<size_t>(50, m), kernel); if (pn.tie || !(pn.band0 > 0)) return; M P(L, d.k); R w2 = 0; for (int i = 0; i < L; i++) { Sys q = system(d, XtX, XtY, pn.idx[i], pn.d[i], pn.band0, kernel, poly, sc, pe); if (!q.ok || q.c > 6e3L) return; w2 = std::max(w2, q.c); for (int j = 0; j < d.k; j++) P(i, j) = q.beta[j]; } mat got = a.predict(loc); c.label("predicted"); if (std::fabs(a.scale() - sc) < 1e-6L * (1 + sc)) matClose("predicted coefficients", got, P, 1e-5L + w2 * w2 * 1e-11L); else c.label("other parameters"); }
}
int main(int argc, char** argv) { pbt::add("fit", 3500, 60000, fit); return pbt::mainImpl(argc, argv); }
