// Independent reference implementations (long double, no Armadillo algebra) used as oracles.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>
#include <armadillo>

namespace ref {
typedef long double R;
typedef std::vector<R> V;

struct M {
    size_t r = 0, c = 0; V a;
    M() {}
    M(size_t r_, size_t c_, R v = 0) : r(r_), c(c_), a(r_ * c_, v) {}
    R& operator()(size_t i, size_t j) { return a[i * c + j]; }
    R operator()(size_t i, size_t j) const { return a[i * c + j]; }
    static M from(const arma::mat& m) { M o(m.n_rows, m.n_cols); for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++) o(i, j) = m.at(i, j); return o; }
};
inline V vfrom(const arma::vec& v) { V o(v.n_elem); for (size_t i = 0; i < o.size(); i++) o[i] = v[i]; return o; }

inline M mul(const M& A, const M& B) { M C(A.r, B.c); for (size_t i = 0; i < A.r; i++) for (size_t k = 0; k < A.c; k++) { R v = A(i, k); if (v != 0) for (size_t j = 0; j < B.c; j++) C(i, j) += v * B(k, j); } return C; }
inline M tr(const M& A) { M C(A.c, A.r); for (size_t i = 0; i < A.r; i++) for (size_t j = 0; j < A.c; j++) C(j, i) = A(i, j); return C; }

// Gauss-Jordan inverse with full row pivoting. Returns false when numerically singular.
inline bool inv(const M& A0, M& X) {
    size_t n = A0.r; M A = A0; X = M(n, n); for (size_t i = 0; i < n; i++) X(i, i) = 1;
    R scale = 0; for (auto v : A.a) scale = std::max(scale, std::fabs(v));
    if (!(scale > 0) || !std::isfinite(scale)) return false;
    for (size_t k = 0; k < n; k++) {
        size_t p = k; for (size_t i = k; i < n; i++) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i;
        if (std::fabs(A(p, k)) <= scale * 1e-18L) return false;
        if (p != k) for (size_t j = 0; j < n; j++) { std::swap(A(p, j), A(k, j)); std::swap(X(p, j), X(k, j)); }
        R d = A(k, k); for (size_t j = 0; j < n; j++) { A(k, j) /= d; X(k, j) /= d; }
        for (size_t i = 0; i < n; i++) if (i != k) { R f = A(i, k); if (f != 0) for (size_t j = 0; j < n; j++) { A(i, j) -= f * A(k, j); X(i, j) -= f * X(k, j); } }
    }
    return true;
}
inline R norm1(const M& A) { R m = 0; for (size_t j = 0; j < A.c; j++) { R s = 0; for (size_t i = 0; i < A.r; i++) s += std::fabs(A(i, j)); m = std::max(m, s); } return m; }
inline R cond(const M& A, const M& Ai) { return norm1(A) * norm1(Ai); }

// ---- kernels -------------------------------------------------------------------------------
enum K { Gaussian, Exponential, Bisquare, Tricube, Boxcar };
inline R kernel(int k, R d, R b) {
    switch (k) {
    case Gaussian: return std::exp(-(d * d) / (2 * b * b));
    case Exponential: return std::exp(-d / b);
    case Bisquare: if (d < b) { R t = 1 - (d / b) * (d / b); return t * t; } return 0;
    case Tricube: if (d < b) { R q = d / b; R t = 1 - q * q * q; return t * t * t; } return 0;
    default: return d < b ? 1 : 0;
    }
}
// The distance an adaptive bandwidth stands for.
inline R adaptiveDistance(const V& d, R bw) {
    size_t n = d.size(); V s = d; std::sort(s.begin(), s.end());
    if (bw < (R)n) { R f = std::floor(bw); R fr = bw - f; R d0 = f < 1 ? 0 : s[(size_t)f - 1], d1 = s[(size_t)f]; return d0 + (d1 - d0) * fr; }
    return bw / (R)n * s.back();
}
inline V weights(const V& d, double bw, bool adaptive, int k) {
    R b = adaptive ? adaptiveDistance(d, bw) : (R)bw; V w(d.size());
    for (size_t i = 0; i < d.size(); i++) w[i] = kernel(k, d[i], b);
    return w;
}

// ---- distances ------------------------------------------------------------------------------
inline R euclid(R x0, R y0, R x1, R y1) { return std::sqrt((x0 - x1) * (x0 - x1) + (y0 - y1) * (y0 - y1)); }
// Vincenty-like sphere/ellipsoid great-circle formula used by R's sp::spDists (Meeus), in km.
inline R greatCircle(R lon1, R lat1, R lon2, R lat2) {
    const R DE2RA = 3.14159265358979323846L / 180.0L;
    if (lon1 == lon2 && lat1 == lat2) return 0;
    R a = 6378.137L, f = 1.0L / 298.257223563L;
    R F = (lat1 + lat2) / 2 * DE2RA, G = (lat1 - lat2) / 2 * DE2RA, L = (lon1 - lon2) / 2 * DE2RA;
    R sG = std::sin(G), cG = std::cos(G), sF = std::sin(F), cF = std::cos(F), sL = std::sin(L), cL = std::cos(L);
    R S = sG * sG * cL * cL + cF * cF * sL * sL, C = cG * cG * cL * cL + sF * sF * sL * sL;
    R w = std::atan(std::sqrt(S / C)), Rr = std::sqrt(S * C) / w, D = 2 * w * a;
    R H1 = (3 * Rr - 1) / (2 * C), H2 = (3 * Rr + 1) / (2 * S);
    return D * (1 + f * H1 * sF * sF * cG * cG - f * H2 * cF * cF * sG * sG);
}

// ---- local weighted least squares -------------------------------------------------------------
struct Local { bool ok = false; R cond = 0; V beta; M C; /* k x n */ V s; /* row of hat matrix at x0 */ };
inline Local wls(const M& X, const V& y, const V& w, const V* x0 = nullptr, bool full = false) {
    size_t n = X.r, k = X.c; Local L; M A(k, k); V b(k);
    for (size_t i = 0; i < n; i++) if (w[i] != 0) for (size_t p = 0; p < k; p++) { R t = w[i] * X(i, p); b[p] += t * y[i]; for (size_t q = 0; q < k; q++) A(p, q) += t * X(i, q); }
    M Ai; if (!inv(A, Ai)) return L;
    L.ok = true; L.cond = cond(A, Ai); L.beta.assign(k, 0);
    for (size_t p = 0; p < k; p++) for (size_t q = 0; q < k; q++) L.beta[p] += Ai(p, q) * b[q];
    if (full) {
        L.C = M(k, n);
        for (size_t i = 0; i < n; i++) if (w[i] != 0) for (size_t p = 0; p < k; p++) { R t = 0; for (size_t q = 0; q < k; q++) t += Ai(p, q) * X(i, q); L.C(p, i) = t * w[i]; }
        if (x0) { L.s.assign(n, 0); for (size_t i = 0; i < n; i++) for (size_t p = 0; p < k; p++) L.s[i] += (*x0)[p] * L.C(p, i); }
    }
    return L;
}
inline V row(const M& X, size_t i) { V o(X.c); for (size_t j = 0; j < X.c; j++) o[j] = X(i, j); return o; }

struct GwrFit {
    bool ok = true; R maxCond = 0; M betas; M se2; /* diag(CC') n x k */ M S; R trS = 0, trStS = 0; V q; V fitted; R rss = 0, tss = 0;
    R aic = 0, aicc = 0, edf = 0, enp = 0, r2 = 0, r2adj = 0;
};
inline void diagnostics(GwrFit& g, const M& X, const V& y) {
    size_t n = X.r; g.fitted.assign(n, 0); g.rss = 0; R my = 0; for (auto v : y) my += v; my /= n; g.tss = 0;
    for (size_t i = 0; i < n; i++) { for (size_t p = 0; p < X.c; p++) g.fitted[i] += g.betas(i, p) * X(i, p); R e = y[i] - g.fitted[i]; g.rss += e * e; g.tss += (y[i] - my) * (y[i] - my); }
    R N = n, PI = 3.14159265358979323846264338L;
    g.aic = N * std::log(g.rss / N) + N * std::log(2 * PI) + N + g.trS;
    g.aicc = N * std::log(g.rss / N) + N * std::log(2 * PI) + N * ((N + g.trS) / (N - 2 - g.trS));
    g.edf = N - 2 * g.trS + g.trStS; g.enp = 2 * g.trS - g.trStS;
    g.r2 = 1 - g.rss / g.tss; g.r2adj = 1 - (1 - g.r2) * (N - 1) / (g.edf - 1);
}
// W[i] = weights of all observations at location i.
inline GwrFit gwr(const M& X, const V& y, const std::vector<V>& W, bool cv = false) {
    size_t n = X.r, k = X.c; GwrFit g; g.betas = M(n, k); g.se2 = M(n, k); g.S = M(n, n); g.q.assign(n, 0);
    for (size_t i = 0; i < n; i++) {
        V w = W[i]; if (cv) w[i] = 0; V x0 = row(X, i);
        Local L = wls(X, y, w, &x0, true);
        if (!L.ok) { g.ok = false; return g; }
        g.maxCond = std::max(g.maxCond, L.cond);
        for (size_t p = 0; p < k; p++) { g.betas(i, p) = L.beta[p]; for (size_t j = 0; j < n; j++) g.se2(i, p) += L.C(p, j) * L.C(p, j); }
        for (size_t j = 0; j < n; j++) { g.S(i, j) = L.s[j]; g.trStS += L.s[j] * L.s[j]; R t = (i == j ? 1 : 0) - L.s[j]; g.q[j] += t * t; }
        g.trS += L.s[i];
    }
    diagnostics(g, X, y);
    return g;
}
// Eigen-decomposition of a symmetric matrix, eigenvalues in decreasing order.
inline void jacobi(M A, V& val, M& vec_) { size_t n = A.r; vec_ = M(n, n); for (size_t i = 0; i < n; i++) vec_(i, i) = 1; for (int sweep = 0; sweep < 100; sweep++) { R off = 0, dg = 0; for (size_t i = 0; i < n; i++) { dg += A(i, i) * A(i, i); for (size_t j = i + 1; j < n; j++) off += A(i, j) * A(i, j); } if (off <= 1e-36L * dg) break;
        for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) { if (A(p, q) == 0) continue; R th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs; for (size_t k = 0; k < n; k++) { R a = A(k, p), b = A(k, q); A(k, p) = cs * a - sn * b; A(k, q) = sn * a + cs * b; } for (size_t k = 0; k < n; k++) { R a = A(p, k), b = A(q, k); A(p, k) = cs * a - sn * b; A(q, k) = sn * a + cs * b; } for (size_t k = 0; k < n; k++) { R a = vec_(k, p), b = vec_(k, q); vec_(k, p) = cs * a - sn * b; vec_(k, q) = sn * a + cs * b; } } }
    std::vector<size_t> o(n); for (size_t i = 0; i < n; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return A(a, a) > A(b, b); }); M W = vec_; val.assign(n, 0); for (size_t j = 0; j < n; j++) { val[j] = A(o[j], o[j]); for (size_t i = 0; i < n; i++) W(i, j) = vec_(i, o[j]); } vec_ = W; }
} // namespace ref
