// C15: generalized GWR (Poisson, binomial) and its global model against executable specifications.
#include "models.hpp"
#include "gwmodelpp/GeneralizedLinearModel.h"
#include "gwmodelpp/PoissonModel.h"
#include "gwmodelpp/BinomialModel.h"
using namespace models; using ref::R; using ref::V; using ref::M;
#ifndef PART
const char* pbt::RULE = "condition numbers below 1e8 in every round, fitted probabilities inside (1e-8, 1-1e-8) and no stopping decision at a rounding tie, so every output is compared with the long-double specification";
#endif
struct Pb { Data d; bool pois; double tol = 1e-5; size_t maxit = 20; };
static Pb genPb(Src& s, Case& c, int nlo = 15, int nhi = 45) {
    Pb p; p.d = genData(s, c, nlo, nhi, 1, 4, true, {0, 1, 2, 4, 5}); Data& d = p.d; p.pois = s.boolean(); Rng r(d.seed + 9); for (int j = 1; j < d.k; j++) { d.x.col(j) -= arma::mean(d.x.col(j)); d.x.col(j) /= arma::stddev(d.x.col(j)); }
    double lvl = p.pois ? s.real(-0.5, 3.0) : s.real(-0.8, 0.8), slope = p.pois ? 0.3 : 0.6; arma::rowvec lo = arma::min(d.coords, 0), hi = arma::max(d.coords, 0); c.desc << (p.pois ? " Poisson" : " binomial") << " level=" << lvl; c.label(p.pois ? "Poisson" : "binomial");
    for (int i = 0; i < d.n; i++) { double u = hi(0) > lo(0) ? (d.coords(i, 0) - lo(0)) / (hi(0) - lo(0)) : 0, e = lvl + 0.4 * u; for (int j = 1; j < d.k; j++) e += slope * (j % 2 ? 1 : -1) * (0.5 + u) * d.x(i, j);
        if (p.pois) { double m = std::exp(std::min(e, 6.0)), L = std::exp(-m), q = 1; int k = 0; do { k++; q *= r.unit(); } while (q > L && k < 2000); d.y(i) = k - 1; } else d.y(i) = r.unit() < 1 / (1 + std::exp(-e)) ? 1 : 0; }
    if (arma::accu(d.y) == 0 || (!p.pois && arma::accu(d.y) == d.n)) throw Discard();
    d.X = ref::M::from(d.x); d.Y = ref::vfrom(d.y); if (s.chance(30)) { p.tol = std::pow(10.0, -(double)s.range(1, 9)); c.desc << " tol=" << p.tol; } if (s.chance(20)) { p.maxit = s.range(1, 30); c.desc << " maxiter=" << p.maxit; } return p;
}
static Bw genSmooth(Src& s, Case& c, const Data& d, bool binom) { Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(5); b.adaptive = s.boolean(); bool cp = b.kernel >= 2; double f = binom ? 1 : 0.5; int lo = std::min(d.n, std::max((int)(d.n * (cp ? 0.6 : 0.4) * (binom ? 1.2 : 1)), 3 * d.k + 4)); b.bw = b.adaptive ? s.range(std::min(lo, d.n), d.n + 8) : maxDist(d) * (cp ? s.real(0.6, 1.6) : s.real(0.2 * f, 1.2)); c.desc << " " << KN[b.kernel] << (b.adaptive ? " adaptive bw=" : " fixed bw=") << b.bw; c.label(KN[b.kernel]); c.label(b.adaptive ? "adaptive" : "fixed"); return b; }
struct Irls { bool ok = true; V z, w2, mu; R ll = 0, worst = 0; int rounds = 0; bool conv = false; };
static R llik(bool pois, R y, R mu) { return pois ? -mu + (y == 0 ? 0 : y * std::log(mu)) - std::lgamma((R)(y + 1)) : (1 - y) * std::log(1 - mu) + y * std::log(mu); }
static Irls irls(const Pb& p, const std::vector<V>& W) {
    const Data& d = p.d; Irls s; size_t n = d.n; s.mu.assign(n, 0.5L); V nu(n, 0); s.w2.assign(n, 1); if (p.pois) for (size_t i = 0; i < n; i++) { s.mu[i] = d.Y[i] + (R)0.1; nu[i] = std::log(s.mu[i]); }
    for (size_t it = 0; it < p.maxit; it++) {
        s.rounds++; s.z.assign(n, 0); for (size_t i = 0; i < n; i++) s.z[i] = nu[i] + (d.Y[i] - s.mu[i]) / (p.pois ? s.mu[i] : s.mu[i] * (1 - s.mu[i]));
        for (size_t i = 0; i < n; i++) { V w(n); for (size_t j = 0; j < n; j++) w[j] = W[i][j] * s.w2[j]; ref::Local L = ref::wls(d.X, s.z, w); if (!L.ok || L.cond > 1e8L) { s.ok = false; return s; } s.worst = std::max(s.worst, L.cond); nu[i] = 0; for (int q = 0; q < d.k; q++) nu[i] += d.X(i, q) * L.beta[q]; }
        for (size_t i = 0; i < n; i++) { if (std::fabs(nu[i]) > (p.pois ? 12 : 18)) { s.ok = false; return s; } s.mu[i] = p.pois ? std::exp(nu[i]) : 1 / (1 + std::exp(-nu[i])); }
        R old = s.ll; s.ll = 0; for (size_t i = 0; i < n; i++) s.ll += llik(p.pois, d.Y[i], s.mu[i]); R df = std::fabs((old - s.ll) / s.ll); if (std::fabs(df - (R)p.tol) < 1e-3L * p.tol + 1e-11L) { s.ok = false; return s; } if (df < p.tol) { s.conv = true; break; } for (size_t i = 0; i < n; i++) s.w2[i] = p.pois ? s.mu[i] : s.mu[i] * (1 - s.mu[i]);
    }
    return s;
}
struct Glm { bool ok = true; R dev, null_, ll; };
static R devOf(bool pois, R y, R mu) { return pois ? 2 * ((y > 0 ? y * std::log(y / mu) : 0) - (y - mu)) : -2 * (y > 0.5L ? std::log(mu) : std::log(1 - mu)); }
static Glm glm(const Pb& p) { // maximum likelihood by Newton iterations to convergence
    const Data& d = p.d; Glm g; size_t n = d.n; V mu(n), nu(n); R my = 0; for (auto y : d.Y) my += y; my /= n; for (size_t i = 0; i < n; i++) { mu[i] = my; nu[i] = p.pois ? std::log(my) : std::log(my / (1 - my)); } g.null_ = 0; for (size_t i = 0; i < n; i++) g.null_ += devOf(p.pois, d.Y[i], my); V last;
    for (int it = 0; it < 60; it++) { V w(n), z(n); for (size_t i = 0; i < n; i++) { w[i] = p.pois ? mu[i] : mu[i] * (1 - mu[i]); z[i] = nu[i] + (d.Y[i] - mu[i]) / w[i]; } ref::Local L = ref::wls(d.X, z, w); if (!L.ok || L.cond > 1e7L) { g.ok = false; return g; } for (size_t i = 0; i < n; i++) { nu[i] = 0; for (int q = 0; q < d.k; q++) nu[i] += d.X(i, q) * L.beta[q]; if (std::fabs(nu[i]) > 12) { g.ok = false; return g; } mu[i] = p.pois ? std::exp(nu[i]) : 1 / (1 + std::exp(-nu[i])); }
        R df = 1; if (!last.empty()) { df = 0; for (int q = 0; q < d.k; q++) df = std::max(df, std::fabs(L.beta[q] - last[q]) / (1 + std::fabs(L.beta[q]))); } last = L.beta; if (df < 1e-14L) { g.dev = g.ll = 0; for (size_t i = 0; i < n; i++) { g.dev += devOf(p.pois, d.Y[i], mu[i]); g.ll += llik(p.pois, d.Y[i], mu[i]); } return g; } }
    g.ok = false; return g;
}
static void setup(GWRGeneralized& a, const Pb& p, const Bw& b, int t, bool before) { a.setCoords(p.d.coords); a.setIndependentVariables(p.d.x); a.setDependentVariable(p.d.y); a.setSpatialWeight(sw(b, p.d.geo)); if (before) a.setFamily(p.pois ? GWRGeneralized::Poisson : GWRGeneralized::Binomial); if (t > 0) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); } if (!before) a.setFamily(p.pois ? GWRGeneralized::Poisson : GWRGeneralized::Binomial); a.setTol(p.tol); a.setMaxiter(p.maxit); }
static void fit(Src& s, Case& c) {
    Pb p = genPb(s, c); const Data& d = p.d; Bw b = genSmooth(s, c, d, !p.pois); int t = s.range(0, 5); bool hat = !s.chance(25), before = s.boolean(); c.desc << " threads=" << t << " hat=" << hat; if (onEdge(d.D, b)) throw Discard(); auto W = refWeights(d.D, b); Irls q = irls(p, W); if (!q.ok) throw Discard();
    size_t n = d.n; M be(n, d.k); R trS = 0, dev = 0; for (size_t i = 0; i < n; i++) { V w(n); for (size_t j = 0; j < n; j++) w[j] = W[i][j] * q.w2[j]; V x0 = ref::row(d.X, i); ref::Local L = ref::wls(d.X, q.z, w, &x0, true); if (!L.ok || L.cond > 1e8L) throw Discard(); q.worst = std::max(q.worst, L.cond); trS += L.s[i]; R nu = 0; for (int j = 0; j < d.k; j++) { be(i, j) = L.beta[j]; nu += d.X(i, j) * L.beta[j]; } if (!p.pois && std::fabs(nu) > 18) throw Discard(); dev += devOf(p.pois, d.Y[i], p.pois ? q.mu[i] : 1 / (1 + std::exp(-nu))); }
    if (p.pois) { dev = 0; for (size_t i = 0; i < n; i++) dev += d.Y[i] != 0 ? 2 * (d.Y[i] * (std::log(d.Y[i] / q.mu[i]) - 1) + q.mu[i]) : 2 * q.mu[i]; }
    c.interesting(); c.label("rounds=" + std::to_string(std::min(q.rounds, 8))); c.label(q.conv ? "converged" : "stopped at maximum");
    GWRGeneralized a; setup(a, p, b, t, before); a.setHasHatMatrix(hat); require(a.getFamily() == (p.pois ? GWRGeneralized::Poisson : GWRGeneralized::Binomial), "family reads back another value"); require(a.isValid(), "a consistent model is reported invalid"); mat r = a.fit(); if (s.chance(20)) { r = a.fit(); c.label("fitted twice"); } require(a.status() == Status::Success, "status is not Success");
    R tol = 1e-6L + q.worst * 1e-13L; tol *= 1 << std::min(q.rounds, 5); R fl = 1e-3L * maxabs(be); matClose("returned coefficients", r, be, tol, fl); matClose("coefficients", a.betas(), be, tol, fl);
    matClose("weights", a.getWtMat2(), [&] { M m(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m(j, i) = W[i][j]; return m; }(), 1e-7L, 1.0L);
    Glm g = glm(p); auto gd = a.getGLMDiagnostic(); if (g.ok) { c.label("global model compared"); R k = d.k, gt = 1e-5L * (1 + g.dev); closeTo("global deviance", gd.Dev, g.dev, 0, gt); closeTo("global null deviance", gd.NullDev, g.null_, 1e-8L, 1e-8L); closeTo("global AIC", gd.AIC, g.dev + 2 * k, 0, gt); if (n > k + 1) closeTo("global AICc", gd.AICc, g.dev + 2 * k + 2 * k * (k + 1) / (n - k - 1), 0, gt); closeTo("global pseudo R2", gd.RSquare, 1 - g.dev / g.null_, 0, gt / g.null_ + 1e-8L); }
    if (hat) { c.label("diagnostics"); auto e = a.getDiagnostic(); R dt = std::min(1e-2L, tol * 10) * (n + dev), tt = std::min(1e-2L, tol * 10) * n; closeTo("deviance", e.RSS, dev, 0, dt); closeTo("AIC", e.AIC, dev + 2 * trS, 0, dt + 2 * tt); if (n - trS - 1 > 0.5L) closeTo("AICc", e.AICc, dev + 2 * trS + 2 * trS * (trS + 1) / (n - trS - 1), 0, dt + tt * 100 * n); closeTo("pseudo R2", e.RSquare, 1 - dev / g.null_, 0, dt / g.null_ * 2); }
    // predicting at the sample locations gives the fitted coefficients; elsewhere the specification's
    if (s.chance(50)) { c.label("predict"); mat loc(s.range(1, 12), 2); Rng rr(d.seed + 31); for (size_t i = 0; i < loc.n_rows; i++) { size_t x = rr.below(n), y = rr.below(n); loc.row(i) = rr.below(3) ? mat(0.5 * (d.coords.row(x) + d.coords.row(y))) : mat(d.coords.row(x)); }
        Data e = d; fillDist(e, loc); if (onEdge(e.D, b)) return; auto W2 = refWeights(e.D, b); M pe(loc.n_rows, d.k); for (size_t i = 0; i < loc.n_rows; i++) { V w(n); for (size_t j = 0; j < n; j++) w[j] = W2[i][j] * q.w2[j]; ref::Local L = ref::wls(d.X, q.z, w); if (!L.ok || L.cond > 1e8L) return; for (int j = 0; j < d.k; j++) pe(i, j) = L.beta[j]; } mat pr = s.boolean() ? a.predict(loc) : [&] { GWRGeneralized f; setup(f, p, b, t, !before); return f.predict(loc); }(); matClose("predicted coefficients", pr, pe, tol * 10, 1e-3L * maxabs(pe)); }
}
// Value of the bandwidth criterion.
static void criterion(Src& s, Case& c) {
    Pb p = genPb(s, c); const Data& d = p.d; Bw b = genSmooth(s, c, d, !p.pois); int t = s.range(0, 5); bool cv = s.boolean(); c.desc << " threads=" << t << (cv ? " CV" : " AICc"); if (onEdge(d.D, b)) throw Discard(); auto W = refWeights(d.D, b); size_t n = d.n; if (cv) for (size_t i = 0; i < n; i++) W[i][i] = 0; Irls q = irls(p, W); if (!q.ok) throw Discard(); R want = 0, trS = 0;
    for (size_t i = 0; i < n; i++) { V w(n); for (size_t j = 0; j < n; j++) w[j] = W[i][j] * q.w2[j]; V x0 = ref::row(d.X, i); ref::Local L = ref::wls(d.X, q.z, w, &x0, true); if (!L.ok || L.cond > 1e8L) throw Discard(); trS += L.s[i]; R nu = 0; for (int j = 0; j < d.k; j++) nu += d.X(i, j) * L.beta[j]; if (std::fabs(nu) > (p.pois ? 12 : 18)) throw Discard(); R e = d.Y[i] - (p.pois ? std::exp(nu) : 1 / (1 + std::exp(-nu))); want += e * e; }
    if (!cv) { if (n - trS - 1 < 0.5L) throw Discard(); want = -2 * q.ll + 2 * trS + 2 * trS * (trS + 1) / (n - trS - 1); }
    c.interesting(); c.label(cv ? "CV" : "AICc"); GWRGeneralized a; bool before = s.boolean(); setup(a, p, s.boolean() ? b : Bw{b.bw * 1.1, b.adaptive, b.kernel}, t, before); a.setBandwidthSelectionCriterionType(cv ? GWRGeneralized::CV : GWRGeneralized::AIC); if (s.boolean()) { a.fit(); c.label("after fit"); } else { GWRGeneralized f; setup(f, p, b, t, before); } CRSDistance cd(d.geo); cd.makeParameter({d.coords, d.coords}); BandwidthWeight w(b.bw, b.adaptive, b.kernel); SpatialWeight sp(&w, &cd); a.setSpatialWeight(sp);
    double v = 0; a.getCriterion(&w, v); R tol = (1e-6L + q.worst * 1e-13L) * (1 << std::min(q.rounds, 5)) * 10; closeTo("bandwidth criterion", v, want, std::min(1e-2L, tol), cv ? 1e-6L : 1e-4L * n * (1 + 100 / (n - trS - 1)));
}
// The global model on its own.
static void global(Src& s, Case& c) {
    Pb p = genPb(s, c, 6, 60); Glm g = glm(p); if (!g.ok) throw Discard(); c.interesting(); gwm::GeneralizedLinearModel m; m.setX(p.d.x); m.setY(p.d.y); m.setFamily(p.pois ? GWRGeneralized::Poisson : GWRGeneralized::Binomial); m.fit(); R t = 1e-5L * (1 + g.dev); closeTo("deviance", m.dev(), g.dev, 0, t); closeTo("null deviance", m.nullDev(), g.null_, 1e-8L, 1e-8L); closeTo("AIC", m.aic(), -2 * g.ll + 2 * p.d.k, 1e-7L, t); require(m.dev() <= m.nullDev() + t, "deviance exceeds the null deviance");
}
// The published building blocks.
static void blocks(Src& s, Case& c) {
    int n = s.range(1, 12); Rng r(s.seed()); mat y(n, 1), mu(n, 1), m(n, 1); c.desc << "n=" << n; c.interesting(); for (int i = 0; i < n; i++) { m(i) = 1 + r.below(30); y(i) = r.below((uint64_t)m(i) + 1); mu(i) = 0.02 + 0.96 * r.unit(); } mat p = GWRGeneralized::dpois(y, mu * 10), b = GWRGeneralized::dbinom(y, m, mu), l = GWRGeneralized::lchoose(m, y), g = GWRGeneralized::lgammafn(m);
    for (int i = 0; i < n; i++) { closeTo("log Poisson density", p(i), llik(true, y(i), (R)mu(i) * 10), 1e-10L, 1e-9L); R lc = std::lgamma((R)m(i) + 1) - std::lgamma((R)m(i) - y(i) + 1) - std::lgamma((R)y(i) + 1); closeTo("log binomial coefficient", l(i), lc, 1e-10L, 1e-10L); closeTo("log gamma", g(i), std::lgamma((R)m(i)), 1e-12L, 1e-12L); closeTo("log binomial density", b(i), lc + y(i) * std::log((R)mu(i)) + (m(i) - y(i)) * std::log(1 - (R)mu(i)), 1e-9L, 1e-9L); }
    Data d; d.n = s.range(5, 20); d.k = s.range(1, 4); d.x = mat(d.n, d.k); d.y = vec(d.n); vec w(d.n); for (auto& v : d.x) v = r.normal(); for (auto& v : d.y) v = r.normal(); for (auto& v : w) v = r.unit(); if (d.n < d.k + 1) throw Discard(); d.X = M::from(d.x); d.Y = ref::vfrom(d.y); int f = s.range(0, d.n - 1); V x0 = ref::row(d.X, f); ref::Local L = ref::wls(d.X, d.Y, ref::vfrom(w), &x0, true); if (!L.ok || L.cond > 1e7L) throw Discard();
    matClose("weighted coefficients", mat(GWRGeneralized::gwPredict(d.x, d.y, w)), col(L.beta), 1e-7L, 1e-3L); mat ci, si; matClose("weighted coefficients", mat(GWRGeneralized::gwFit(d.x, d.y, w, f, ci, si)), col(L.beta), 1e-7L, 1e-3L); matClose("projection", ci, L.C, 1e-7L, 1e-1L); matClose("hat row", mat(si.t()), col(L.s), 1e-7L, 1e-1L); matClose("projection", GWRGeneralized::CiMat(d.x, w), L.C, 1e-7L, 1e-1L);
}
// The two response families: links, variances, deviances, likelihoods, starting values; counts may come as successes and failures.
static void family(Src& s, Case& c) {
    int n = s.range(1, 14); bool pois = s.boolean(); Rng r(s.seed()); bool two = !pois && s.boolean(), zeros = s.boolean(), wts = s.boolean(); vec y(n), m(n, arma::fill::ones), w(n, arma::fill::ones), mu(n), eta(n); c.desc << (pois ? "Poisson" : two ? "binomial counts" : "binomial 0/1") << " n=" << n << " weights=" << wts << " zeros=" << zeros; c.label(pois ? "Poisson" : two ? "binomial counts" : "binomial 0/1"); c.interesting();
    for (int i = 0; i < n; i++) { if (wts) w(i) = 0.2 + 3 * r.unit(); if (two) m(i) = 1 + r.below(20); y(i) = pois ? (zeros ? 0 : 1) + r.below(30) : two ? r.below((uint64_t)m(i) + 1) : (double)r.below(2); mu(i) = pois ? 0.01 + 20 * r.unit() : 0.01 + 0.98 * r.unit(); eta(i) = pois ? std::log(mu(i)) : std::log(mu(i) / (1 - mu(i))); }
    std::unique_ptr<LinearModel> L; if (pois) L.reset(new PoissonModel()); else L.reset(new BinomialModel()); mat Y = y; if (two) Y = arma::join_rows(y, m - y); L->setY(Y); L->setWeight(w); mat nn = L->initialize(); mat st = L->muStart(), gy = L->getY(), gw = L->weights(); vec prop = two ? vec(y / m) : y, W = two ? vec(w % m) : w;
    mat dr = L->devResids(prop, mu, W), va = L->variance(mu), li = L->linkinv(eta), lf = L->linkfun(mu), me = L->muEta(eta); double aic = L->aic(prop, nn, mu, W); R ll = 0; require(nn.n_elem == (uword)n && st.n_elem == (uword)n && gy.n_elem == (uword)n && gw.n_elem == (uword)n && dr.n_elem == (uword)n, "starting values have the wrong size");
    for (int i = 0; i < n; i++) { R u = mu(i), q = prop(i), k = m(i), ws = w(i); closeTo("number of trials", nn(i), k, 0, 0); closeTo("response", gy(i), q, 1e-14L, 0); closeTo("weight", gw(i), W(i), 1e-14L, 0);
        closeTo("starting mean", st(i), pois ? q + (R)0.1 : two ? (k * q + 0.5L) / (k + 1) : (ws * q + 0.5L) / (ws + 1), 1e-13L, 1e-15L); closeTo("variance", va(i), pois ? u : u * (1 - u), 1e-12L, 1e-15L); closeTo("inverse link", li(i), u, 1e-11L, 1e-15L); closeTo("link", lf(i), eta(i), 1e-11L, 1e-11L); closeTo("derivative of the inverse link", me(i), pois ? u : u * (1 - u), 1e-11L, 1e-15L);
        R dv = pois ? 2 * ((q > 0 ? q * std::log(q / u) : 0) - (q - u)) : 2 * ((q > 0 ? q * std::log(q / u) : 0) + (q < 1 ? (1 - q) * std::log((1 - q) / (1 - u)) : 0)); closeTo("deviance residual", dr(i), dv * (R)W(i), 1e-9L, 1e-11L);
        R lc = std::lgamma(k + 1) - std::lgamma(k - y(i) + 1) - std::lgamma((R)y(i) + 1); ll += pois ? ws * llik(true, q, u) : ws * (lc + y(i) * std::log(u) + (k - y(i)) * std::log(1 - u)); }
    if (pois || m.max() > 1 || !wts) closeTo("minus twice the log likelihood", aic, -2 * ll, 1e-9L, 1e-8L); require(L->validmu(mu), "means inside the family's range reported invalid"); require(L->valideta(eta), "finite linear predictors reported invalid");
    vec bad = mu; int at = s.range(0, n - 1); int how = s.range(0, 3); bad(at) = how == 0 ? 0.0 : how == 1 ? -0.5 : how == 2 ? arma::datum::nan : pois ? arma::datum::inf : 1.0; require(!L->validmu(bad), "means outside the family's range reported valid"); mat ms = mu; L->setMuStart(ms); require(arma::approx_equal(L->muStart(), ms, "absdiff", 0), "starting means read back other values");
}
#ifndef PART
int main(int argc, char** argv) { pbt::add("fit", 16000, 300000, fit); pbt::add("criterion", 10000, 200000, criterion); pbt::add("global", 12000, 200000, global); pbt::add("blocks", 8000, 100000, blocks); pbt::add("family", 20000, 200000, family); return pbt::mainImpl(argc, argv); }

#endif
