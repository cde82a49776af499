// Comparison of a fitted local regression (coefficients, standard errors, hat matrix, diagnostics) with the long-double reference.
#pragma once
#include "models.hpp"
namespace models {
template <class A> void checkFit(Case& c, A& a, const mat& returned, const ref::GwrFit& g, const Data& d, bool wantS) {
    using R = long double; R tol = 1e-7L + g.maxCond * 5e-13L, N = d.n; matClose("returned coefficients", returned, g.betas, tol, 1e-4L * maxabs(g.betas)); matClose("betas()", a.betas(), g.betas, tol, 1e-4L * maxabs(g.betas));
    R amp = 1 + g.tss / std::max(g.rss, (R)1e-300L), rtol = std::min((R)0.01L, tol * 10 * amp); auto r = a.diagnostic(); if (g.rss < 1e-10L * g.tss) { c.label("perfect-fit"); return; }
    closeTo("tr(S)", a.sHat()(0), g.trS, tol * 10, tol * N); closeTo("tr(StS)", a.sHat()(1), g.trStS, tol * 10, tol * N); matClose("q diagonal", mat(a.qDiag()), col(g.q), tol * 10, 1.0L);
    if (wantS) { matClose("hat matrix", a.s(), g.S, tol * 10, 1.0L); c.label("S-compared"); }
    closeTo("RSS", r.RSS, g.rss, rtol); closeTo("R2", r.RSquare, g.r2, 0, rtol * 2); closeTo("EDF", r.EDF, g.edf, tol * 10, tol * N * 10); closeTo("ENP", r.ENP, g.enp, tol * 10, tol * N); closeTo("AIC", r.AIC, g.aic, 1e-9L, N * rtol * 2 + tol * N);
    R q = std::fabs(N - 2 - g.trS), e = std::fabs(g.edf - 1); if (q > 0.05L) closeTo("AICc", r.AICc, g.aicc, 1e-6L + tol * 100, N * rtol * 10 + tol * N * 100 / (q * q)); if (e > 0.05L) closeTo("adjusted R2", r.RSquareAdjust, g.r2adj, 1e-6L, rtol * N * 10 / (e * e));
    if (g.edf > 0.05L) { ref::M se(d.n, d.k); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.k; j++) se(i, j) = std::sqrt(g.rss / g.edf * g.se2(i, j)); matClose("standard errors", a.betasSE(), se, std::min((R)0.05L, rtol * 10 + tol * N / g.edf * 100)); c.label("se-compared"); }
}
}
