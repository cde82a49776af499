// C06: basic GWR fit == independent local weighted least squares, for every location.
#include "gen.hpp"
#include "gwmodelpp/GWRBasic.h"
using namespace gen; using namespace gwm;
const char* pbt::RULE = "n >= k+3 observations, every local normal matrix has condition number below 1e8 so all outputs are compared against the long-double reference";

static void fitVsReference(Src& s, Case& c) {
    Data d = genData(s, c, 8, 60, 1, 5); Bw b = genBw(s, c, d);
    int mode = s.range(0, 2), threads = mode == 1 ? s.range(1, 8) : 1; bool hat = !s.chance(25), storeS = s.chance(25), storeC = s.chance(30), ctor = s.boolean();
    c.desc << (mode == 1 ? " omp" : " serial") << " threads=" << threads << " hat=" << hat << " storeS=" << storeS << " storeC=" << storeC;
    if (onEdge(d.D, b)) throw Discard();
    ref::GwrFit g = ref::gwr(d.X, d.Y, refWeights(d.D, b));
    if (!g.ok || g.maxCond > 1e8L) { c.label("ill-conditioned"); throw Discard(); }
    c.interesting();
    SpatialWeight w = sw(b, d.geo);
    std::unique_ptr<GWRBasic> a;
    if (ctor) a.reset(new GWRBasic(d.x, d.y, d.coords, w, hat));
    else { a.reset(new GWRBasic()); a->setCoords(d.coords); a->setIndependentVariables(d.x); a->setDependentVariable(d.y); a->setSpatialWeight(w); a->setHasHatMatrix(hat); }
    if (mode == 1) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(threads); }
    a->setStoreS(storeS); a->setStoreC(storeC);
    require(a->isValid(), "a consistent model is reported invalid");
    mat betas = a->fit();
    require(a->status() == Status::Success, "status is not Success after a completed fit");
    long double tol = 1e-7L + g.maxCond * 1e-13L;
    matClose("returned coefficients", betas, g.betas, tol);
    matClose("betas()", a->betas(), g.betas, tol);
    // diagnostics
    RegressionDiagnostic r = a->diagnostic();
    long double amp = 1 + (g.tss / std::max(g.rss, 1e-300L));      // residuals amplify coefficient error
    long double rtol = std::min(0.01L, tol * 10 * amp);
    if (g.rss < 1e-10L * g.tss) { c.label("perfect-fit"); return; }
    closeTo("RSS", r.RSS, g.rss, rtol); closeTo("R2", r.RSquare, g.r2, 0, rtol * 2);
    closeTo("EDF", r.EDF, g.edf, tol * 10, tol * d.n * 10); closeTo("ENP", r.ENP, g.enp, tol * 10, tol * d.n);
    closeTo("AIC", r.AIC, g.aic, 1e-9L, d.n * rtol * 2 + tol * d.n);
    if (std::fabs((double)(d.n - 2 - g.trS)) > 0.05) closeTo("AICc", r.AICc, g.aicc, 1e-6L + tol * 100, d.n * rtol * 10 + tol * d.n * 100 / std::pow(std::fabs((double)(d.n - 2 - g.trS)), 2));
    if (std::fabs((double)(g.edf - 1)) > 0.05) closeTo("adjusted R2", r.RSquareAdjust, g.r2adj, 1e-6L, rtol * d.n * 10 / std::pow(std::fabs((double)(g.edf - 1)), 2));
    closeTo("tr(S)", a->sHat()(0), g.trS, tol * 10, tol * d.n); closeTo("tr(StS)", a->sHat()(1), g.trStS, tol * 10, tol * d.n);
    matClose("q diagonal", mat(a->qDiag()), col(g.q), tol * 10, 1.0L);
    // standard errors
    if (g.edf > 0.05L) {
        ref::M se(d.n, d.k); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.k; j++) se(i, j) = std::sqrt(g.rss / g.edf * g.se2(i, j));
        matClose("standard errors", a->betasSE(), se, std::min(0.05L, rtol * 10 + tol * d.n / g.edf * 100));
        c.label("se-compared");
    }
    if (a->isStoreS()) { matClose("hat matrix", a->s(), g.S, tol * 10, 1.0L); c.label("S-compared");
        closeTo("trace of the stored hat matrix", arma::trace(a->s()), a->sHat()(0), 1e-9L, 1e-9L * d.n);
        matClose("S*y", mat(a->s() * d.y), col(g.fitted), tol * 100, 1e-3L); }
    else require(a->s().n_rows == 1, "hat matrix stored although not requested");
    require(a->isStoreS() == (hat || storeS), "isStoreS() disagrees with the configuration");
    if (storeC) for (int i = 0; i < d.n; i += 1 + d.n / 7) { matClose("C slice times y", mat(a->c().slice(i) * d.y), arma::trans(mat(betas.row(i))), tol * 100, 1e-3L); c.label("C-compared"); }
}

// Local collinearity by construction: an exactly zero column or all-zero local weights must be reported, never silently fitted.
static void singularReported(Src& s, Case& c) {
    Data d = genData(s, c, 8, 40, 2, 4, false, {0, 2, 4}); int how = s.range(0, 1); Bw b;
    bool omp = s.boolean(); int threads = s.range(1, 6);
    if (how == 0) { int z = s.range(1, d.k - 1); d.x.col(z).zeros(); b = genBw(s, c, d); c.desc << " zero column " << z; }
    else { // a remote point whose compact neighbourhood has no other point
        int r = s.range(0, d.n - 1); d.coords(r, 0) += 100 * d.scale; b = {20 * d.scale, false, (BandwidthWeight::KernelFunctionType)s.range(2, 4)}; c.desc << " isolated point " << r << " " << KN[b.kernel]; 
        // the isolated point sees only itself: a rank-one normal matrix with exact zeros elsewhere when its row is (1,0,..,0)
        for (int j = 1; j < d.k; j++) d.x(r, j) = 0; }
    c.desc << (omp ? " omp " : " serial ") << threads; c.interesting();
    GWRBasic a(d.x, d.y, d.coords, sw(b, false)); if (omp) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(threads); }
    require(throws([&] { a.fit(); }), "a location whose local regression is exactly singular was fitted without an error");
}

// OLS limit: with an (effectively) infinite bandwidth every local regression is the global OLS.
static void globalLimit(Src& s, Case& c) {
    Data d = genData(s, c, 8, 60, 1, 5); Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(5); b.adaptive = s.boolean(); b.bw = b.adaptive ? 1e9 : maxDist(d) * 1e7;
    c.desc << " " << KN[b.kernel] << " near-infinite bandwidth"; if (maxDist(d) <= 0) throw Discard();
    ref::V one(d.n, 1); ref::Local L = ref::wls(d.X, d.Y, one); if (!L.ok || L.cond > 1e8L) throw Discard(); c.interesting();
    GWRBasic a(d.x, d.y, d.coords, sw(b, d.geo)); if (s.boolean()) a.setParallelType(ParallelType::OpenMP);
    mat betas = a.fit(); ref::M g(d.n, d.k); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.k; j++) g(i, j) = L.beta[j];
    matClose("coefficients in the global limit", betas, g, 1e-5L + L.cond * 1e-6L * 1e-2L);
    closeTo("tr(S) in the global limit", a.sHat()(0), d.k, 1e-4L);
}
int main(int argc, char** argv) {
    pbt::add("fit-vs-reference", 2500, 60000, fitVsReference);
    pbt::add("singular-reported", 300, 3000, singularReported);
    pbt::add("global-limit", 300, 5000, globalLimit);
    return pbt::mainImpl(argc, argv);
}
