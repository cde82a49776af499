// C07: prediction at arbitrary locations.
#include "models.hpp"
using namespace models;
#define PART
namespace ridge_part {
#include "c16.cpp"
}
#undef PART
const char* pbt::RULE = "the prediction succeeded, with at least one location different from every observation (reference, row-independence) or all observations' own locations (self-consistency), and was compared";
struct Known { mat X, co; vec y; Known() { Rng r(3); X = mat(30, 2); co = mat(30, 2); y = vec(30); for (int i = 0; i < 30; i++) { X(i, 0) = 1; X(i, 1) = r.normal(); co(i, 0) = r.unit(); co(i, 1) = r.unit(); y(i) = 1 + (2 + co(i, 0)) * X(i, 1) + 0.3 * r.normal(); } } };
static mat genLoc(Src& s, Case& c, const Data& d, int m) {
    mat l = d.geo ? makeLonLat(d.seed, m, 0) : makeCoords(d.seed + 77, m, d.layout == 4 ? 4 : 0, d.scale);
    if (d.geo) { arma::rowvec lo = arma::min(d.coords, 0), hi = arma::max(d.coords, 0); Rng r(d.seed + 5); for (int i = 0; i < m; i++) for (int j = 0; j < 2; j++) l(i, j) = r.real(lo(j), hi(j)); }
    int mix = s.range(0, 2); if (mix) for (int i = 0; i < m; i++) if ((i * 7 + mix) % 3 == 0) l.row(i) = d.coords.row((i * 5 + mix) % d.n); // some locations coincide with observations
    c.desc << " locations=" << m << (mix ? " mixed" : ""); return l;
}
// Basic and robust GWR: coefficients at any location solve the weighted least squares of the weights seen from that location.
static void reference(Src& s, Case& c) {
    Data d = genData(s, c, 8, 50, 1, 5); Bw b = genBw(s, c, d); int m = s.range(1, 60); mat loc = genLoc(s, c, d, m); bool robust = s.chance(30), fitFirst = s.boolean(); int t = s.range(0, 6); c.desc << (robust ? " robust" : "") << (fitFirst ? " after fit" : "") << " threads=" << t;
    fillDist(d, loc); if (onEdge(d.D, b)) throw Discard(); std::vector<ref::V> W = refWeights(d.D, b); ref::M B(m, d.k); long double cond = 0;
    for (int i = 0; i < m; i++) { auto L = ref::wls(d.X, d.Y, W[i]); if (!L.ok || L.cond > 1e8L) throw Discard(); cond = std::max(cond, L.cond); for (int j = 0; j < d.k; j++) B(i, j) = L.beta[j]; }
    std::unique_ptr<GWRBasic> a(robust ? new GWRRobust() : new GWRBasic()); a->setCoords(d.coords); a->setIndependentVariables(d.x); a->setDependentVariable(d.y); a->setSpatialWeight(sw(b, d.geo)); a->setHasHatMatrix(true); if (t > 0) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(t); }
    if (fitFirst) { Data e = d; fillDist(e, d.coords); ref::GwrFit g = ref::gwr(d.X, d.Y, refWeights(e.D, b)); if (!g.ok || g.maxCond > 1e8L || (robust)) fitFirst = false; else a->fit(); }
    mat p = a->predict(loc); c.interesting(); require(a->status() == Status::Success, "status is not Success after a completed prediction"); matClose("predicted coefficients", p, B, 1e-7L + cond * 1e-13L);
    if (s.boolean()) { mat q = a->predict(mat(loc.rows(0, 0))); require(q.n_rows == 1, "prediction at one location has " + std::to_string(q.n_rows) + " rows"); matClose("second prediction", q, mat(p.row(0)), 1e-7L); c.label("predicted-twice"); }
}
// Predicting at the observations' own locations reproduces the fitted coefficients.
static void self(Src& s, Case& c) {
    static const int AL[] = {BASIC, LCR, POISSON, BINOMIAL, SCALABLE, GTWR_}; int alg = AL[s.below(6)]; GenOpt g; g.autos = false; Cfg f = genCfg(s, c, alg, g); f.threads = alg == SCALABLE ? 0 : s.range(0, 4); f.hat = true; c.desc << " threads=" << f.threads; bool fresh = s.boolean();
    auto a = make(f); Res r = runModel(*a); if (r.threw) throw Discard(); if (!r.o.find("betas")->is_finite()) throw Discard();
    auto b = make(f); mat p = fresh ? b->predict(f.d.coords) : a->predict(f.d.coords); c.interesting(); Out x, y; x.add("coefficients", *r.o.find("betas")); y.add("coefficients", p); std::string e = diff(x, y, 1e-6); require(e.empty(), "prediction at the observations differs from the fit: " + e);
}
// Every location is predicted independently of which other locations are asked for, and of their order.
static void rows(Src& s, Case& c) {
    static const int AL[] = {BASIC, LCR, POISSON, BINOMIAL, ROBUST}; int alg = AL[s.below(5)]; GenOpt g; g.autos = false; Cfg f = genCfg(s, c, alg, g); f.threads = s.range(0, 4); f.hat = true; int m = s.range(2, 2 * f.d.n); mat loc = genLoc(s, c, f.d, m);
    auto a = make(f); mat p; try { p = a->predict(loc); } catch (const std::exception&) { throw Discard(); } if (!p.is_finite()) throw Discard(); require(p.n_rows == (uword)m && p.n_cols == (uword)f.d.k, "prediction at " + std::to_string(m) + " locations has shape " + std::to_string(p.n_rows) + "x" + std::to_string(p.n_cols)); c.interesting();
    Rng r(f.d.seed + 8); arma::uvec pick(s.range(1, m)); for (auto& q : pick) q = r.below(m); auto b = make(f); mat q = (s.boolean() ? a : b)->predict(mat(loc.rows(pick))); Out x, y; x.add("coefficients", mat(p.rows(pick))); y.add("coefficients", q); std::string e = diff(x, y, 1e-7); require(e.empty(), "the same location is predicted differently in another request: " + e);
}
// A prediction does not disturb the model: fitting afterwards gives what a fresh fit gives.
static void refit(Src& s, Case& c) {
    static const int AL[] = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, SCALABLE}; int alg = AL[s.below(6)]; GenOpt g; g.autos = false; Cfg f = genCfg(s, c, alg, g); f.threads = alg == SCALABLE ? 0 : s.range(0, 4); int m = s.range(1, 2 * f.d.n); if (alg == SCALABLE) m = std::max(m, 3); mat loc = genLoc(s, c, f.d, m);
    auto a = make(f), b = make(f); Res ra = runModel(*a); if (ra.threw) throw Discard(); if (throws([&] { b->predict(loc); })) throw Discard(); Res rb = runModel(*b); c.interesting(); require(!rb.threw, "fitting after a prediction fails: " + rb.what); std::string e = diff(ra.o, rb.o, 1e-9); require(e.empty(), "fitting after a prediction gives other results: " + e);
}
int main(int argc, char** argv) {
    pbt::add("reference", 8000, 200000, reference);
    pbt::add("reference-ridge", 4000, 80000, ridge_part::predict);
    pbt::add("self", 4000, 100000, self);
    pbt::add("rows", 3000, 80000, rows);
    pbt::add("refit", 3000, 80000, refit);
    pbt::known("gwdr-predict-stub", "predict() of density regression (GWDR) returns zeros, whatever the locations", [] { Known k; GWDR a; a.setCoords(k.co); a.setIndependentVariables(k.X); a.setDependentVariable(k.y); OneDimDistance td; BandwidthWeight w(20, true, BandwidthWeight::Gaussian); a.setSpatialWeights({SpatialWeight(&w, &td), SpatialWeight(&w, &td)}); a.setHasHatMatrix(true); mat b = a.fit(), p = a.predict(k.co); return p.n_rows != b.n_rows || arma::abs(p - b).max() > 1e-6; });
    pbt::known("mgwr-predict-stub", "predict() of multiscale GWR returns zeros, whatever the locations", [] { Known k; GWRMultiscale a; a.setCoords(k.co); a.setIndependentVariables(k.X); a.setDependentVariable(k.y); mat p = a.predict(k.co); return p.n_rows != 30 || arma::abs(p).max() == 0; });
    pbt::known("gtwr-predict-locations", "predict() of GTWR ignores the given locations: row i is the coefficient vector of observation i", [] { Known k; GTWR a; a.setCoords(k.co, vec(30, arma::fill::zeros)); a.setIndependentVariables(k.X); a.setDependentVariable(k.y); CRSDistance sd(false); OneDimDistance td; CRSSTDistance q(&sd, &td, 0.5); BandwidthWeight w(20, true, BandwidthWeight::Gaussian); a.setSpatialWeight(SpatialWeight(&w, &q)); mat p = a.predict(k.co), r = a.predict(mat(arma::flipud(k.co))); return arma::abs(r - arma::flipud(p)).max() > 1e-6; });
    return pbt::mainImpl(argc, argv);
}
