// C02: distances - every metric against an independent formula, metric axioms, extremes, bounds.
#include "gen.hpp"
#include "gwmodelpp/spatialweight/MinkwoskiDistance.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"
using namespace gen; using namespace gwm; using ref::R; using ref::V;
const char* pbt::RULE = "at least 2 focus points and 2 data points, not all at the same place";

static R mink(R x0, R y0, R x1, R y1, double p, double th) {
    R dx = x0 - x1, dy = y0 - y1; if (p != 2 && th != 0) { R a = dx * std::cos((R)th) - dy * std::sin((R)th), b = dx * std::sin((R)th) + dy * std::cos((R)th); dx = a; dy = b; }
    dx = std::fabs(dx); dy = std::fabs(dy); if (p == -1) return std::max(dx, dy); if (p == 1) return dx + dy; return std::pow(std::pow(dx, (R)p) + std::pow(dy, (R)p), 1 / (R)p);
}
// haversine on the mean sphere: an oracle of a different kind for great-circle distances
static R haversine(R lo1, R la1, R lo2, R la2) { const R k = 3.14159265358979323846L / 180; R a = std::pow(std::sin((la1 - la2) / 2 * k), 2) + std::cos(la1 * k) * std::cos(la2 * k) * std::pow(std::sin((lo1 - lo2) / 2 * k), 2); return 2 * 6371.0088L * std::asin(std::min<R>(1, std::sqrt(a))); }
struct Pts { mat f, d; bool same; };
static Pts genPts(Src& s, Case& c, bool lonlat) {
    Pts p; int nf = s.range(1, 25), nd = s.range(1, 25); p.same = s.chance(40); uint32_t seed = s.seed(); static const double SC[] = {1, 1000, 1e6}; double sc = SC[s.below(3)]; int lay = s.range(0, 5), span = s.range(0, 2);
    p.d = lonlat ? makeLonLat(seed, nd, span) : makeCoords(seed, nd, lay, sc); p.f = p.same ? p.d : (lonlat ? makeLonLat(seed + 1, nf, span) : makeCoords(seed + 1, nf, lay, sc));
    if (lonlat && s.chance(15)) { double sh = s.chance(50) ? 180 : 360; p.d.col(0) += sh; p.f.col(0) += sh; c.desc << "(longitudes shifted by " << sh << ") "; }   // 0..360 convention
    if (s.chance(25) && !p.same) { for (size_t i = 0; i < std::min(p.f.n_rows, p.d.n_rows); i += 2) p.f.row(i) = p.d.row(i); }
    if (lonlat && s.chance(20)) for (size_t i = 0; i < p.f.n_rows; i += 2) { p.f(i, 1) = p.d(i % p.d.n_rows, 1); if (s.chance(50)) p.f(i, 0) = 360 - p.d(i % p.d.n_rows, 0); }
    c.desc << p.f.n_rows << " focus, " << p.d.n_rows << " data points seed=" << seed << " scale=" << sc << (p.same ? " same" : ""); c.interesting(p.f.n_rows > 1 && p.d.n_rows > 1 && (arma::range(p.d.col(0)) > 0 || arma::range(p.d.col(1)) > 0));
    return p;
}
template <class F> static void checkAll(Distance& dist, const Pts& p, F oracle, R rel, R abs_) {
    R mx = 0, mn = 1e300L;
    for (size_t i = 0; i < p.f.n_rows; i++) {
        vec v = dist.distance(i); require(v.n_elem == p.d.n_rows, "one distance per data point expected");
        for (size_t j = 0; j < p.d.n_rows; j++) { R w = oracle(i, j); mx = std::max(mx, w); mn = std::min(mn, w); closeTo("distance " + std::to_string(i) + "->" + std::to_string(j), v(j), w, rel, abs_); require(v(j) >= 0, "negative distance"); }
    }
    closeTo("maxDistance", dist.maxDistance(), mx, rel, abs_); closeTo("minDistance", dist.minDistance(), mn, rel, abs_);
    require(throws([&] { dist.distance(p.f.n_rows); }), "a focus index past the last point was accepted");
    require(throws([&] { dist.distance(p.f.n_rows + 1000); }), "a focus index far past the last point was accepted");
}
static void euclid(Src& s, Case& c) { Pts p = genPts(s, c, false); CRSDistance d(false); if (s.boolean()) { d.setGeographic(true); d.setGeographic(false); } d.makeParameter({p.f, p.d}); R sc = std::max(arma::abs(p.f).max(), arma::abs(p.d).max());
    checkAll(d, p, [&](size_t i, size_t j) { return ref::euclid(p.f(i, 0), p.f(i, 1), p.d(j, 0), p.d(j, 1)); }, 1e-12L, sc * 1e-14L); }
static void great(Src& s, Case& c) {
    Pts p = genPts(s, c, true); CRSDistance d(true); if (s.boolean()) { d.setGeographic(false); d.setGeographic(true); } require(d.geographic(), "geographic flag"); d.makeParameter({p.f, p.d});
    for (size_t i = 0; i < p.f.n_rows; i++) { vec v = d.distance(i); require(v.n_elem == p.d.n_rows, "one distance per data point expected");
        for (size_t j = 0; j < p.d.n_rows; j++) { R h = haversine(p.f(i, 0), p.f(i, 1), p.d(j, 0), p.d(j, 1)); if (h > 19000) { c.label("near-antipodal"); continue; }
            closeTo("great-circle distance vs haversine, (" + num(p.f(i, 0)) + "," + num(p.f(i, 1)) + ")-(" + num(p.d(j, 0)) + "," + num(p.d(j, 1)) + ")", v(j), h, 0.006L, 2e-3L);
            R g = ref::greatCircle(p.f(i, 0), p.f(i, 1), p.d(j, 0), p.d(j, 1)); if (h > 0.01L && h < 18500) closeTo("great-circle distance on the WGS84 ellipsoid", v(j), g, 1e-6L, 1e-6L); } }
    double mx = 0, mn = 1e300; for (size_t i = 0; i < p.f.n_rows; i++) { vec v = d.distance(i); mx = std::max(mx, v.max()); mn = std::min(mn, v.min()); }
    if (std::isfinite(mx)) { closeTo("maxDistance", d.maxDistance(), mx, 1e-12L); closeTo("minDistance", d.minDistance(), mn, 1e-12L); }
}
static void minkowski(Src& s, Case& c) {
    static const double P[] = {2, 1, -1, 1.5, 3, 4, 2.5, 7}; double q = P[s.below(8)], th = s.chance(60) ? s.real(-3.1, 3.1) : 0; Pts p = genPts(s, c, false); c.desc << " p=" << q << " theta=" << th; c.label("p=" + num(q)); if (th != 0) c.label("rotated");
    std::unique_ptr<MinkwoskiDistance> d; if (s.boolean()) d.reset(new MinkwoskiDistance(q, th)); else { d.reset(new MinkwoskiDistance()); d->setPoly(q); d->setTheta(th); }
    require(d->poly() == q && d->theta() == th, "parameters read back"); d->makeParameter({p.f, p.d}); R sc = std::max(arma::abs(p.f).max(), arma::abs(p.d).max());
    checkAll(*d, p, [&](size_t i, size_t j) { return mink(p.f(i, 0), p.f(i, 1), p.d(j, 0), p.d(j, 1), q, th); }, 1e-9L, sc * 1e-11L);
}
static void oneDim(Src& s, Case& c) {
    int nf = s.range(1, 30), nd = s.range(1, 30); uint32_t seed = s.seed(); Rng r(seed); vec f(nf), g(nd); bool ints = s.boolean(); for (auto& v : f) v = ints ? (double)r.below(7) - 3 : r.real(-100, 100); for (auto& v : g) v = ints ? (double)r.below(7) - 3 : r.real(-100, 100);
    c.desc << nf << "x" << nd << " seed=" << seed << " ints=" << ints; c.interesting(nf > 1 && nd > 1); OneDimDistance d; d.makeParameter({f, g}); double mx = 0, mn = 1e300;
    for (int i = 0; i < nf; i++) { vec v = d.distance(i), u = d.noAbsdistance(i); require(v.n_elem == (size_t)nd && u.n_elem == (size_t)nd, "length"); for (int j = 0; j < nd; j++) { closeTo("1-d distance", v(j), std::fabs(f(i) - g(j)), 1e-14L); closeTo("signed 1-d distance", u(j), f(i) - g(j), 1e-14L); mx = std::max(mx, v(j)); mn = std::min(mn, v(j)); } }
    closeTo("maxDistance", d.maxDistance(), mx, 1e-14L); closeTo("minDistance", d.minDistance(), mn, 1e-14L); require(throws([&] { d.distance(nf); }), "out-of-range focus accepted"); require(throws([&] { d.noAbsdistance(nf); }), "out-of-range focus accepted (signed)");
}
static void spaceTime(Src& s, Case& c) {
    int n = s.range(2, 30); uint32_t seed = s.seed(); Rng r(seed); mat xy = makeCoords(seed, n, s.range(0, 5), s.boolean() ? 1000 : 1); vec t(n); bool ties = s.boolean(); for (auto& v : t) v = ties ? (double)r.below(5) : r.real(0, 20);
    int lk = s.range(0, 3); double lam = lk == 0 ? 0 : lk == 1 ? 1 : s.real(0.01, 0.99); bool oblique = s.boolean(); double ang = oblique ? s.real(0.05, 1.5) : arma::datum::pi / 2; bool geo = s.chance(15); if (geo) xy = makeLonLat(seed, n, 0);
    bool sets = s.chance(30); c.desc << "n=" << n << " seed=" << seed << " lambda=" << lam << " angle=" << ang << (geo ? " lonlat" : ""); c.label(oblique ? "oblique" : "orthogonal"); c.label(lk == 0 ? "lambda0" : lk == 1 ? "lambda1" : "mixed"); c.interesting(n > 2);
    CRSDistance sd(geo); OneDimDistance td; std::unique_ptr<CRSSTDistance> d; double l0 = sets ? 0.5 : lam;
    if (oblique || s.boolean()) d.reset(new CRSSTDistance(&sd, &td, l0, ang)); else d.reset(new CRSSTDistance(&sd, &td, l0)); if (sets) d->setLambda(lam);
    d->makeParameter({xy, xy, t, t}); R mx = 0, mn = 1e300L;
    for (int i = 0; i < n; i++) { vec v = d->distance(i); require(v.n_elem == (size_t)n, "length");
        for (int j = 0; j < n; j++) { R sp = geo ? ref::greatCircle(xy(i, 0), xy(i, 1), xy(j, 0), xy(j, 1)) : ref::euclid(xy(i, 0), xy(i, 1), xy(j, 0), xy(j, 1)), tt = (R)t(i) - (R)t(j), w;
            if (lam == 1) w = sp; else if (tt < 0) w = 1e13L; else { w = lam * sp + (1 - (R)lam) * tt + 2 * std::sqrt((R)lam * (1 - (R)lam) * sp * tt) * (oblique ? std::cos((R)ang) : 1); }
            closeTo("space-time distance " + std::to_string(i) + "->" + std::to_string(j), v(j), w, 1e-7L, 1e-7L); mx = std::max(mx, w); mn = std::min(mn, w); } }
    closeTo("maxDistance", d->maxDistance(), mx, 1e-7L, 1e-7L); closeTo("minDistance", d->minDistance(), mn, 1e-7L, 1e-7L);
    require(throws([&] { d->distance(n); }), "out-of-range focus accepted"); require(throws([&] { d->setLambda(1.0 + 1e-9 + s.real(0, 1)); }), "lambda above 1 accepted"); require(throws([&] { d->setLambda(-1e-9 - s.real(0, 1)); }), "lambda below 0 accepted");
    vec v = d->distance(0); R sp = geo ? ref::greatCircle(xy(0, 0), xy(0, 1), xy(0, 0), xy(0, 1)) : 0; (void)sp; closeTo("distance to itself", v(0), 0, 0, 1e-9L);
}
static void axioms(Src& s, Case& c) {
    int kind = s.range(0, 3); Pts p = genPts(s, c, kind == 1); p.f = p.d; size_t n = p.d.n_rows; std::unique_ptr<Distance> d; double q = s.boolean() ? 1 : s.boolean() ? -1 : s.real(1, 6), th = s.real(-3, 3); static const char* N[] = {"euclid", "great-circle", "minkowski", "1-d"};
    c.desc << " axioms of " << N[kind] << " p=" << q << " theta=" << th; c.label(N[kind]);
    if (kind == 0) d.reset(new CRSDistance(false)); else if (kind == 1) d.reset(new CRSDistance(true)); else if (kind == 2) d.reset(new MinkwoskiDistance(q, th)); else d.reset(new OneDimDistance());
    if (kind == 3) d->makeParameter({vec(p.d.col(0)), vec(p.d.col(0))}); else d->makeParameter({p.d, p.d});
    mat D(n, n); for (size_t i = 0; i < n; i++) D.row(i) = d->distance(i).t(); if (!D.is_finite()) throw Discard(); double sc = std::max(D.max(), arma::abs(p.d).max() * 1e-3), tol = 1e-9 * sc;
    for (size_t i = 0; i < n; i++) { require(D(i, i) == 0 || std::fabs(D(i, i)) <= tol * 1e-3, "distance of a point to itself"); for (size_t j = 0; j < n; j++) { closeTo("symmetry", D(i, j), D(j, i), 1e-9L, tol); if (kind == 0 && (p.d(i, 0) != p.d(j, 0) || p.d(i, 1) != p.d(j, 1))) require(D(i, j) > 0, "distinct points at distance zero"); } }
    if (kind != 1) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k += 2) require(D(i, j) <= D(i, k) + D(k, j) + tol, "triangle inequality");
    if (kind == 0) { // rigid motion leaves distances unchanged
        double a = s.real(-3, 3), tx = s.real(-10, 10), ty = s.real(-10, 10); mat m = MinkwoskiDistance::CoordinateRotate(p.d, a); m.col(0) += tx; m.col(1) += ty; CRSDistance e(false); e.makeParameter({m, m}); for (size_t i = 0; i < n; i++) { vec v = e.distance(i); for (size_t j = 0; j < n; j++) closeTo("rigid motion", v(j), D(i, j), 1e-9L, tol); } }
}
// wrong parameters are rejected and leave the object unusable rather than answering for old points
static void rejects(Src& s, Case& c) {
    int kind = s.range(0, 3); Pts p = genPts(s, c, false); mat bad(p.d.n_rows, s.boolean() ? 1 : 3, arma::fill::ones); bool first = s.boolean(), before = s.boolean(), count = s.chance(30); vec t(p.d.n_rows, arma::fill::zeros), t2(p.d.n_rows + 1, arma::fill::zeros); c.desc << " reject kind=" << kind << " count=" << count << " configured before=" << before; c.interesting();
    std::unique_ptr<Distance> d; CRSDistance sd(false); OneDimDistance td;
    if (kind == 0) d.reset(new CRSDistance(s.boolean())); else if (kind == 1) d.reset(new MinkwoskiDistance(1.5, 0.3)); else if (kind == 2) d.reset(new OneDimDistance()); else d.reset(new CRSSTDistance(&sd, &td, 0.5));
    require(throws([&] { d->distance(0); }) || kind == 3, "distance without points answered"); require(throws([&] { d->maxDistance(); }) && throws([&] { d->minDistance(); }), "extreme distance without points answered");
    if (kind == 3) require(throws([&] { d->distance(0); }), "space-time distance without points answered");
    if (before) { if (kind < 2) d->makeParameter({p.d, p.d}); else if (kind == 2) d->makeParameter({t, t}); else d->makeParameter({p.d, p.d, t, t}); }
    bool rej; if (kind < 2) rej = throws([&] { if (count) d->makeParameter({p.d}); else if (first) d->makeParameter({bad, p.d}); else d->makeParameter({p.d, bad}); });
    else if (kind == 2) rej = throws([&] { d->makeParameter({t}); }); else rej = throws([&] { if (count) d->makeParameter({p.d, p.d}); else if (first) d->makeParameter({p.d, p.d, t, t2}); else d->makeParameter({p.d, p.d, t2, t}); });
    require(rej, "unusable distance parameters were accepted"); if (kind < 3) require(throws([&] { d->distance(0); }), "after rejected parameters the old points still answer"); require(throws([&] { d->maxDistance(); }), "after rejected parameters the old extremes still answer");
}
int main(int argc, char** argv) {
    pbt::add("euclidean", 4000, 60000, euclid);
    pbt::add("great-circle", 6000, 100000, great);
    pbt::add("minkowski", 6000, 100000, minkowski);
    pbt::add("one-dimensional", 3000, 40000, oneDim);
    pbt::add("space-time", 5000, 80000, spaceTime);
    pbt::add("metric-axioms", 4000, 60000, axioms);
    pbt::add("rejected-parameters", 2000, 20000, rejects);
    return pbt::mainImpl(argc, argv);
}
