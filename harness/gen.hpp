// Generators shared by the property files.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <armadillo>
#include <atomic>
#include <mutex>
#include <sstream>
#include <memory>
#include "gwmodelpp/spatialweight/CRSDistance.h"
#include "gwmodelpp/spatialweight/BandwidthWeight.h"
#include "gwmodelpp/spatialweight/SpatialWeight.h"
#include "gwmodelpp/Logger.h"
#include "gwmodelpp/IParallelizable.h"

namespace gen {
using arma::mat; using arma::vec; using arma::uword;
using pbt::Src; using pbt::Case; using pbt::Rng; using pbt::Fail; using pbt::Discard;

// ---- comparison helpers -----------------------------------------------------------------------
inline std::string num(long double v) { std::ostringstream o; o.precision(12); o << (double)v; return o.str(); }
inline void closeTo(const std::string& what, long double got, long double want, long double rel, long double abs_ = 0) {
    if (std::isnan((double)got) || std::isnan((double)want)) throw Fail(what + ": got " + num(got) + ", expected " + num(want));
    long double tol = abs_ + rel * std::max(std::fabs(got), std::fabs(want));
    if (!(std::fabs(got - want) <= tol)) throw Fail(what + ": got " + num(got) + ", expected " + num(want) + " (tolerance " + num(tol) + ")");
}
inline long double maxabs(const ref::M& m) { long double v = 0; for (auto x : m.a) v = std::max(v, std::fabs(x)); return v; }
inline void matClose(const std::string& what, const mat& got, const ref::M& want, long double rel, long double floor_ = 0) {
    if (got.n_rows != want.r || got.n_cols != want.c) throw Fail(what + ": shape " + std::to_string(got.n_rows) + "x" + std::to_string(got.n_cols) + ", expected " + std::to_string(want.r) + "x" + std::to_string(want.c));
    // column-wise scale
    for (size_t j = 0; j < want.c; j++) {
        long double s = floor_; for (size_t i = 0; i < want.r; i++) s = std::max(s, std::fabs(want(i, j)));
        for (size_t i = 0; i < want.r; i++) { double g = got.at(i, j); if (!(std::fabs(g - want(i, j)) <= rel * s + 1e-300L)) throw Fail(what + "(" + std::to_string(i) + "," + std::to_string(j) + "): got " + num(g) + ", expected " + num(want(i, j)) + " (column scale " + num(s) + ", rel tol " + num(rel) + ")"); }
    }
}
inline void matClose(const std::string& what, const mat& got, const mat& want, long double rel, long double floor_ = 0) { matClose(what, got, ref::M::from(want), rel, floor_); }
inline ref::M col(const ref::V& v) { ref::M m(v.size(), 1); for (size_t i = 0; i < v.size(); i++) m(i, 0) = v[i]; return m; }
inline void require(bool b, const std::string& m) { if (!b) throw Fail(m); }
template <class T> bool throws(T f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// ---- spatial layouts --------------------------------------------------------------------------
static const char* LAYOUTS[] = {"uniform", "grid", "clusters", "line", "offset", "duplicates"};
struct Coords { mat xy; int layout; };
// layout kinds whose distances have ties: grid, duplicates. Row i only depends on (seed, i, kind).
inline mat makeCoords(uint32_t seed, int n, int layout, double scale) {
    Rng r(seed ^ 0xabcdef); mat c(n, 2);
    mat centers(4, 2); for (int i = 0; i < 4; i++) { centers(i, 0) = r.unit(); centers(i, 1) = r.unit(); }
    int side = (int)std::ceil(std::sqrt((double)n));
    for (int i = 0; i < n; i++) {
        double u = r.unit(), v = r.unit(), g = r.normal(), h = r.normal(); uint64_t k = r.below(4), q = r.below(5);
        switch (layout) {
        case 1: c(i, 0) = (double)(i % side) / side; c(i, 1) = (double)(i / side) / side; break;
        case 2: c(i, 0) = centers(k, 0) + 0.07 * g; c(i, 1) = centers(k, 1) + 0.07 * h; break;
        case 3: c(i, 0) = u; c(i, 1) = 2 * u + 0.25; break;
        case 4: c(i, 0) = 531 + u; c(i, 1) = 179 + v; break;
        case 5: if (i > 0 && q == 0) { uint64_t t = (uint64_t)(v * i); c.row(i) = c.row(t); } else { c(i, 0) = u; c(i, 1) = v; } break;
        default: c(i, 0) = u; c(i, 1) = v;
        }
    }
    return c * scale;
}
inline mat makeLonLat(uint32_t seed, int n, int span) { // span 0: city-sized, 1: continental, 2: global (no poles)
    Rng r(seed ^ 0x51515); mat c(n, 2); double lo0 = r.real(-120, 120), la0 = r.real(-60, 60);
    for (int i = 0; i < n; i++) {
        double u = r.unit(), v = r.unit();
        if (span == 0) { c(i, 0) = lo0 + 0.5 * (u - .5); c(i, 1) = la0 + 0.5 * (v - .5); }
        else if (span == 1) { c(i, 0) = lo0 + 30 * (u - .5); c(i, 1) = la0 + 20 * (v - .5); }
        else { c(i, 0) = -179 + 358 * u; c(i, 1) = -80 + 160 * v; }
    }
    return c;
}

struct Data {
    int n, k; uint32_t seed; int layout; double scale; bool geo = false; mat coords, x; vec y;
    ref::M X; ref::V Y; std::vector<ref::V> D; // distances to all data points from each data point
};
// x: column 0 intercept, others continuous with different scale/offset; y: spatially varying + noise.
inline void fillXY(Data& d, double offset, double noise) {
    Rng r(d.seed ^ 0x777); d.x = mat(d.n, d.k); d.y = vec(d.n);
    mat c = d.coords; arma::rowvec lo = arma::min(c, 0), hi = arma::max(c, 0);
    std::vector<double> sc(d.k), b(d.k), g(d.k); for (int j = 0; j < d.k; j++) { sc[j] = std::exp(r.real(-1.0, 1.0)); b[j] = r.real(-3, 3); g[j] = r.real(-2, 2); }
    for (int i = 0; i < d.n; i++) {
        double u = hi(0) > lo(0) ? (c(i, 0) - lo(0)) / (hi(0) - lo(0)) : 0, v = hi(1) > lo(1) ? (c(i, 1) - lo(1)) / (hi(1) - lo(1)) : 0;
        double yy = 0; for (int j = 0; j < d.k; j++) { double z = r.normal(); d.x(i, j) = j == 0 ? 1.0 : sc[j] * (z + offset); yy += (b[j] + g[j] * (j % 2 ? u : v)) * d.x(i, j); }
        d.y(i) = yy + noise * r.normal();
    }
    d.X = ref::M::from(d.x); d.Y = ref::vfrom(d.y);
}
inline void fillDist(Data& d, const mat& from) {
    d.D.clear();
    for (size_t i = 0; i < from.n_rows; i++) { ref::V v(d.n); for (int j = 0; j < d.n; j++) v[j] = d.geo ? ref::greatCircle(from(i, 0), from(i, 1), d.coords(j, 0), d.coords(j, 1)) : ref::euclid(from(i, 0), from(i, 1), d.coords(j, 0), d.coords(j, 1)); d.D.push_back(v); }
}
inline Data genData(Src& s, Case& c, int nlo, int nhi, int klo, int khi, bool allowGeo = true, std::vector<int> layouts = {0, 1, 2, 3, 4, 5}) {
    Data d; d.n = s.range(nlo, nhi); d.k = s.range(klo, khi); d.layout = layouts[s.below(layouts.size())]; d.seed = s.seed();
    static const double SC[] = {1, 1000, 1e5}; d.scale = SC[s.below(3)]; d.geo = allowGeo && s.chance(20);
    double off = s.chance(30) ? 4.0 : 0.0, noise = s.chance(30) ? 2.0 : 0.5;
    int span = d.geo ? s.range(0, 1) : 0;
    d.coords = d.geo ? makeLonLat(d.seed, d.n, span) : makeCoords(d.seed, d.n, d.layout, d.scale);
    fillXY(d, off, noise); fillDist(d, d.coords);
    c.desc << "n=" << d.n << " k=" << d.k << (d.geo ? " lonlat" : std::string(" ") + LAYOUTS[d.layout]) << " scale=" << d.scale << " dataseed=" << d.seed << " offset=" << off << " noise=" << noise;
    c.label(d.geo ? "geo" : LAYOUTS[d.layout]);
    return d;
}
inline double maxDist(const Data& d) { long double m = 0; for (auto& v : d.D) for (auto x : v) m = std::max(m, x); return (double)m; }

struct Bw { double bw; bool adaptive; gwm::BandwidthWeight::KernelFunctionType kernel; };
static const char* KN[] = {"gaussian", "exponential", "bisquare", "tricube", "boxcar"};
inline Bw genBw(Src& s, Case& c, const Data& d, bool integerAdaptive = false) {
    Bw b; b.kernel = (gwm::BandwidthWeight::KernelFunctionType)s.below(5); b.adaptive = s.boolean();
    bool compact = b.kernel >= 2;
    if (b.adaptive) {
        int lo = compact ? std::min(d.n, std::max(2 * d.k + 6, d.n / 3)) : std::min(d.n, d.k + 3);
        int hi = d.n + d.n / 2; b.bw = s.range(lo, std::max(lo, hi));
        if (!integerAdaptive && s.chance(20)) b.bw += s.real(0, 1);
    } else { double m = maxDist(d); b.bw = m * (compact ? s.real(0.45, 1.6) : s.real(0.08, 1.5)); }
    c.desc << " " << KN[b.kernel] << (b.adaptive ? " adaptive bw=" : " fixed bw=") << b.bw; c.label(KN[b.kernel]); c.label(b.adaptive ? "adaptive" : "fixed");
    return b;
}
inline std::vector<ref::V> refWeights(const std::vector<ref::V>& D, const Bw& b) { std::vector<ref::V> w; for (auto& v : D) w.push_back(ref::weights(v, b.bw, b.adaptive, b.kernel)); return w; }
inline gwm::SpatialWeight sw(const Bw& b, bool geo) { gwm::CRSDistance dist(geo); gwm::BandwidthWeight w(b.bw, b.adaptive, b.kernel); return gwm::SpatialWeight(&w, &dist); }
// A distance that lies exactly on a kernel edge makes "inside/outside" depend on rounding: compact kernels with
// discontinuous (boxcar) weights are only compared when no distance is within 1e-9 of the edge.
inline bool onEdge(const std::vector<ref::V>& D, const Bw& b) {
    if (b.kernel != gwm::BandwidthWeight::Boxcar) return false;
    for (auto& v : D) {
        ref::R e = b.adaptive ? ref::adaptiveDistance(v, b.bw) : (ref::R)b.bw; int near = 0, exact = 0;
        for (auto x : v) if (std::fabs(x - e) <= 1e-9L * std::max<ref::R>(e, 1e-30L)) { near++; if (x == e) exact++; }
        if (b.adaptive && near == 1 && exact == 1) continue; // the k-th neighbour itself: strictly excluded in any arithmetic
        if (near) return true;
    }
    return false;
}

// ---- telegrams ----------------------------------------------------------------------------------
struct Tele : gwm::ITelegram { // counts, records, optionally cancels at the k-th poll (0-based); -1 never
    struct State { std::atomic<long> polls{0}; std::atomic<long> stopAt{-1}; std::mutex m; std::vector<std::string> infos, errors; long badProgress = 0, progress = 0; std::vector<std::pair<long, long>> steps; std::vector<double> percents; std::string firstBad; std::atomic<bool> stopped{false};
        // events are the messages and progress reports a run sends; a run can also be told to stop from inside the e-th event (0-based)
        long events = 0, stopAtEvent = -1, pollsAtEvent = -1, gap = 0, maxGap = 0, afterFlag = 0, lastCur = 0, lastTot = 0; std::vector<long> pollsAt; void event() { gap++; maxGap = std::max(maxGap, gap); if (pollsAtEvent >= 0) afterFlag++; if (pollsAt.size() < 100000) pollsAt.push_back(polls.load()); if (events++ == stopAtEvent) { pollsAtEvent = polls.load(); stopAt = pollsAtEvent; } } };
    std::shared_ptr<State> st; bool record;
    Tele(std::shared_ptr<State> s, bool rec = true) : st(s), record(rec) {}
    void print(std::string msg, LogLevel lv, std::string, std::string) override { std::lock_guard<std::mutex> g(st->m); st->event(); if (!record) return; (lv == LogLevel::LOG_ERR ? st->errors : st->infos).push_back(msg); }
    void progress(std::size_t cur, std::size_t tot, std::string fn, std::string) override { std::lock_guard<std::mutex> g(st->m); st->event(); st->progress++; st->lastCur = (long)cur; st->lastTot = (long)tot; if (record) st->steps.push_back({(long)cur, (long)tot}); if (cur > tot) { st->badProgress++; if (st->firstBad.empty()) st->firstBad = fn + " " + std::to_string(cur) + "/" + std::to_string(tot); } }
    void progress(double p, std::string, std::string) override { std::lock_guard<std::mutex> g(st->m); st->event(); st->progress++; if (record) st->percents.push_back(p); }
    bool stop() override { { std::lock_guard<std::mutex> g(st->m); st->gap = 0; } long k = st->polls.fetch_add(1); long at = st->stopAt.load(); if (at >= 0 && k >= at) { st->stopped = true; return true; } return false; }
};
} // namespace gen
