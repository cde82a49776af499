// C01: kernel weights - every kernel, fixed and adaptive bandwidths, any distance vector.
#include "gen.hpp"
using namespace gen; using namespace gwm;
const char* pbt::RULE = "at least 3 distances, a positive bandwidth distance and at least one weight strictly between 0 and 1 (or, for boxcar, both 0 and 1 present)";

struct W { vec d; ref::V D; double bw; bool adaptive; int kernel; double scale; };
static W genW(Src& s, Case& c, bool needPositive = true) {
    W w; int n = s.range(1, 80); uint32_t seed = s.seed(); int kind = s.range(0, 4); static const double SC[] = {1, 1e-4, 1000, 1e7}; w.scale = SC[s.below(4)];
    Rng r(seed); w.d = vec(n);
    for (int i = 0; i < n; i++) switch (kind) {
        case 0: w.d(i) = r.unit(); break;
        case 1: w.d(i) = (double)r.below(6) / 5.0; break;                    // many ties and zeros
        case 2: w.d(i) = r.below(4) == 0 ? 0.0 : std::exp(r.real(-6, 0)); break; // wide magnitudes
        case 3: w.d(i) = i == 0 ? 0.0 : 1.0; break;                            // everything else at one distance
        default: w.d(i) = (double)(n - i) / n; }                                // exactly sorted backwards
    w.d *= w.scale; w.D = ref::vfrom(w.d);
    w.kernel = (int)s.below(5); w.adaptive = s.boolean();
    if (w.adaptive) { w.bw = s.range(1, n + n / 2 + 1); if (s.chance(40)) w.bw += s.real(0, 1); if (s.chance(4)) w.bw = s.real(0.05, 1); }
    else { double m = w.d.max(); int how = s.range(0, 3); w.bw = how == 0 ? m : how == 1 ? w.d(s.below(n)) : m * s.real(0.01, 2.5); }
    c.desc << "n=" << n << " distances kind=" << kind << " seed=" << seed << " scale=" << w.scale << " " << KN[w.kernel] << (w.adaptive ? " adaptive " : " fixed ") << "bw=" << w.bw;
    c.label(KN[w.kernel]); c.label(w.adaptive ? "adaptive" : "fixed");
    ref::R b = w.adaptive ? ref::adaptiveDistance(w.D, w.bw) : (ref::R)w.bw;
    if (needPositive && !(b > 0)) throw Discard();
    return w;
}
static void classify(Case& c, const W& w, const vec& got) { int in = 0, z = 0, o = 0; for (double v : got) { if (v > 0 && v < 1) in++; if (v == 0) z++; if (v == 1) o++; } c.interesting(w.d.n_elem >= 3 && (in > 0 || (z > 0 && o > 0))); if (z) c.label("some-zero"); if (in) c.label("some-interior"); }

static void reference(Src& s, Case& c) {
    W w = genW(s, c); BandwidthWeight bw(w.bw, w.adaptive, (BandwidthWeight::KernelFunctionType)w.kernel);
    vec got = bw.weight(w.d); classify(c, w, got);
    require(got.n_elem == w.d.n_elem, "number of weights differs from number of distances");
    ref::V want = ref::weights(w.D, w.bw, w.adaptive, w.kernel);
    for (size_t i = 0; i < want.size(); i++) closeTo("weight " + std::to_string(i) + " (distance " + num(w.D[i]) + ")", got(i), want[i], 1e-9L, 1e-12L);
    // support is decided strictly: zero beyond the bandwidth, one at distance zero
    for (size_t i = 0; i < want.size(); i++) { if (w.kernel >= 2 && want[i] == 0) require(got(i) == 0, "non-zero weight at or beyond the bandwidth"); if (w.d(i) == 0) require(got(i) == 1, "weight at distance zero is not one"); }
}
static void invariants(Src& s, Case& c) {
    W w = genW(s, c); BandwidthWeight bw(w.bw, w.adaptive, (BandwidthWeight::KernelFunctionType)w.kernel); vec d0 = w.d;
    vec got = bw.weight(w.d); classify(c, w, got);
    for (double v : got) require(v >= 0 && v <= 1, "weight outside [0,1]: " + num(v));
    for (size_t i = 0; i < got.n_elem; i++) for (size_t j = 0; j < got.n_elem; j++) if (w.d(i) <= w.d(j)) require(got(i) >= got(j) - 1e-14, "a nearer point weighs less than a farther one");
    // permuting the distances permutes the weights
    uint32_t ps = s.seed(); Rng r(ps); arma::uvec p = arma::linspace<arma::uvec>(0, w.d.n_elem - 1, w.d.n_elem); for (size_t i = p.n_elem; i > 1; i--) std::swap(p(i - 1), p(r.below(i)));
    vec gp = bw.weight(vec(w.d(p))); for (size_t i = 0; i < p.n_elem; i++) require(gp(i) == got(p(i)), "weights depend on the order of the distances");
    // a change of unit of distance leaves weights unchanged (powers of two are exact)
    double f = std::pow(2.0, s.range(-8, 8)); BandwidthWeight b2(w.adaptive ? w.bw : w.bw * f, w.adaptive, (BandwidthWeight::KernelFunctionType)w.kernel);
    vec gs = b2.weight(vec(w.d * f)); for (size_t i = 0; i < gs.n_elem; i++) closeTo("weight after change of unit", gs(i), got(i), 1e-12L, 1e-15L);
    // evaluating twice is the same, and the settings are untouched
    vec g2 = bw.weight(w.d); require(arma::approx_equal(g2, got, "absdiff", 0), "second evaluation differs");
    require(bw.bandwidth() == w.bw && bw.adaptive() == w.adaptive && (int)bw.kernel() == w.kernel, "evaluation changed the settings");
}
// A larger bandwidth never decreases a weight.
static void growsWithBandwidth(Src& s, Case& c) {
    W w = genW(s, c); double bw2 = w.adaptive ? w.bw + s.range(0, 20) + s.real(0, 1) : w.bw * (1 + s.real(0, 3)); c.desc << " vs bw=" << bw2;
    auto K = (BandwidthWeight::KernelFunctionType)w.kernel; BandwidthWeight a(w.bw, w.adaptive, K), b(bw2, w.adaptive, K);
    vec wa = a.weight(w.d), wb = b.weight(w.d); classify(c, w, wa);
    for (size_t i = 0; i < wa.n_elem; i++) require(wb(i) >= wa(i) - 1e-12, "weight decreased when the bandwidth grew, at distance " + num(w.d(i)) + ": " + num(wa(i)) + " -> " + num(wb(i)));
}
// setters are equivalent to constructing with the values
static void setters(Src& s, Case& c) {
    W w = genW(s, c), v = genW(s, c); BandwidthWeight a(v.bw, v.adaptive, (BandwidthWeight::KernelFunctionType)v.kernel); 
    int order = s.range(0, 2); auto K = (BandwidthWeight::KernelFunctionType)w.kernel;
    if (order == 0) { a.setKernel(K); a.setBandwidth(w.bw); a.setAdaptive(w.adaptive); } else if (order == 1) { a.setAdaptive(w.adaptive); a.setKernel(K); a.setBandwidth(w.bw); } else { a.setBandwidth(w.bw); a.setAdaptive(w.adaptive); a.setKernel(K); }
    BandwidthWeight cp(a); BandwidthWeight cp2(&a); std::unique_ptr<Weight> cl(a.clone());
    vec x = a.weight(w.d); classify(c, w, x); ref::V want = ref::weights(w.D, w.bw, w.adaptive, w.kernel);
    for (auto q : {x, cp.weight(w.d), cp2.weight(w.d), cl->weight(w.d)}) for (size_t i = 0; i < want.size(); i++) closeTo("weight after setters/copies", q(i), want[i], 1e-9L, 1e-12L);
}
// the weights seen by algorithms: kernel of the distances of the chosen point
static void composed(Src& s, Case& c) {
    Data d = genData(s, c, 3, 60, 1, 1); Bw b = genBw(s, c, d); if (onEdge(d.D, b)) throw Discard(); SpatialWeight w = sw(b, d.geo); w.distance()->makeParameter({d.coords, d.coords});
    for (int i = 0; i < d.n; i++) {
        if (!((b.adaptive ? ref::adaptiveDistance(d.D[i], b.bw) : (ref::R)b.bw) > 0)) continue;
        ref::V want = ref::weights(d.D[i], b.bw, b.adaptive, b.kernel); vec got = w.weightVector(i); require(got.n_elem == (size_t)d.n, "length of the weight vector"); c.interesting();
        for (int j = 0; j < d.n; j++) closeTo("weight of " + std::to_string(j) + " at " + std::to_string(i), got(j), want[j], 1e-8L, 1e-9L);
    }
}
int main(int argc, char** argv) {
    pbt::add("reference", 30000, 600000, reference);
    pbt::add("invariants", 8000, 200000, invariants);
    pbt::add("grows-with-bandwidth", 10000, 200000, growsWithBandwidth);
    pbt::add("setters-and-copies", 5000, 60000, setters);
    pbt::add("weight-vector", 2000, 30000, composed);
    return pbt::mainImpl(argc, argv);
}
