// C04: bandwidth selection.
#include "models.hpp"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/GWRBasic.h"
using namespace gen; using namespace gwm;
const char* pbt::RULE = "the search evaluated at least 4 distinct bandwidths";

struct Crit : IBandwidthSelectable {
    int kind; double lo, hi, m, a; uint32_t seed; long calls = 0, stopAt = -1; std::vector<std::pair<double, double>> seen; bool paramsOk = true; bool adaptive; int kernel; double cutLo = 0, cutHi = 0;
    double f(double x) const {
        double r = hi - lo, u = (x - lo) / r, v = (m - lo) / r; 
        if (cutLo > 0 && u < cutLo) return DBL_MAX; if (cutHi > 0 && u > 1 - cutHi) return DBL_MAX;
        switch (kind) {
        case 0: return a * (u - v) * (u - v);                                   // smooth
        case 1: return a * std::fabs(u - v);                                    // kink
        case 2: return u < v ? a * (v - u) * 3 : a * (u - v) * 0.4;              // asymmetric
        case 3: return a * u; case 4: return -a * u;                            // optimum at a bound
        case 5: { uint64_t h = pbt::fnv(&x, 8, seed); return a * (double)(pbt::splitmix(h) >> 11) / 9007199254740992.0; }  // noise
        case 6: return a * (std::sin(9 * u + v * 7) + u);                       // multimodal
        default: return a; }
    }
    Status getCriterion(BandwidthWeight* w, double& c) override { if (w->adaptive() != adaptive || (int)w->kernel() != kernel) paramsOk = false; long k = calls++; c = f(w->bandwidth()); if (stopAt >= 0 && k >= stopAt) { c = DBL_MAX; return Status::Terminated; } seen.push_back({w->bandwidth(), c}); return Status::Success; }
};
static void search(Src& s, Case& c) {
    Crit q; q.kind = s.range(0, 7); q.adaptive = s.boolean(); q.kernel = s.range(0, 4); q.seed = s.seed(); static const double A[] = {1000, 1, 1e7, 1e-2}; q.a = A[s.below(4)];
    if (q.adaptive) { q.lo = s.range(2, 60); q.hi = q.lo + s.range(1, 3000); } else { q.lo = s.chance(50) ? 0 : s.real(0, 1000); static const double W[] = {1, 1000, 1e6}; q.hi = q.lo + W[s.below(3)] * s.real(0.1, 1); }
    q.m = q.lo + (q.hi - q.lo) * s.real(0, 1); if (s.chance(20)) q.cutLo = s.real(0.01, 0.7); if (s.chance(10)) q.cutHi = s.real(0.01, 0.7);
    bool cancel = s.chance(15); if (cancel) q.stopAt = s.range(0, 20);
    c.desc << (q.adaptive ? "adaptive" : "fixed") << " [" << q.lo << "," << q.hi << "] kind=" << q.kind << " scale=" << q.a << " optimum=" << q.m << " rejected below " << q.cutLo << " above 1-" << q.cutHi << " cancelAt=" << q.stopAt;
    BandwidthWeight w0(123.5, q.adaptive, (BandwidthWeight::KernelFunctionType)q.kernel); BandwidthSelector sel(&w0, q.lo, q.hi); if (s.boolean()) { sel = BandwidthSelector(); sel.setBandwidth(&w0); sel.setLower(q.lo); sel.setUpper(q.hi); }
    require(sel.lower() == q.lo && sel.upper() == q.hi && sel.bandwidth() == &w0, "search range read back");
    BandwidthWeight* r = nullptr; std::string err; try { r = sel.optimize(&q); } catch (const std::exception& e) { err = e.what(); }
    require(w0.bandwidth() == 123.5 && w0.adaptive() == q.adaptive && (int)w0.kernel() == q.kernel, "the starting weight was modified"); require(q.paramsOk, "a candidate with another kernel or bandwidth type was evaluated");
    std::set<double> distinct; double best = DBL_MAX, bestX = 0; for (auto& p : q.seen) { distinct.insert(p.first); if (p.second < best) { best = p.second; bestX = p.first; } } (void)bestX;
    for (auto& p : q.seen) { double eps = q.adaptive ? 0 : 1e-9 * (q.hi + 1); require(p.first >= q.lo - eps && p.first <= q.hi + eps, "bandwidth " + num(p.first) + " outside the search range was evaluated"); if (q.adaptive) require(p.first == std::floor(p.first), "a fractional number of neighbours " + num(p.first) + " was evaluated"); }
    require(q.calls <= 200, "the search does not terminate within 200 evaluations"); c.interesting(distinct.size() >= 4);
    if (q.stopAt >= 0 && q.calls > q.stopAt) { c.label("cancelled"); require(err.empty() && r == &w0, "a cancelled search must hand back the starting bandwidth"); require(q.calls <= q.stopAt + 2, "the search went on after it was cancelled"); return; }
    bool firstTwoRejected = q.seen.size() >= 2 && q.seen[0].second == DBL_MAX && q.seen[1].second == DBL_MAX;
    if (firstTwoRejected) { c.label("no-valid-start"); require(!err.empty(), "no initial candidate was acceptable, yet the search returned a bandwidth"); return; }
    require(err.empty(), "search failed: " + err); require(r && r != &w0, "no bandwidth returned"); std::unique_ptr<BandwidthWeight> own(r);
    require(r->adaptive() == q.adaptive && (int)r->kernel() == q.kernel, "the selected weight has another kernel or bandwidth type");
    require(q.f(r->bandwidth()) == best, "returned bandwidth " + num(r->bandwidth()) + " has criterion " + num(q.f(r->bandwidth())) + " but " + num(bestX) + " with " + num(best) + " was evaluated");
    // criterion list: exactly the accepted evaluations, ascending
    auto list = sel.bandwidthCriterion(); std::map<double, double> want; for (auto& p : q.seen) if (p.second < DBL_MAX) want[p.first] = p.second; require(list.size() == want.size(), "criterion list has " + std::to_string(list.size()) + " entries, " + std::to_string(want.size()) + " accepted bandwidths were evaluated");
    size_t k = 0; for (auto& p : want) { require(list[k].first == p.first && list[k].second == p.second, "criterion list entry " + std::to_string(k)); k++; }
    // convergence on unimodal criteria
    if (q.kind <= 4 && q.cutLo == 0 && q.cutHi == 0) {
        double m = q.kind == 3 ? q.lo : q.kind == 4 ? q.hi : q.m; std::vector<double> v; for (auto& p : want) v.push_back(p.second); std::sort(v.begin(), v.end());
        bool flat = v.size() >= 2 && v[1] - v[0] <= 1e-4; c.label(flat ? "stopped-flat" : "converged");
        double tol = q.adaptive ? 6 + 0.01 * (q.hi - q.lo) : 3e-4 + 1e-9 * q.hi;
        if (!flat) require(std::fabs(r->bandwidth() - m) <= tol, "search stopped at " + num(r->bandwidth()) + " although the criterion's only minimum is at " + num(m) + " and better bandwidths are still distinguishable");
        // the minimum is bracketed by the evaluated neighbours of the result
        auto it = want.find(r->bandwidth()); double L = it == want.begin() ? q.lo : std::prev(it)->first, U = std::next(it) == want.end() ? q.hi : std::next(it)->first; double e2 = q.adaptive ? tol : 1e-9 * (q.hi + 1); require(m >= L - e2 && m <= U + e2, "the minimum " + num(m) + " is not between the evaluated neighbours " + num(L) + " and " + num(U) + " of the result");
    }
}
// End to end: automatic selection in a model.
static void inModel(Src& s, Case& c) {
    Data d = genData(s, c, 24, 60, 1, 4, true, {0, 2, 4}); Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(5); b.adaptive = s.boolean(); b.bw = b.adaptive ? 30 : maxDist(d); bool cv = s.boolean(), omp = s.boolean(), bounds = s.chance(40); int th = s.range(1, 6);
    c.desc << " " << KN[b.kernel] << (b.adaptive ? " adaptive" : " fixed") << (cv ? " CV" : " AIC") << (omp ? " omp" : " serial"); double mx = maxDist(d), lo = b.adaptive ? 20 : 0, hi = b.adaptive ? d.n : mx; 
    GWRBasic a(d.x, d.y, d.coords, sw(b, d.geo)); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC); if (omp) { a.setParallelType(OpenMP); a.setOmpThreadNum(th); }
    if (bounds) { lo = b.adaptive ? s.range(d.k + 5, 16) : mx * 0.3; hi = b.adaptive ? d.n - s.range(0, 3) : mx * 0.9; a.setGoldenLowerBounds(lo); a.setGoldenUpperBounds(hi); c.desc << " bounds [" << lo << "," << hi << "]"; }
    mat betas; std::string err; try { betas = a.fit(); } catch (const std::exception& e) { err = e.what(); } if (!err.empty()) { c.label("failed"); throw Discard(); }
    auto list = a.bandwidthSelectionCriterionList(); auto* w = a.spatialWeight().weight<BandwidthWeight>(); require(!list.empty(), "no criterion list"); c.interesting(list.size() >= 4);
    require(w->kernel() == b.kernel && w->adaptive() == b.adaptive, "kernel or bandwidth type changed by the selection"); require(w->bandwidth() >= lo - 1e-9 * mx && w->bandwidth() <= hi + 1e-9 * mx, "selected bandwidth " + num(w->bandwidth()) + " outside [" + num(lo) + "," + num(hi) + "]"); if (b.adaptive) require(w->bandwidth() == std::floor(w->bandwidth()), "fractional adaptive bandwidth");
    double best = DBL_MAX, own = DBL_MAX; for (auto& p : list) { best = std::min(best, p.second); if (p.first == w->bandwidth()) own = p.second; require(p.first >= lo - 1e-9 * mx && p.first <= hi + 1e-9 * mx, "listed bandwidth outside the range"); }
    require(own == best, "the selected bandwidth " + num(w->bandwidth()) + " does not have the smallest listed criterion");
    for (size_t i = 1; i < list.size(); i++) require(list[i - 1].first < list[i].first, "criterion list is not ascending");
    // every listed value is the reference criterion of that bandwidth
    for (size_t i = 0; i < list.size(); i += 1 + list.size() / 4) { Bw t = b; t.bw = list[i].first; if (onEdge(d.D, t)) continue; ref::GwrFit g = ref::gwr(d.X, d.Y, refWeights(d.D, t), cv); if (!g.ok || g.maxCond > 1e8L) continue; if (!cv && std::fabs((double)(d.n - 2 - g.trS)) < 0.5) continue;
        long double tol = 1e-6L + g.maxCond * 1e-12L; if (cv) closeTo("CV of bandwidth " + num(t.bw), list[i].second, g.rss, tol * (1 + g.tss / std::max(g.rss, 1e-300L))); else if (g.rss > 1e-8L * g.tss) closeTo("AICc of bandwidth " + num(t.bw), list[i].second, g.aicc, tol * 100, d.n * tol * (10 + g.tss / g.rss)); c.label("criterion-compared"); }
    Bw t = b; t.bw = w->bandwidth(); GWRBasic e(d.x, d.y, d.coords, sw(t, d.geo)); matClose("coefficients after selection equal those of the selected bandwidth", betas, e.fit(), 1e-7L);
}
// No two criteria so close that rounding decides which way the search goes.
static bool selStable(const BandwidthCriterionList& l) { for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) { double g = std::fabs(l[i].second - l[j].second); if (g < 1e-9 * (1 + std::fabs(l[i].second)) || std::fabs(g - 1e-4) < 1e-9 * (1 + std::fabs(l[i].second))) return false; } return true; }
// The other models with one bandwidth: the search they run is the one their settings ask for.
static void inOtherModels(Src& s, Case& c) {
    using namespace models; static const int pick[] = {ROBUST, ROBUST, LCR, POISSON, BINOMIAL, BASIC}; int alg = pick[s.below(6)]; GenOpt g; g.nlo = 24; g.nhi = 44; Cfg f = genCfg(s, c, alg, g); f.autoBw = true; f.autoVar = false; f.threads = 0; bool bounds = (alg == ROBUST || alg == BASIC) && s.chance(50); double mx = maxDist(f.d), lo = f.b.adaptive ? 20 : 0, hi = f.b.adaptive ? f.d.n : mx; if (f.b.adaptive && f.d.n < 22) throw Discard();
    if (bounds) { lo = f.b.adaptive ? s.range(f.d.k + 5, 16) : mx * 0.3; hi = f.b.adaptive ? f.d.n - s.range(0, 3) : mx * 0.9; c.desc << " bounds [" << lo << "," << hi << "]"; }
    BandwidthCriterionList list; BandwidthWeight got(1, false, BandwidthWeight::Gaussian); mat betas; std::string err;
    auto drive = [&](auto& a) { conf(a, f); if constexpr (std::is_base_of_v<GWRBasic, std::decay_t<decltype(a)>>) if (bounds) { a.setGoldenLowerBounds(lo); a.setGoldenUpperBounds(hi); } try { betas = a.fit(); } catch (const std::exception& e) { err = e.what(); return; } if constexpr (!std::is_same_v<GWRGeneralized, std::decay_t<decltype(a)>>) list = a.bandwidthSelectionCriterionList(); got = *a.spatialWeight().template weight<BandwidthWeight>(); };
    switch (alg) { case ROBUST: { GWRRobust a; drive(a); break; } case BASIC: { GWRBasic a; drive(a); break; } case LCR: { GWRLocalCollinearity a; drive(a); break; } default: { GWRGeneralized a; drive(a); } }
    if (!err.empty()) { c.label("failed"); throw Discard(); }
    // the same search over the criterion of an object of its own
    BandwidthCriterionList own2; double again = NAN; auto redo = [&](auto& a) { Cfg e = f; e.autoBw = false; conf(a, e); try { a.fit(); } catch (const std::exception&) { throw Discard(); } BandwidthWeight w0(f.b.bw, f.b.adaptive, f.b.kernel); double top = bounds || f.b.adaptive ? hi : a.spatialWeight().distance()->maxDistance(); BandwidthSelector sel(&w0, lo, top); std::unique_ptr<BandwidthWeight> r(sel.optimize(&a)); again = r->bandwidth(); own2 = sel.bandwidthCriterion(); };
    switch (alg) { case ROBUST: { GWRRobust a; redo(a); break; } case BASIC: { GWRBasic a; redo(a); break; } case LCR: { GWRLocalCollinearity a; redo(a); break; } default: { GWRGeneralized a; redo(a); list = own2; } }
    require(again == got.bandwidth() || (std::fabs(again - got.bandwidth()) <= 1e-8 * std::fabs(again) && selStable(own2)), "bandwidth " + num(got.bandwidth()) + " was selected, a search over the model's own criterion finds " + num(again)); require(list.size() == own2.size() , "the reported list has " + std::to_string(list.size()) + " bandwidths, a search over the model's own criterion " + std::to_string(own2.size()));
    require(!list.empty(), "no criterion list"); c.interesting(list.size() >= 4); double w = got.bandwidth();
    require(got.kernel() == f.b.kernel && got.adaptive() == f.b.adaptive, "kernel or bandwidth type changed by the selection"); if (f.b.adaptive) require(w == std::floor(w), "fractional adaptive bandwidth"); double best = DBL_MAX, own = DBL_MAX;
    for (size_t i = 0; i < list.size(); i++) { auto& p = list[i]; best = std::min(best, p.second); if (std::fabs(p.first - w) <= 1e-9 * w) own = std::min(own, p.second); require(p.first >= lo - 1e-9 * mx && p.first <= hi + 1e-9 * mx, "bandwidth " + num(p.first) + " was tried, outside [" + num(lo) + "," + num(hi) + "]"); require(i == 0 || list[i - 1].first < p.first, "criterion list is not ascending"); }
    require(own == best, "the selected bandwidth " + num(w) + " does not have the smallest listed criterion"); Cfg e = f; e.autoBw = false; e.b.bw = w; auto m = make(e); m->run(); auto o = m->out(); matClose("coefficients after selection equal those of the selected bandwidth", betas, *o.find("betas"), 1e-7L);
    for (size_t i = 0; i < list.size(); i += 1 + list.size() / 5) { Bw t = f.b; t.bw = list[i].first; double v = m->criterion({t}); if (!std::isfinite(v) || v >= DBL_MAX) { require(false, "the listed bandwidth " + num(t.bw) + " has no criterion on its own"); } closeTo("criterion of the listed bandwidth " + num(t.bw), list[i].second, v, 1e-7L); c.label("criterion-compared"); }
}
int main(int argc, char** argv) {
    pbt::add("search", 20000, 600000, search);
    pbt::add("in-model", 500, 12000, inModel);
    pbt::add("in-other-models", 2500, 60000, inOtherModels);
    return pbt::mainImpl(argc, argv);
}
