// C20: geographically weighted density regression (one kernel per coordinate) against local weighted least squares with product weights.
#include "gwrcheck.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
#ifndef PART
const char* pbt::RULE = "every local normal matrix has condition number below 1e8 (for selections: at least two candidate variables or an actual search); every output is compared with the long-double reference";
#endif
typedef std::vector<size_t> VS;
struct Pb { Data d; int dim; std::vector<Bw> b; };
static double span(const Data& d, int m) { return d.coords.col(m).max() - d.coords.col(m).min(); }
static Pb genPb(Src& s, Case& c, int nlo, int nhi, int klo, int khi, bool smooth) {
    Pb p; Data& d = p.d; d.n = s.range(nlo, nhi); d.k = s.range(klo, khi); p.dim = s.range(1, 4); d.seed = s.seed(); d.layout = 0; static const double SC[] = {1, 1000, 1e5}; d.scale = SC[s.below(3)]; int lay = s.range(0, 3); Rng r(d.seed + 21); d.coords = mat(d.n, std::max(2, p.dim)); for (int i = 0; i < d.n; i++) for (size_t j = 0; j < d.coords.n_cols; j++) { double u = r.unit(), g = r.normal(); d.coords(i, j) = d.scale * (lay == 1 ? (double)r.below(5) / 4 : lay == 2 ? 0.2 * g + (j % 2) : lay == 3 ? 100 + u : u); }
    fillXY(d, s.chance(30) ? 4 : 0, s.chance(30) ? 2 : 0.5); d.coords = mat(d.coords.cols(0, p.dim - 1)); c.desc << "n=" << d.n << " k=" << d.k << " dimensions=" << p.dim << " scale=" << d.scale << " layout=" << lay << " dataseed=" << d.seed; c.label("dimensions=" + std::to_string(p.dim));
    for (int m = 0; m < p.dim; m++) { Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(smooth ? 2 : 5); b.adaptive = s.boolean(); bool cp = b.kernel >= 2; double w = 1 - std::pow(0.4, 1.0 / p.dim) * 0.7; if (b.adaptive) b.bw = s.range(std::min(d.n, (int)(d.n * (cp ? std::max(0.55, w) : 0.3)) + d.k), d.n + 5); else b.bw = span(d, m) * (cp ? s.real(0.6, 1.6) : s.real(0.2, 1.4)); c.desc << " [" << KN[b.kernel] << (b.adaptive ? " adaptive " : " fixed ") << b.bw << "]"; p.b.push_back(b); }
    for (int m = 0; m < p.dim; m++) if (!(span(d, m) > 0)) throw Discard(); return p;
}
static std::vector<V> weights(const Pb& p, const std::vector<Bw>& bs) {
    std::vector<V> W(p.d.n, V(p.d.n, 1)); for (int m = 0; m < p.dim; m++) { std::vector<V> D(p.d.n, V(p.d.n)); for (int i = 0; i < p.d.n; i++) for (int j = 0; j < p.d.n; j++) D[i][j] = std::fabs((R)p.d.coords(i, m) - (R)p.d.coords(j, m)); if (onEdge(D, bs[m])) throw Discard(); for (int i = 0; i < p.d.n; i++) { R e = bs[m].adaptive ? ref::adaptiveDistance(D[i], bs[m].bw) : (R)bs[m].bw; if (!(e > 1e-9L * p.d.scale)) throw Discard(); V w = ref::weights(D[i], bs[m].bw, bs[m].adaptive, bs[m].kernel); for (int j = 0; j < p.d.n; j++) W[i][j] *= w[j]; } } return W;
}
static std::unique_ptr<GWDR> build(Src& s, const Pb& p, int t, bool hat, bool icpt = true) { std::vector<SpatialWeight> v; for (auto& b : p.b) v.push_back(dimWeight(b)); std::unique_ptr<GWDR> a; if (s.boolean()) a.reset(new GWDR(p.d.x, p.d.y, p.d.coords, v, hat, icpt)); else { a.reset(new GWDR()); a->setSpatialWeights(v); a->setIndependentVariables(p.d.x); a->setDependentVariable(p.d.y); a->setHasHatMatrix(hat); a->setHasIntercept(icpt); } a->setCoords(p.d.coords); if (t) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(t); } return a; }
static void fit(Src& s, Case& c) {
    Pb p = genPb(s, c, 10, 45, 1, 4, false); int t = s.range(0, 5); bool hat = !s.chance(20); c.desc << " threads=" << t << " hat=" << hat; ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, weights(p, p.b)); if (!g.ok || g.maxCond > 1e8L) throw Discard(); c.interesting(); c.label(t ? "openmp" : "serial"); auto a = build(s, p, t, hat); require(a->isValid(), "a consistent model is reported invalid"); mat r = a->fit(); require(a->status() == Status::Success, "status is not Success"); checkFit(c, *a, r, g, p.d, hat); if (s.chance(20)) { mat r2 = a->fit(); checkFit(c, *a, r2, g, p.d, hat); c.label("fitted twice"); }
    for (int m = 0; m < p.dim; m++) { auto* w = a->spatialWeights()[m].weight<BandwidthWeight>(); require(w->bandwidth() == p.b[m].bw && w->adaptive() == p.b[m].adaptive && w->kernel() == p.b[m].kernel, "bandwidth of dimension " + std::to_string(m) + " changed by the fit"); }
}
static bool critOk(const Pb& p, const ref::GwrFit& g, bool cv) { return g.ok && g.maxCond < 1e7L && (cv || (std::fabs((double)(p.d.n - 2 - g.trS)) > 0.5 && g.rss > 1e-8L * g.tss)); }
static void sameCrit(const std::string& what, double v, const Pb& p, const ref::GwrFit& g, bool cv) { R tol = 1e-6L + g.maxCond * 1e-12L, q = p.d.n - 2 - g.trS; if (cv) closeTo(what, v, g.rss, tol * (1 + g.tss / std::max(g.rss, (R)1e-300L))); else closeTo(what, v, g.aicc, tol * 100, p.d.n * tol * (10 + g.tss / g.rss) * (1 + 10 / (q * q))); }
static void criterion(Src& s, Case& c) {
    Pb p = genPb(s, c, 10, 45, 1, 4, false); int t = s.range(0, 5); bool cv = s.boolean(), before = s.boolean(); c.desc << " threads=" << t << (cv ? " CV" : " AICc"); ref::GwrFit g = ref::gwr(p.d.X, p.d.Y, weights(p, p.b), cv); if (!critOk(p, g, cv)) throw Discard(); c.interesting(); c.label(cv ? "CV" : "AICc");
    Pb o = p; for (auto& b : o.b) { b.bw = b.adaptive ? p.d.n : b.bw * 2; b.kernel = BandwidthWeight::Gaussian; } auto a = build(s, o, before ? t : 0, true); a->setBandwidthCriterionType(cv ? GWDR::CV : GWDR::AIC); if (!before && t) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(t); } a->fit(); std::vector<BandwidthWeight> w; std::vector<BandwidthWeight*> q; for (auto& b : p.b) w.emplace_back(b.bw, b.adaptive, b.kernel); for (auto& x : w) q.push_back(&x); for (int rep = 0; rep < 2; rep++) sameCrit("bandwidth criterion", a->bandwidthCriterion(q), p, g, cv);
}
// Variable selection: forward selection on the local AICc (global when bandwidths are still to be optimised), then a fit of exactly the chosen columns.
static void variables(Src& s, Case& c) {
    Pb p = genPb(s, c, 16, 40, 2, 5, false); Data& d = p.d; bool icpt = !s.chance(25), opt = s.chance(20); int t = s.range(0, 4); static const double T[] = {3, 0.5, 15, 60}; double thr = T[s.below(4)]; Rng r(d.seed + 4); int drop = s.range(0, d.k - 1); if (!icpt) for (int i = 0; i < d.n; i++) d.x(i, 0) = r.normal(); d.y.zeros(); for (int j = 0; j < d.k; j++) d.y += (j == drop ? 0.0 : r.real(-2, 2)) * d.x.col(j); for (auto& v : d.y) v += 0.7 * r.normal(); int zero = d.k - icpt >= 2 && s.chance(20) ? s.range((int)icpt, d.k - 1) : -1; if (zero >= 0) { d.x.col(zero).zeros(); c.desc << " zero column " << zero; c.label("unfittable candidate"); } d.X = M::from(d.x); d.Y = ref::vfrom(d.y); c.desc << " threshold=" << thr << " intercept=" << icpt << " threads=" << t << (opt ? " +bandwidths" : "");
    auto W = weights(p, p.b); if (opt) for (auto& w : W) w.assign(d.n, 1); bool bad = false; auto cols = [&](const VS& v) { arma::uvec u(v.size() + icpt); if (icpt) u(0) = 0; for (size_t j = 0; j < v.size(); j++) u(j + icpt) = v[j]; return u; };
    auto crit = [&](const VS& v) { if (zero >= 0 && std::count(v.begin(), v.end(), (size_t)zero)) return (R)DBL_MAX; ref::GwrFit g = ref::gwr(M::from(mat(d.x.cols(cols(v)))), d.Y, W); if (!g.ok || g.maxCond > 1e7L || g.rss < 1e-8L * g.tss || d.n - 2 - g.trS < 1) { bad = true; return (R)0; } return g.aicc; };
    VS cur, rest; for (int j = icpt; j < d.k; j++) rest.push_back(j); VS all = rest; std::vector<std::pair<VS, R>> list; auto near = [&](R a, R b) { return std::fabs(a - b) < 1e-5L * (1 + std::fabs(a)); };
    while (!rest.empty()) { std::vector<std::pair<VS, R>> st; for (auto x : rest) { VS v = cur; v.push_back(x); st.push_back({v, crit(v)}); if (bad) throw Discard(); } std::sort(st.begin(), st.end(), [](auto& a, auto& b) { return a.second > b.second; }); for (size_t i = 1; i < st.size(); i++) if (near(st[i - 1].second, st[i].second)) throw Discard(); for (auto& m : st) list.push_back(m); size_t x = st.back().first.back(); cur.push_back(x); rest.erase(std::find(rest.begin(), rest.end(), x)); }
    VS want = list.back().first; for (size_t i = list.size() - 1; i > 0; i--) { R df = list[i - 1].second - list[i].second; if (std::fabs(df - thr) < 1e-4L * (1 + std::fabs(list[i].second))) throw Discard(); if (df >= thr) { want = list[i].first; break; } }
    if (zero >= 0 && std::count(want.begin(), want.end(), (size_t)zero)) throw Discard(); c.interesting(all.size() >= 2); auto a = build(s, p, t, true, icpt); a->setEnableIndepVarSelect(true); a->setIndepVarSelectThreshold(thr); if (opt) { a->setEnableBandwidthOptimize(true); a->setBandwidthCriterionType(s.boolean() ? GWDR::CV : GWDR::AIC); a->setBandwidthOptimizeStep(0.05 * d.scale); a->setBandwidthOptimizeEps(0.05 * d.scale); a->setBandwidthOptimizeMaxIter(60); for (auto& b : p.b) if (b.adaptive || b.kernel >= 2) throw Discard(); }
    mat r2; try { r2 = a->fit(); } catch (const std::exception&) { if (opt) { c.label("search not converged"); throw Discard(); } throw; }
    require(a->selectedIndepVars() == want && a->selectedVariables() == want, "another set of variables was selected (" + std::to_string(a->selectedIndepVars().size()) + " instead of " + std::to_string(want.size()) + ")"); auto& L = a->indepVarCriterionList(); require(L.size() == list.size(), "length of the criterion list"); for (size_t i = 0; i < list.size(); i++) { require(L[i].first == list[i].first, "criterion list entry " + std::to_string(i) + " is another model"); closeTo("criterion of model " + std::to_string(i), L[i].second, list[i].second, 1e-5L, 1e-4L); }
    Data e = d; e.x = mat(d.x.cols(cols(want))); e.k = e.x.n_cols; e.X = M::from(e.x); require(arma::approx_equal(a->independentVariables(), e.x, "absdiff", 0), "the independent variables are not the selected columns"); Pb q = p; if (opt) for (int m = 0; m < p.dim; m++) q.b[m].bw = a->spatialWeights()[m].weight<BandwidthWeight>()->bandwidth(); ref::GwrFit g = ref::gwr(e.X, e.Y, weights(q, q.b)); if (!g.ok || g.maxCond > 1e8L) return; checkFit(c, *a, r2, g, e, true); c.label("final fit compared"); c.label("selected=" + std::to_string(want.size()));
}
// Bandwidth search: the reported bandwidths are no worse than the start, and the fit is theirs.
static void optimise(Src& s, Case& c) {
    Pb p = genPb(s, c, 16, 30, 1, 3, true); Data& d = p.d; bool cv = s.boolean(), mixed = s.chance(30), outside = s.chance(25); int t = s.range(0, 3); for (int m = 0; m < p.dim; m++) { if (!mixed) { p.b[m].adaptive = false; p.b[m].bw = span(d, m) * s.real(0.3, 0.95); } if (outside && m == 0) p.b[m].bw = p.b[m].adaptive ? d.n + 3 : span(d, m) * 1.5; }
    bool anyAd = false; for (auto& b : p.b) anyAd |= b.adaptive; if (anyAd && d.scale > 1) { d.coords /= d.scale; for (auto& b : p.b) if (!b.adaptive) b.bw /= d.scale; d.scale = 1; } c.desc << (cv ? " CV" : " AIC") << " threads=" << t << (anyAd ? " some adaptive" : " all fixed"); Pb st = p; for (int m = 0; m < p.dim; m++) { double up = st.b[m].adaptive ? d.n : span(d, m), lo = st.b[m].adaptive ? d.k + 1 : 0; if (st.b[m].bw <= lo || st.b[m].bw >= up) st.b[m].bw = up * 0.618; c.desc << " start " << st.b[m].bw; }
    ref::GwrFit g0 = ref::gwr(d.X, d.Y, weights(st, st.b), cv); if (!critOk(p, g0, cv)) throw Discard(); auto a = build(s, p, t, true); a->setEnableBandwidthOptimize(true); a->setBandwidthCriterionType(cv ? GWDR::CV : GWDR::AIC); a->setBandwidthOptimizeStep(0.05 * d.scale); a->setBandwidthOptimizeEps(0.003 * d.scale); a->setBandwidthOptimizeMaxIter(400); mat r; try { r = a->fit(); } catch (const std::exception&) { c.label("search not converged"); throw Discard(); }
    Pb q = p; for (int m = 0; m < p.dim; m++) { auto* w = a->spatialWeights()[m].weight<BandwidthWeight>(); require(w->adaptive() == p.b[m].adaptive && w->kernel() == p.b[m].kernel, "kernel or bandwidth type of dimension " + std::to_string(m) + " changed"); q.b[m].bw = w->bandwidth(); require(q.b[m].bw > 0, "bandwidth is not positive"); if (q.b[m].adaptive) require(q.b[m].bw == std::floor(q.b[m].bw), "a fractional number of neighbours was selected"); }
    ref::GwrFit g1 = ref::gwr(d.X, d.Y, weights(q, q.b), cv); if (!critOk(p, g1, cv)) throw Discard(); c.interesting(); R c0 = cv ? g0.rss : g0.aicc, c1 = cv ? g1.rss : g1.aicc; if (!anyAd) require(c1 <= c0 + 1e-5L * (1 + std::fabs(c0)), "the search ends at a criterion of " + num(c1) + ", worse than the start's " + num(c0)); if (c1 < c0 - 1e-6L * (1 + std::fabs(c0))) c.label("improved");
    ref::GwrFit g = ref::gwr(d.X, d.Y, weights(q, q.b)); if (!g.ok || g.maxCond > 1e8L) return; checkFit(c, *a, r, g, d, true);
}
#ifndef PART
int main(int argc, char** argv) { pbt::add("fit", 8000, 150000, fit); pbt::add("criterion", 6000, 100000, criterion); pbt::add("variables", 3000, 60000, variables); pbt::add("bandwidths", 600, 10000, optimise); return pbt::mainImpl(argc, argv); }

#endif
