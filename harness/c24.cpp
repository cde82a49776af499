// C24: validity checks and problems without a solution.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "a configuration with exactly one generated defect whose sound counterpart is accepted (validity), or a problem that provably has no unique solution while its sound counterpart has one (unsolvable), or an accepted configuration with inconsistent data that was run (accepted)";
static Cfg draw(Src& s, Case& c, int alg, bool autos) { GenOpt g; g.nhi = 24; g.safeKernels = true; g.autos = autos; Cfg f = genCfg(s, c, alg, g); f.threads = hasOmp(alg) && s.chance(35) ? s.range(1, 4) : 0; c.desc << " threads=" << f.threads; return f; }
static bool regression(int a) { return a == BASIC || a == ROBUST || a == LCR || a == POISSON || a == BINOMIAL || a == SCALABLE || a == GTWR_; }
template <class A> void noCoords(A& a) { a.setCoords(mat()); }
inline void noCoords(GTWR& a) { a.setCoords(mat(), vec()); }
template <class A> void withBw(A& a, const Cfg& f, double bw, int kernel) { Bw b = f.b; b.bw = bw; if (kernel >= 0) b.kernel = (BandwidthWeight::KernelFunctionType)kernel; Cfg g = f; g.b = b; a.setSpatialWeight(f.alg == GTWR_ ? stWeight(g) : sw(b, f.d.geo)); }
// Build a configured object and spoil one thing; returns what was spoiled, or "" if the defect does not exist for this algorithm.
template <class A> std::string spoilMono(A& a, const Cfg& f, int what) { bool bwChecked = f.alg == BASIC || f.alg == ROBUST || f.alg == SCALABLE || f.alg == GTWR_; switch (what) {
    case 0: noCoords(a); return "no coordinates"; case 4: if (!bwChecked) return ""; withBw(a, f, 0.0, -1); return "bandwidth 0"; case 5: if (!bwChecked) return ""; withBw(a, f, -3.5, -1); return "negative bandwidth"; case 7: a.setSpatialWeight(SpatialWeight()); return "no weights";
    case 8: { BandwidthWeight w(f.b.bw, f.b.adaptive, f.b.kernel); SpatialWeight q; q.setWeight(w); a.setSpatialWeight(q); return "no distance"; } case 9: { CRSDistance d(f.d.geo); SpatialWeight q; q.setDistance(d); a.setSpatialWeight(q); return "no weighting function"; } } return ""; }
template <class A> std::string spoilReg(A& a, const Cfg& f, int what, int by) { switch (what) { case 1: a.setIndependentVariables(mat(f.d.n, 0)); return "no variables"; case 2: a.setDependentVariable(by > 0 ? vec(arma::join_cols(f.d.y, f.d.y.head(by))) : vec(f.d.y.head(f.d.n + by))); return "other number of responses"; case 3: a.setIndependentVariables(by > 0 ? mat(arma::join_cols(f.d.x, f.d.x.head_rows(by))) : mat(f.d.x.head_rows(f.d.n + by))); return "other number of rows of the variables"; default: return spoilMono(a, f, what); } }
static std::string spoil(Model& m, const Cfg& f, int what, int by) { switch (f.alg) {
    case BASIC: return spoilReg(static_cast<Mod<GWRBasic>&>(m).a, f, what, by); case ROBUST: return spoilReg(static_cast<Mod<GWRRobust>&>(m).a, f, what, by); case LCR: return spoilReg(static_cast<Mod<GWRLocalCollinearity>&>(m).a, f, what, by); case POISSON: case BINOMIAL: return spoilReg(static_cast<Mod<GWRGeneralized>&>(m).a, f, what, by);
    case SCALABLE: { auto& a = static_cast<Mod<GWRScalable>&>(m).a; if (what == 6) { withBw(a, f, f.b.bw, 2 + std::abs(by) % 3); return "kernel with bounded support"; } return spoilReg(a, f, what, by); }
    case GTWR_: { auto& a = static_cast<Mod<GTWR>&>(m).a; if (what == 8) return ""; return spoilReg(a, f, what, by); }
    case GWSS_AVG: case GWSS_COR: { auto& a = static_cast<Mod<GWSS>&>(m).a; if (what == 1) { a.setVariables(mat(f.d.n, 0)); return "no variables"; } if (what == 2 || what == 3 || what == 4 || what == 5) return ""; return spoilMono(a, f, what); }
    case GWDA_LDA: case GWDA_QDA: { auto& a = static_cast<Mod<GWDA>&>(m).a; if (what == 1) { a.setVariables(mat(f.d.n, 0)); return "no variables"; } if (what == 2 || what == 3 || what == 4 || what == 5) return ""; return spoilMono(a, f, what); }
    case PCA: { auto& a = static_cast<Mod<GWPCA>&>(m).a; if (what == 6) { a.setKeepComponents(-std::abs(by) + 1); return "no components to keep"; } if (what >= 1 && what <= 5) return ""; return spoilMono(a, f, what); }
    case GWDR_: { auto& a = static_cast<Mod<GWDR>&>(m).a; std::vector<SpatialWeight> v; for (auto& b : f.bs) v.push_back(dimWeight(b)); switch (what) { case 0: a.setCoords(mat()); return "no coordinates"; case 4: v.pop_back(); a.setSpatialWeights(v); return "too few weights"; case 5: v.push_back(v[0]); a.setSpatialWeights(v); return "too many weights"; case 7: a.setSpatialWeights({}); return "no weights"; case 8: v[by > 0] = SpatialWeight(); a.setSpatialWeights(v); return "an empty weight"; } return ""; }
    case MULTISCALE: { auto& a = static_cast<Mod<GWRMultiscale>&>(m).a; std::vector<SpatialWeight> v; for (auto& b : f.bs) v.push_back(sw(b, f.d.geo)); size_t k = f.d.k, j = std::abs(by) % k; switch (what) { case 1: a.setIndependentVariables(mat(f.d.n, 0)); return "no variables"; case 2: v.pop_back(); a.setSpatialWeights(v); return "too few weights"; case 3: a.setBandwidthInitilize(std::vector<GWRMultiscale::BandwidthInitilizeType>(by > 0 ? k + 1 : k - 1, GWRMultiscale::Specified)); return "another number of initialisations";
            case 4: { Bw b = f.bs[j]; b.bw = b.adaptive ? (by > 0 ? 1 : 0) : -0.5; if (f.init[j] == 0) return ""; v[j] = sw(b, f.d.geo); a.setSpatialWeights(v); return "bandwidth " + num(b.bw) + " of a variable"; } case 5: a.setPreditorCentered(std::vector<bool>(by > 0 ? k + 1 : k - 1, false)); return "another number of centring flags"; case 6: a.setBandwidthSelectThreshold(std::vector<double>(by > 0 ? k + 1 : k - 1, 1)); return "another number of thresholds"; case 7: a.setSpatialWeights({}); return "no weights"; case 8: v[j] = SpatialWeight(); a.setSpatialWeights(v); return "an empty weight"; case 9: a.setBandwidthSelectionApproach(std::vector<GWRMultiscale::BandwidthSelectionCriterionType>(by > 0 ? k + 1 : k - 1, GWRMultiscale::CV)); return "another number of selection criteria"; } return ""; }
    } return ""; }
static void validity(Src& s, Case& c) {
    int alg = s.range(0, NALG - 1); Cfg f = draw(s, c, alg, true); auto m = make(f); bool fitFirst = s.chance(15); if (fitFirst) { runModel(*m); m->reconfigure(f); } require(m->valid(), "a consistent configuration is reported invalid"); int what = s.range(0, 10), by = s.range(1, 3) * (s.boolean() ? 1 : -1); std::string e; try { if (what == 10) { static const double B[] = {NAN, INFINITY, -INFINITY}; Cfg g = f; if (alg == GTWR_ && s.boolean()) { g.times(std::abs(by) % f.d.n) = B[s.below(3)]; e = "a time that is not finite"; } else { g.d.coords(std::abs(by) % f.d.n, s.range(0, 1)) = B[s.below(3)]; e = "a coordinate that is not finite"; } m->reconfigure(g); } else e = spoil(*m, f, what, by); } catch (const std::exception& x) { c.interesting(); c.label("refused by the setter"); require(m->valid(), "a refused setting makes the configuration invalid"); return; } if (e.empty()) throw Discard(); c.desc << " spoiled: " << e << " (" << by << ")"; c.interesting(); c.label(e.substr(0, e.find(" of a"))); require(!m->valid(), "a configuration with " + e + " is reported valid"); m->reconfigure(f); require(m->valid(), "after being repaired, a configuration with " + e + " is still reported invalid");
}
// Regressions that have no unique solution anywhere must not report success with arbitrary numbers.
static void unsolvable(Src& s, Case& c) {
    static const std::vector<int> A = {BASIC, ROBUST, GTWR_, GWDR_, SCALABLE, POISSON, BINOMIAL, MULTISCALE}; int alg = s.pick(A); Cfg f = draw(s, c, alg, false); { Res r = runModel(*make(f)); if (r.threw) throw Discard(); }
    int j = s.range(alg == MULTISCALE ? 0 : 0, f.d.k - 1); int kind = s.range(0, 1); Cfg g = f; if (kind == 0) { g.d.x.col(j).zeros(); c.desc << " column " << j << " all zero"; } else { if (alg == MULTISCALE || alg == POISSON || alg == BINOMIAL || alg == SCALABLE) throw Discard(); g.d.x.zeros(); c.desc << " all columns zero"; } if (alg == MULTISCALE) for (size_t q = 0; q < g.centred.size(); q++) g.centred[q] = false; c.interesting(); c.label(AN[alg]); auto m = make(g); Res r = runModel(*m); require(r.threw, "a problem without a unique solution is fitted with status " + std::to_string((int)r.st) + (r.o.find("betas") && r.o.find("betas")->is_finite() ? " and finite coefficients" : " and undefined coefficients")); m->reconfigure(f); Res q = runModel(*m); require(!q.threw && q.st == Status::Success, "after a failed fit a solvable one fails");
}
// Nobody within reach of a location: no coefficients can be predicted there.
static void outOfReach(Src& s, Case& c) {
    static const std::vector<int> A = {BASIC, ROBUST, POISSON, BINOMIAL}; int alg = s.pick(A); Cfg f = draw(s, c, alg, false); f.b.adaptive = false; f.b.kernel = (BandwidthWeight::KernelFunctionType)s.range(2, 4); f.b.bw = maxDist(f.d) * s.real(1.1, 3); f.d.geo = false; if (f.d.coords.max() > 1e7) throw Discard(); { double ext = arma::norm(arma::rowvec(arma::max(f.d.coords, 0) - arma::min(f.d.coords, 0))); f.b.bw = ext * s.real(1.1, 3); } int np = s.range(1, 5), bad = s.range(0, np - 1); mat loc = f.d.coords.head_rows(np); auto m = make(f); bool fitFirst = s.boolean(); if (fitFirst && runModel(*m).threw) throw Discard(); mat ok; try { ok = m->predict(loc); } catch (const std::exception&) { throw Discard(); } loc(bad, 0) += 1000 * f.b.bw + 1000 * arma::abs(f.d.coords).max(); c.desc << " location " << bad << " of " << np << " out of reach, " << KN[f.b.kernel] << " " << f.b.bw; c.interesting(); c.label(AN[alg]); bool t = throws([&] { m->predict(loc); }); require(t, "coefficients are predicted at a location no observation is near enough to"); loc.row(bad) = f.d.coords.row(bad); mat again = m->predict(loc); Out x, y; x.add("prediction", ok); y.add("prediction", again); std::string e = diff(x, y, f.threads ? 1e-7 : 1e-11); require(e.empty(), "a prediction after a failed one differs: " + e);
}
// Whatever is reported valid can be run: results or an error, never a crash.
static void accepted(Src& s, Case& c) {
    int alg = s.range(0, NALG - 1); Cfg f = draw(s, c, alg, true); auto m = make(f); int what = s.range(0, 5); int by = s.range(1, 3) * (s.boolean() ? 1 : -1); Cfg g = f; switch (what) { case 0: g.d.coords = by > 0 ? mat(arma::join_cols(f.d.coords, f.d.coords.head_rows(by))) : mat(f.d.coords.head_rows(f.d.n + by)); if (alg == GTWR_) { g.times = by > 0 ? vec(arma::join_cols(f.times, f.times.head(by))) : vec(f.times.head(f.d.n + by)); } c.desc << " coordinates of " << g.d.coords.n_rows; break; case 1: g.d.x = by > 0 ? mat(arma::join_cols(f.d.x, f.d.x.head_rows(by))) : mat(f.d.x.head_rows(f.d.n + by)); c.desc << " variables of " << g.d.x.n_rows; break; case 2: g.d.y = by > 0 ? vec(arma::join_cols(f.d.y, f.d.y.head(by))) : vec(f.d.y.head(f.d.n + by)); c.desc << " responses of " << g.d.y.n_rows; break; case 3: if (g.groups.empty()) throw Discard(); if (by > 0) g.groups.resize(f.d.n + by, "b"); else g.groups.resize(f.d.n + by); c.desc << " groups of " << g.groups.size(); break; case 4: if (alg != PCA) throw Discard(); g.keep = f.d.k + std::abs(by); c.desc << " keeping " << g.keep << " components"; break; default: g.d.coords = mat(f.d.coords.col(0)); c.desc << " one coordinate"; if (alg == GWDR_) g.bs.resize(1); }
    m->reconfigure(g); if (!m->valid()) { c.label("rejected"); throw Discard(); } c.interesting(); c.label(AN[alg]); Res r = runModel(*m); c.label(r.threw ? "error" : "ran"); }
int main(int argc, char** argv) { pbt::add("validity", 20000, 100000, validity); pbt::add("unsolvable", 6000, 40000, unsolvable); pbt::add("out-of-reach", 6000, 30000, outOfReach); pbt::add("accepted", 8000, 30000, accepted); return pbt::mainImpl(argc, argv); }
