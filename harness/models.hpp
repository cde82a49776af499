// Every algorithm of the library behind one interface, for the properties that hold for all of them.
#pragma once
#include "gen.hpp"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWDA.h"

namespace models {
using namespace gen; using namespace gwm;

enum Alg { BASIC, ROBUST, LCR, POISSON, BINOMIAL, GTWR_, GWDR_, GWSS_AVG, GWSS_COR, GWDA_LDA, GWDA_QDA, MULTISCALE, SCALABLE, PCA, NALG };
static const char* AN[] = {"GWRBasic", "GWRRobust", "GWRLocalCollinearity", "GWRGeneralized/Poisson", "GWRGeneralized/Binomial", "GTWR", "GWDR", "GWSS/average", "GWSS/correlation", "GWDA/LDA", "GWDA/QDA", "GWRMultiscale", "GWRScalable", "GWPCA"};
inline bool hasOmp(int a) { return a < SCALABLE; }
inline bool hasPredict(int a) { return a == BASIC || a == ROBUST || a == LCR || a == POISSON || a == BINOMIAL || a == SCALABLE; }

struct Cfg {
    int alg; Data d; Bw b; vec times; double lambda = 0.5, angle = 0; bool oblique = false; std::vector<Bw> bs; int threads = 0; // 0 = serial
    bool hat = true, autoBw = false, autoVar = false, autoLambda = false, filtered = false, adjust = false, cv = false, corrFirst = false, quantile = false, hasCov = true, hasMean = true, hasPrior = true; double ridge = 0, cn = 30; int keep = 2, poly = 4;
    std::vector<std::string> groups; std::vector<int> init; std::vector<bool> centred; double thr = 3;
};
struct Out { std::vector<std::pair<std::string, mat>> m; void add(const std::string& n, const mat& v) { m.push_back({n, v}); } void add(const std::string& n, double v) { mat t(1, 1); t(0, 0) = v; m.push_back({n, t}); }
    const mat* find(const std::string& n) const { for (auto& p : m) if (p.first == n) return &p.second; return nullptr; } };

inline bool sameNum(double a, double b, double rel, double scale) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= rel * scale + 1e-280; }
// Column-wise relative comparison; returns a description of the first difference or "".
inline std::string diff(const Out& A, const Out& B, double rel) {
    if (A.m.size() != B.m.size()) return "different sets of results";
    for (size_t i = 0; i < A.m.size(); i++) {
        const mat &a = A.m[i].second, &b = B.m[i].second; if (a.n_rows != b.n_rows || a.n_cols != b.n_cols) return A.m[i].first + ": shape " + std::to_string(a.n_rows) + "x" + std::to_string(a.n_cols) + " vs " + std::to_string(b.n_rows) + "x" + std::to_string(b.n_cols);
        for (size_t c = 0; c < a.n_cols; c++) { double s = 0; for (size_t r = 0; r < a.n_rows; r++) { if (std::isfinite(a(r, c))) s = std::max(s, std::fabs(a(r, c))); if (std::isfinite(b(r, c))) s = std::max(s, std::fabs(b(r, c))); }
            for (size_t r = 0; r < a.n_rows; r++) if (!sameNum(a(r, c), b(r, c), rel, s)) return A.m[i].first + "(" + std::to_string(r) + "," + std::to_string(c) + "): " + num(a(r, c)) + " vs " + num(b(r, c)); }
    }
    return "";
}
// For runs that sum in another order: statistics that are differences of nearly equal numbers are compared on the scale of those numbers,
// and a saturated model (less than one degree of freedom left, or residuals at rounding level) only on its coefficients.
inline std::string diffReordered(Out A, Out B, double rel) {
    const mat *e = A.find("EDF"), *r2 = A.find("R2"), *e2 = B.find("EDF"); bool saturated = (e && e->at(0, 0) < 1) || (e2 && e2->at(0, 0) < 1) || (r2 && r2->at(0, 0) > 1 - 1e-8); if (A.m.size() != B.m.size()) return "different sets of results";
    Out X, Y; for (size_t i = 0; i < A.m.size(); i++) { const std::string& n = A.m[i].first; bool diag = n == "EDF" || n == "ENP" || n == "R2" || n == "R2adj"; if (saturated && (diag || n == "RSS" || n == "AIC" || n == "AICc" || n == "betasSE" || n == "qDiag" || n == "sHat")) continue;
        if (diag || n == "AIC" || n == "AICc") { double a = A.m[i].second(0, 0), b = B.m[i].second(0, 0); if (!sameNum(a, b, rel, std::max({std::fabs(a), std::fabs(b), 100.0}))) return n + ": " + num(a) + " vs " + num(b); continue; } X.m.push_back(A.m[i]); Y.m.push_back(B.m[i]); }
    return diff(X, Y, rel);
}
inline void addDiag(Out& o, const RegressionDiagnostic& r) { o.add("RSS", r.RSS); o.add("AIC", r.AIC); o.add("AICc", r.AICc); o.add("ENP", r.ENP); o.add("EDF", r.EDF); o.add("R2", r.RSquare); o.add("R2adj", r.RSquareAdjust); }
inline void addList(Out& o, const BandwidthCriterionList& l) { mat m(l.size(), 2); for (size_t i = 0; i < l.size(); i++) { m(i, 0) = l[i].first; m(i, 1) = l[i].second; } o.add("criterion list", m); }
inline void addVars(Out& o, const std::vector<size_t>& v) { mat m(1, v.size()); for (size_t i = 0; i < v.size(); i++) m(0, i) = v[i]; o.add("selected variables", m); }
inline void addBw(Out& o, const SpatialWeight& w) { auto* b = w.weight<BandwidthWeight>(); o.add("bandwidth", b->bandwidth()); o.add("kernel", (double)b->kernel()); o.add("adaptive", b->adaptive()); }

struct Model { virtual ~Model() {} virtual void run() = 0; virtual mat predict(const mat&) { throw std::logic_error("no predict"); } virtual Out out() = 0; virtual void telegram(std::unique_ptr<ITelegram>) = 0; virtual Status status() = 0; virtual bool valid() = 0; virtual void threads(int) = 0; virtual void reconfigure(const Cfg&) = 0; virtual void dataOut(Out&) = 0; virtual double criterion(const std::vector<Bw>&) = 0; mat returned; };

inline SpatialWeight stWeight(const Cfg& c) { CRSDistance sd(c.d.geo); OneDimDistance td; BandwidthWeight w(c.b.bw, c.b.adaptive, c.b.kernel); if (c.oblique) { CRSSTDistance q(&sd, &td, c.lambda, c.angle); return SpatialWeight(&w, &q); } CRSSTDistance q(&sd, &td, c.lambda); return SpatialWeight(&w, &q); }
inline SpatialWeight dimWeight(const Bw& b) { OneDimDistance td; BandwidthWeight w(b.bw, b.adaptive, b.kernel); return SpatialWeight(&w, &td); }

template <class A> void regress(A& a, const Cfg& c) { a.setCoords(c.d.coords); a.setIndependentVariables(c.d.x); a.setDependentVariable(c.d.y); }
inline void conf(GWRBasic& a, const Cfg& c) { regress(a, c); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setHasHatMatrix(c.hat); a.setIsAutoselectBandwidth(c.autoBw); a.setBandwidthSelectionCriterion(c.cv ? GWRBasic::CV : GWRBasic::AIC); a.setIsAutoselectIndepVars(c.autoVar); a.setIndepVarSelectionThreshold(c.thr); }
inline void conf(GWRRobust& a, const Cfg& c) { conf(static_cast<GWRBasic&>(a), c); a.setFiltered(c.filtered); }
inline void conf(GWRLocalCollinearity& a, const Cfg& c) { regress(a, c); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setHasHatMatrix(c.hat); a.setIsAutoselectBandwidth(c.autoBw); a.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV); a.setLambda(c.ridge); a.setLambdaAdjust(c.adjust); a.setCnThresh(c.cn); }
inline void conf(GWRGeneralized& a, const Cfg& c) { regress(a, c); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setFamily(c.alg == POISSON ? GWRGeneralized::Poisson : GWRGeneralized::Binomial); a.setHasHatMatrix(c.hat); a.setIsAutoselectBandwidth(c.autoBw); a.setBandwidthSelectionCriterionType(c.cv ? GWRGeneralized::CV : GWRGeneralized::AIC); }
inline void conf(GTWR& a, const Cfg& c) { a.setIndependentVariables(c.d.x); a.setDependentVariable(c.d.y); a.setCoords(c.d.coords, c.times); a.setSpatialWeight(stWeight(c)); a.setHasHatMatrix(c.hat); a.setIsAutoselectBandwidth(c.autoBw); a.setBandwidthSelectionCriterion(c.cv ? GTWR::CV : GTWR::AIC); a.setIsAutoselectLambda(c.autoLambda); }
inline void conf(GWDR& a, const Cfg& c) { regress(a, c); std::vector<SpatialWeight> v; for (auto& b : c.bs) v.push_back(dimWeight(b)); a.setSpatialWeights(v); a.setHasHatMatrix(c.hat); a.setEnableBandwidthOptimize(c.autoBw); a.setBandwidthOptimizeEps(0.01); a.setBandwidthOptimizeMaxIter(2000); a.setBandwidthOptimizeStep(0.05); a.setBandwidthCriterionType(c.cv ? GWDR::CV : GWDR::AIC); a.setEnableIndepVarSelect(c.autoVar); a.setIndepVarSelectThreshold(c.thr); }
inline void conf(GWSS& a, const Cfg& c) { a.setCoords(c.d.coords); a.setVariables(c.d.x); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setQuantile(c.quantile); a.setIsCorrWithFirstOnly(c.corrFirst); a.setGWSSMode(c.alg == GWSS_AVG ? GWSS::GWSSMode::Average : GWSS::GWSSMode::Correlation); }
inline void conf(GWDA& a, const Cfg& c) { a.setCoords(c.d.coords); a.setVariables(c.d.x); std::vector<std::string> g = c.groups; a.setGroup(g); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setIsWqda(c.alg == GWDA_QDA); a.setHascov(c.hasCov); a.setHasmean(c.hasMean); a.setHasprior(c.hasPrior); }
inline void conf(GWRMultiscale& a, const Cfg& c) { a.setCoords(c.d.coords); a.setIndependentVariables(c.d.x); a.setDependentVariable(c.d.y); std::vector<SpatialWeight> v; for (auto& b : c.bs) v.push_back(sw(b, c.d.geo)); a.setSpatialWeights(v); size_t k = c.d.k; std::vector<GWRMultiscale::BandwidthInitilizeType> in; for (int i : c.init) in.push_back((GWRMultiscale::BandwidthInitilizeType)i); a.setBandwidthInitilize(in);
    a.setBandwidthSelectionApproach(std::vector<GWRMultiscale::BandwidthSelectionCriterionType>(k, c.cv ? GWRMultiscale::CV : GWRMultiscale::AIC)); a.setPreditorCentered(c.centred); a.setBandwidthSelectThreshold(std::vector<double>(k, 1e-3)); a.setHasHatMatrix(c.hat); a.setCriterionThreshold(1e-4); a.setMaxIteration(40); a.setBandwidthSelectRetryTimes(2); }
inline void conf(GWRScalable& a, const Cfg& c) { regress(a, c); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setHasHatMatrix(c.hat); a.setPolynomial(c.poly); a.setParameterOptimizeCriterion(c.cv ? GWRScalable::CV : GWRScalable::AIC); }
inline void conf(GWPCA& a, const Cfg& c) { a.setCoords(c.d.coords); a.setVariables(c.d.x); a.setSpatialWeight(sw(c.b, c.d.geo)); a.setKeepComponents(c.keep); }

inline void collect(GWRBasic& a, Out& o) { o.add("betas", a.betas()); o.add("betasSE", a.betasSE()); o.add("sHat", a.sHat()); o.add("qDiag", a.qDiag()); if (a.s().n_rows == a.betas().n_rows) o.add("S", a.s()); addDiag(o, a.diagnostic()); addBw(o, a.spatialWeight()); addList(o, a.bandwidthSelectionCriterionList()); addVars(o, a.selectedVariables()); }
inline void collect(GWRLocalCollinearity& a, Out& o) { o.add("betas", a.betas()); addDiag(o, a.diagnostic()); addBw(o, a.spatialWeight()); addList(o, a.bandwidthSelectionCriterionList()); }
inline void collect(GWRGeneralized& a, Out& o) { o.add("betas", a.betas()); auto d = a.getDiagnostic(); o.add("AIC", d.AIC); o.add("AICc", d.AICc); o.add("RSS", d.RSS); o.add("R2", d.RSquare); auto g = a.getGLMDiagnostic(); o.add("glm AIC", g.AIC); o.add("glm AICc", g.AICc); o.add("glm dev", g.Dev); o.add("glm null dev", g.NullDev); o.add("glm R2", g.RSquare); addBw(o, a.spatialWeight()); addList(o, a.bandwidthSelectorCriterions()); }
inline void collect(GTWR& a, Out& o) { o.add("betas", a.betas()); o.add("betasSE", a.betasSE()); o.add("sHat", a.sHat()); o.add("qDiag", a.qDiag()); if (a.s().n_rows == a.betas().n_rows) o.add("S", a.s()); addDiag(o, a.diagnostic()); addBw(o, a.spatialWeight()); addList(o, a.bandwidthSelectionCriterionList()); }
inline void collect(GWDR& a, Out& o) { o.add("betas", a.betas()); o.add("betasSE", a.betasSE()); o.add("sHat", a.sHat()); o.add("qDiag", a.qDiag()); if (a.s().n_rows == a.betas().n_rows) o.add("S", a.s()); addDiag(o, a.diagnostic()); for (auto& w : a.spatialWeights()) addBw(o, w); addVars(o, a.selectedIndepVars()); }
inline void collect(GWSS& a, Out& o) { o.add("mean", a.localMean()); o.add("sdev", a.localSDev()); o.add("skewness", a.localSkewness()); o.add("cv", a.localCV()); o.add("var", a.localVar()); o.add("median", a.localMedian()); o.add("iqr", a.iqr()); o.add("qi", a.qi()); o.add("cov", a.localCov()); o.add("corr", a.localCorr()); o.add("spearman", a.localSCorr()); }
inline void collect(GWDA& a, Out& o) { o.add("scores", a.res()); o.add("probs", a.probs()); o.add("pmax", a.pmax()); o.add("entropy", a.entropy()); o.add("correct", a.correctRate()); mat g(a.group().size(), 1); for (size_t i = 0; i < a.group().size(); i++) { double h = 0; for (char ch : a.group()[i]) h = h * 31 + ch; g(i, 0) = h; } o.add("group", g); }
inline void collect(GWRMultiscale& a, Out& o) { o.add("betas", a.betas()); addDiag(o, a.diagnostic()); for (auto& w : a.spatialWeights()) addBw(o, w); }
inline void collect(GWRScalable& a, Out& o) { o.add("betas", a.betas()); o.add("cv", a.cv()); o.add("scale", a.scale()); o.add("penalty", a.penalty()); addDiag(o, a.diagnostic()); }
inline void collect(GWPCA& a, Out& o) { o.add("pv", a.localPV()); o.add("sdev", a.sdev()); for (size_t i = 0; i < a.loadings().n_slices; i++) o.add("loadings" + std::to_string(i), a.loadings().slice(i)); }

template <class A> mat doRun(A& a) { return a.fit(); }
template <> inline mat doRun(GWSS& a) { a.run(); return mat(); }
template <> inline mat doRun(GWDA& a) { a.run(); return mat(); }
template <> inline mat doRun(GWPCA& a) { a.run(); return mat(); }
template <class A> auto setThreads(A& a, int t) -> decltype(a.setOmpThreadNum(t), void()) { a.setParallelType(t > 0 ? ParallelType::OpenMP : ParallelType::SerialOnly); if (t > 0) a.setOmpThreadNum(t); }
inline void setThreads(GWRScalable&, int) {} inline void setThreads(GWPCA&, int) {}
template <class A> mat doPredict(A& a, const mat& l) { return a.predict(l); }
template <> inline mat doPredict(GWSS&, const mat&) { throw std::logic_error("no predict"); }
template <> inline mat doPredict(GWDA&, const mat&) { throw std::logic_error("no predict"); }
template <> inline mat doPredict(GWPCA&, const mat&) { throw std::logic_error("no predict"); }
template <class A> auto inputs(A& a, Out& o, int) -> decltype(a.independentVariables(), void()) { o.add("X", a.independentVariables()); o.add("y", a.dependentVariable()); }
template <class A> auto inputs(A& a, Out& o, long) -> decltype(a.variables(), void()) { o.add("X", a.variables()); }

// Criterion of given bandwidths for a fitted model (DBL_MAX: rejected).
template <class A> auto critOf(A& a, const std::vector<Bw>& b, int) -> decltype(a.getCriterion((BandwidthWeight*)nullptr, std::declval<double&>()), double()) { BandwidthWeight w(b[0].bw, b[0].adaptive, b[0].kernel); double v = 0; a.getCriterion(&w, v); return v; }
template <class A> double critOf(A&, const std::vector<Bw>&, long) { throw Discard(); }
inline double critOf(GWDR& a, const std::vector<Bw>& b, int) { std::vector<BandwidthWeight> w; std::vector<BandwidthWeight*> p; for (auto& q : b) w.emplace_back(q.bw, q.adaptive, q.kernel); for (auto& q : w) p.push_back(&q); return a.bandwidthCriterion(p); }
template <class A> struct Mod : Model {
    A a; bool confFirst = false;
    explicit Mod(const Cfg& c) { conf(a, c); setThreads(a, c.threads); }
    void run() override { returned = doRun(a); }
    mat predict(const mat& l) override { return doPredict(a, l); }
    Out out() override { Out o; collect(a, o); o.add("returned", returned); return o; }
    void telegram(std::unique_ptr<ITelegram> t) override { a.setTelegram(std::move(t)); }
    Status status() override { return a.status(); }
    bool valid() override { return a.isValid(); }
    void threads(int t) override { setThreads(a, t); }
    void reconfigure(const Cfg& c) override { conf(a, c); setThreads(a, c.threads); }
    double criterion(const std::vector<Bw>& b) override { return critOf(a, b, 0); }
    void dataOut(Out& o) override { inputs(a, o, 0); o.add("coords", a.coords()); }
};
inline std::unique_ptr<Model> make(const Cfg& c) {
    switch (c.alg) {
    case BASIC: return std::unique_ptr<Model>(new Mod<GWRBasic>(c)); case ROBUST: return std::unique_ptr<Model>(new Mod<GWRRobust>(c)); case LCR: return std::unique_ptr<Model>(new Mod<GWRLocalCollinearity>(c));
    case POISSON: case BINOMIAL: return std::unique_ptr<Model>(new Mod<GWRGeneralized>(c)); case GTWR_: return std::unique_ptr<Model>(new Mod<GTWR>(c)); case GWDR_: return std::unique_ptr<Model>(new Mod<GWDR>(c));
    case GWSS_AVG: case GWSS_COR: return std::unique_ptr<Model>(new Mod<GWSS>(c)); case GWDA_LDA: case GWDA_QDA: return std::unique_ptr<Model>(new Mod<GWDA>(c)); case MULTISCALE: return std::unique_ptr<Model>(new Mod<GWRMultiscale>(c));
    case SCALABLE: return std::unique_ptr<Model>(new Mod<GWRScalable>(c)); default: return std::unique_ptr<Model>(new Mod<GWPCA>(c)); }
}
struct GenOpt { bool autos = true; int nlo = 12, nhi = 40; bool safeKernels = false; bool geo = true; };
// Draw a well-posed configuration of algorithm `alg`.
inline Cfg genCfg(Src& s, Case& c, int alg, GenOpt g = GenOpt()) {
    Cfg f; f.alg = alg; c.desc << AN[alg] << " "; c.label(AN[alg]); std::vector<int> lay = {0, 2, 4, 1, 5};
    f.autoBw = g.autos && s.chance(30); f.autoVar = g.autos && s.chance(25); f.cv = s.boolean(); f.hat = !s.chance(20); 
    int nlo = f.autoBw ? std::max(g.nlo, 24) : g.nlo; int nhi = std::max(nlo + 4, g.nhi);
    switch (alg) {
    case GWSS_AVG: case GWSS_COR: case PCA: f.d = genData(s, c, nlo, nhi, 3, 5, g.geo, lay); f.d.k -= 1; f.d.x = mat(f.d.x.cols(1, f.d.k)); break;
    case GWDA_LDA: case GWDA_QDA: { f.d = genData(s, c, std::max(nlo, 30), std::max(nlo, 30) + 20, 3, 4, g.geo, lay); f.d.k -= 1; f.d.x = mat(f.d.x.cols(1, f.d.k)); int G = s.range(2, 3); Rng r(f.d.seed + 3); static const char* NM[] = {"alpha", "b", "gamma"}; for (int i = 0; i < f.d.n; i++) { int q = i < 3 * G ? i % G : (int)r.below(G); f.groups.push_back(NM[q]); f.d.x.row(i) += 1.5 * q; } f.hasCov = !s.chance(25); f.hasMean = !s.chance(25); f.hasPrior = !s.chance(25); c.desc << " groups=" << G << " cov/mean/prior=" << f.hasCov << f.hasMean << f.hasPrior; break; }
    case MULTISCALE: { f.d = genData(s, c, std::max(nlo, 24), std::max(nlo, 24) + 12, 2, 3, g.geo, lay); break; }
    case POISSON: case BINOMIAL: { f.d = genData(s, c, std::max(nlo, 24), std::max(nlo, 24) + 16, 2, 3, g.geo, lay); Rng r(f.d.seed + 9); for (int j = 1; j < f.d.k; j++) { f.d.x.col(j) -= arma::mean(f.d.x.col(j)); f.d.x.col(j) /= arma::stddev(f.d.x.col(j)); } for (int i = 0; i < f.d.n; i++) { double e = 0.9; for (int j = 1; j < f.d.k; j++) e += (j == 1 ? 0.35 : -0.25) * f.d.x(i, j); if (alg == POISSON) { double L = std::exp(-std::exp(e)), p = 1; int kk = 0; do { kk++; p *= r.unit(); } while (p > L); f.d.y(i) = kk - 1; } else f.d.y(i) = r.unit() < 1 / (1 + std::exp(-(e - 0.9) * 1.5)) ? 1 : 0; } break; }
    case GWDR_: f.d = genData(s, c, nlo, nhi, 2, 4, false, {0, 2}); break;
    case ROBUST: f.d = genData(s, c, nlo, nhi, 2, 4, g.geo, lay); { Rng r(f.d.seed + 4); int outl = s.range(0, 3); for (int i = 0; i < outl; i++) f.d.y(r.below(f.d.n)) += 40 * (r.unit() - 0.5); } f.filtered = s.boolean(); c.desc << " filtered=" << f.filtered; break;
    default: f.d = genData(s, c, nlo, nhi, 2, 4, g.geo, lay); }
    f.d.X = ref::M::from(f.d.x); f.d.Y = ref::vfrom(f.d.y);
    auto bwFor = [&](const Data& dd, bool smooth) { Bw b = genBw(s, c, dd, true); if (smooth) b.kernel = (BandwidthWeight::KernelFunctionType)(b.kernel % 2); return b; };
    switch (alg) {
    case GTWR_: { Rng r(f.d.seed + 1); f.times = vec(f.d.n); for (auto& t : f.times) t = (double)r.below(6); f.lambda = s.real(0.05, 0.95); if (s.chance(15)) f.lambda = 1; f.oblique = s.chance(30); f.angle = s.real(0.2, 1.4); f.b = bwFor(f.d, true); if (f.lambda < 1) { f.b.adaptive = false; f.b.bw = f.d.scale * (f.d.geo ? 0 : 1) * s.real(0.5, 2) + (f.d.geo ? s.real(500, 4000) : 3); // observations in the future are "infinitely" far, so the first period must be well populated
            for (int i = 0; i < f.d.n; i++) if (i < 2 * f.d.k + 4) f.times(i) = 0; } f.autoLambda = g.autos && s.chance(20); c.desc << " lambda=" << f.lambda << (f.oblique ? " oblique" : ""); if (f.autoBw && f.lambda < 1) f.autoBw = false; break; }
    case GWDR_: for (int m = 0; m < 2; m++) { Bw b; b.kernel = (BandwidthWeight::KernelFunctionType)s.below(2); b.adaptive = s.boolean(); b.bw = b.adaptive ? s.range(f.d.n / 2, f.d.n) : s.real(0.3, 1.2) * f.d.scale; f.bs.push_back(b); c.desc << " [" << KN[b.kernel] << (b.adaptive ? " adaptive " : " fixed ") << b.bw << "]"; } f.b = f.bs[0]; break;
    case MULTISCALE: { bool ad = s.boolean(); auto kk = (BandwidthWeight::KernelFunctionType)s.below(3); double md = maxDist(f.d); for (int j = 0; j < f.d.k; j++) { Bw b; b.kernel = kk; b.adaptive = ad; b.bw = ad ? s.range(f.d.n / 2 + 4, f.d.n) : md * s.real(0.4, 1.2); f.bs.push_back(b); int in = g.autos ? s.range(0, 2) : 2; f.init.push_back(in); f.centred.push_back(j > 0 && s.chance(40)); c.desc << " [" << KN[b.kernel] << (ad ? " adaptive " : " fixed ") << b.bw << " init=" << in << " centred=" << f.centred.back() << "]"; } f.b = f.bs[0]; break; }
    case SCALABLE: f.b = bwFor(f.d, true); f.b.adaptive = true; f.b.bw = s.range(std::min(f.d.n - 1, f.d.k + 6), f.d.n - 1); f.poly = s.range(1, 4); c.desc << " neighbours=" << f.b.bw << " polynomial=" << f.poly; f.autoBw = false; break;
    case GWDA_LDA: case GWDA_QDA: f.b = bwFor(f.d, true); if (f.b.adaptive) f.b.bw = s.range(f.d.n / 2, f.d.n + 5); else f.b.bw = maxDist(f.d) * s.real(0.3, 1.2); break;
    case POISSON: case BINOMIAL: f.b = bwFor(f.d, true); if (f.b.adaptive) f.b.bw = s.range(f.d.n / 2, f.d.n + 5); else f.b.bw = maxDist(f.d) * s.real(0.3, 1.2); break;
    case LCR: f.b = bwFor(f.d, g.safeKernels); f.ridge = s.chance(50) ? s.real(0, 0.3) : 0; f.adjust = s.boolean(); f.cn = s.chance(50) ? 30 : s.real(2, 20); c.desc << " ridge=" << f.ridge << " adjust=" << f.adjust << " cn=" << f.cn; break;
    default: f.b = bwFor(f.d, g.safeKernels); }
    if (alg == GWSS_COR) f.corrFirst = s.boolean(); if (alg == GWSS_AVG) f.quantile = s.boolean(); if (alg == PCA) f.keep = s.range(1, f.d.k);
    bool b = f.autoBw && alg != MULTISCALE && alg != PCA && alg != GWSS_AVG && alg != GWSS_COR && alg != GWDA_LDA && alg != GWDA_QDA; if (!b) f.autoBw = false; if (alg != BASIC && alg != ROBUST && alg != GWDR_) f.autoVar = false;
    c.desc << " hat=" << f.hat << (f.autoBw ? " autobw" : "") << (f.autoVar ? " autovar" : "") << (f.autoLambda ? " autolambda" : "") << (f.cv ? " CV" : " AIC");
    if (f.autoBw) c.label("auto-bandwidth"); if (f.autoVar) c.label("auto-variables");
    return f;
}
struct Res { bool threw = false; std::string what; Out o; Status st = Status::Success; };
inline Res runModel(Model& m) { Res r; try { m.run(); r.o = m.out(); r.st = m.status(); } catch (const std::exception& e) { r.threw = true; r.what = e.what(); } return r; }
} // namespace models
