// C10: the criteria that drive bandwidth and variable selection are those of the fitted models, and the selected model is the fitted model.
#include "models.hpp"
#include "gwmodelpp/BinomialModel.h"
#include "gwmodelpp/GeneralizedLinearModel.h"
#include "gwmodelpp/PoissonModel.h"
using namespace models;
// The criterion checks of the other models are part of this property too.
#include "gwrcheck.hpp"
#define PART
namespace glm_part {
#include "c15.cpp"
}
namespace ridge_part {
#include "c16.cpp"
}
namespace time_part {
#include "c19.cpp"
}
namespace density_part {
#include "c20.cpp"
}
#undef PART
const char* pbt::RULE = "well-conditioned model whose criterion or selected fit was compared (criterion value, every entry of the criterion list, selected bandwidth/variables, refit with the selection specified by hand)";
typedef GWRBasic CB;
// CV and AICc of one bandwidth against the reference.
static void value(Src& s, Case& c) {
    Data d = genData(s, c, 10, 50, 1, 4); Bw b = genBw(s, c, d), cfgB = b; int t = s.range(0, 6); bool cv = s.boolean(); c.desc << (cv ? " CV" : " AIC") << " threads=" << t; if (onEdge(d.D, b)) throw Discard();
    ref::GwrFit g = ref::gwr(d.X, d.Y, refWeights(d.D, b), cv); if (!g.ok || g.maxCond > 1e8L || g.rss < 1e-10L * g.tss) throw Discard(); if (!cv && std::fabs((double)(d.n - 2 - g.trS)) < 0.05) throw Discard(); c.interesting();
    // the object is configured with another bandwidth and kernel than the candidate
    cfgB.bw = b.adaptive ? d.n : b.bw * 2; cfgB.kernel = (BandwidthWeight::KernelFunctionType)s.below(5); CB a; a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); a.setSpatialWeight(sw(cfgB, d.geo)); a.setHasHatMatrix(true); bool early = s.boolean(); if (early) a.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC); if (t > 0) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); } if (!early) a.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC);
    a.createDistanceParameter(); BandwidthWeight w(b.bw, b.adaptive, b.kernel); double v = 0; Status st = a.getCriterion(&w, v); require(st == Status::Success, "status is not Success"); long double amp = 1 + g.tss / std::max(g.rss, 1e-300L), tol = (1e-7L + g.maxCond * 1e-13L) * 10 * amp;
    if (cv) closeTo("CV criterion", v, g.rss, std::min(0.01L, tol)); else closeTo("AICc criterion", v, g.aicc, 1e-6L, std::min(0.5L, d.n * tol * 10 + tol * d.n * 10 / std::pow(std::fabs((double)(d.n - 2 - g.trS)), 2)));
    require(w.bandwidth() == b.bw && w.kernel() == b.kernel && w.adaptive() == b.adaptive, "evaluating a candidate bandwidth changed it"); auto* own = a.spatialWeight().weight<BandwidthWeight>(); require(own->bandwidth() == cfgB.bw && own->kernel() == cfgB.kernel, "evaluating a candidate bandwidth changed the model's own");
}
// Variable criterion: AICc of the global regression on exactly the listed variables.
static void variables(Src& s, Case& c) {
    Data d = genData(s, c, 12, 40, 3, 6); Bw b = genBw(s, c, d); int t = s.range(0, 4); CB a; a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); a.setSpatialWeight(sw(b, d.geo)); if (t > 0) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); }
    std::vector<size_t> vs; for (int j = 1; j < d.k; j++) if (s.boolean()) vs.push_back(j); if (s.boolean()) std::reverse(vs.begin(), vs.end()); c.desc << " threads=" << t << " variables"; for (auto v : vs) c.desc << " " << v; if (vs.empty()) throw Discard(); if (d.n < (int)vs.size() + 5) throw Discard();
    ref::M X(d.n, vs.size() + 1); for (int i = 0; i < d.n; i++) { X(i, 0) = 1; for (size_t j = 0; j < vs.size(); j++) X(i, j + 1) = d.X(i, vs[j]); } ref::V one(d.n, 1); auto L = ref::wls(X, d.Y, one); if (!L.ok || L.cond > 1e8L) throw Discard();
    ref::R rss = 0; for (int i = 0; i < d.n; i++) { ref::R e = d.Y[i]; for (size_t j = 0; j < X.c; j++) e -= X(i, j) * L.beta[j]; rss += e * e; } ref::R N = d.n, k = X.c, want = N * std::log(rss / N) + N * std::log(2 * 3.14159265358979323846264338L) + N * ((N + k) / (N - 2 - k)); c.interesting();
    a.createDistanceParameter(); double v = 0; a.getCriterion(vs, v); closeTo("criterion of the variable set", v, want, 1e-6L, 1e-5L * N); require(a.spatialWeight().weight<BandwidthWeight>()->bandwidth() == b.bw, "scoring variables changed the model's bandwidth");
}
// A fit that selects its bandwidth (and variables) itself is the fit with that selection specified.
static void autoEqualsSpecified(Src& s, Case& c) {
    static const int AL[] = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, GTWR_, GWDR_}; int alg = AL[s.below(7)]; Cfg f = genCfg(s, c, alg); if (alg == GWDR_) { f.autoBw = s.chance(20); } else if (!f.autoBw && !f.autoVar) { if (alg == GTWR_ && f.lambda < 1) throw Discard(); f.autoBw = true; if (f.d.n < 24) throw Discard(); } f.autoLambda = false; f.threads = s.range(0, 3); f.hat = true; if (!f.autoBw && !f.autoVar) throw Discard();
    c.desc << (f.autoBw ? " select-bandwidth" : "") << (f.autoVar ? " select-variables" : "") << " threads=" << f.threads; auto a = make(f); Res r = runModel(*a); if (r.threw) { c.label("selection-fails"); throw Discard(); }
    Cfg g = f; g.autoBw = g.autoVar = false; if (f.autoVar) { const mat* v = r.o.find("selected variables"); if (v && v->n_elem) { std::vector<uword> cs{0}; for (double q : *v) cs.push_back((uword)q); for (size_t i = 1; i < cs.size(); i++) { require(cs[i] >= 1 && cs[i] < (uword)f.d.k, "a selected variable is out of range"); for (size_t j = 1; j < i; j++) require(cs[i] != cs[j], "a variable was selected twice"); } g.d.x = f.d.x.cols(arma::uvec(cs)); g.d.k = cs.size(); c.label("selected " + std::to_string(cs.size() - 1) + " variables"); } }
    if (f.autoBw) { if (alg == GWDR_) { int m = 0; for (auto& p : r.o.m) if (p.first == "bandwidth") g.bs[m++].bw = p.second(0, 0); } else g.b.bw = r.o.find("bandwidth")->at(0, 0); if (alg != GWDR_) { double hi = g.b.adaptive ? f.d.n : maxDist(f.d); if (alg != GTWR_) require(g.b.bw > 0 && g.b.bw <= hi * (1 + 1e-9), "the selected bandwidth " + num(g.b.bw) + " is out of range"); if (g.b.adaptive) require(g.b.bw == std::floor(g.b.bw) && g.b.bw >= 20, "the selected number of neighbours is " + num(g.b.bw)); } }
    require(r.o.find("kernel")->at(0, 0) == (double)f.b.kernel && r.o.find("adaptive")->at(0, 0) == (double)f.b.adaptive, "selection changed the kernel or the type of the bandwidth"); c.interesting();
    auto b = make(g); Res q = runModel(*b); require(!q.threw, "the selected model cannot be fitted when specified by hand: " + q.what); Out A, B; for (auto& p : r.o.m) if (p.first != "criterion list" && p.first != "selected variables") A.m.push_back(p); for (auto& p : q.o.m) if (p.first != "criterion list" && p.first != "selected variables") B.m.push_back(p);
    std::string e = diff(A, B, 1e-7); require(e.empty(), "selected and specified fits differ: " + e);
}
// Every entry of the reported criterion list is the criterion of that bandwidth, and the chosen one is the best of them.
static void list(Src& s, Case& c) {
    static const int AL[] = {BASIC, LCR, POISSON, BINOMIAL, GTWR_}; int alg = AL[s.below(5)]; GenOpt o; o.nlo = 24; Cfg f = genCfg(s, c, alg, o); if (alg == GTWR_ && f.lambda < 1) throw Discard(); f.autoBw = true; f.autoVar = f.autoLambda = false; f.hat = true; f.threads = s.range(0, 3); c.desc << " threads=" << f.threads;
    auto a = make(f); Res r = runModel(*a); if (r.threw) { throw Discard(); } const mat& L = *r.o.find("criterion list"); require(L.n_rows > 0, "the criterion list is empty after a selection"); c.interesting(); double chosen = r.o.find("bandwidth")->at(0, 0); Cfg g = f; g.autoBw = false; g.b.bw = chosen; auto b = make(g); runModel(*b);
    double best = DBL_MAX, bestBw = 0; for (uword i = 0; i < L.n_rows; i++) { if (i) require(L(i, 0) > L(i - 1, 0), "the criterion list is not sorted by bandwidth or lists one twice"); if (L(i, 1) < best) { best = L(i, 1); bestBw = L(i, 0); } }
    if (best == DBL_MAX) { c.label("nothing acceptable"); return; } double cc = DBL_MAX; { Bw q = f.b; q.bw = chosen; cc = b->criterion({q}); } if (!f.b.adaptive) require(cc <= best + std::fabs(best) * 1e-4 + 1e-9 || std::fabs(chosen - bestBw) < 1e-3 * (maxDist(f.d) + 1e-9), "the chosen bandwidth " + num(chosen) + " scores " + num(cc) + " but " + num(bestBw) + " scores " + num(best));
    for (uword i = 0; i < L.n_rows; i += 1 + L.n_rows / 5) { Bw q = f.b; q.bw = L(i, 0); double v = b->criterion({q}); if (L(i, 1) == DBL_MAX || v == DBL_MAX) { require(L(i, 1) == v, "listed criterion " + num(L(i, 1)) + " of bandwidth " + num(q.bw) + " but it evaluates to " + num(v)); c.label("rejected-entry"); } else closeTo("listed criterion of bandwidth " + num(q.bw), L(i, 1), v, 1e-6L, 1e-6L); }
}
int main(int argc, char** argv) {
    pbt::add("value", 15000, 200000, value);
    pbt::add("variables", 10000, 100000, variables);
    pbt::add("auto-equals-specified", 9000, 60000, autoEqualsSpecified);
    pbt::add("criterion-list", 6000, 30000, list);
    pbt::add("value-generalized", 4000, 60000, glm_part::criterion);
    pbt::add("value-ridge", 4000, 60000, ridge_part::cv);
    pbt::add("value-space-time", 2000, 30000, time_part::criterion);
    pbt::add("value-density", 2000, 30000, density_part::criterion);
    pbt::add("variables-density", 1000, 15000, density_part::variables);
    return pbt::mainImpl(argc, argv);
}
