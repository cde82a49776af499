// C05: forward selection of variables.
#include "gen.hpp"
#include "gwmodelpp/VariableForwardSelector.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwrcheck.hpp"
using namespace gen; using namespace gwm;
#define PART
namespace density_part {
#include "c20.cpp"
}
#undef PART
const char* pbt::RULE = "at least 3 candidate variables (at least 6 candidate models)";
typedef std::vector<size_t> VS;
static std::string show(const VS& v) { std::string s = "{"; for (auto x : v) s += std::to_string(x) + ","; return s + "}"; }
struct Crit : IVarialbeSelectable {
    uint32_t seed; int kind; long calls = 0, stopAt = -1; std::vector<std::pair<VS, double>> seen; int rejectPct = 0;
    double f(const VS& v) const { VS t = v; std::sort(t.begin(), t.end()); uint64_t h = pbt::fnv(t.data(), t.size() * sizeof(size_t), seed * 2654435761u + 17); if ((int)(pbt::splitmix(h) % 100) < rejectPct) return DBL_MAX; double u = (double)(pbt::splitmix(h) >> 11) / 9007199254740992.0;
        double base = 0; for (auto x : t) { uint64_t g = seed + 31 * x; base -= 20.0 * (double)(pbt::splitmix(g) % 1000) / 1000; } return kind == 0 ? 100 * u : kind == 1 ? 500 + base + u : kind == 2 ? 300 + 7.0 * t.size() + u : 200 + base + 9.0 * t.size() + u; }
    Status getCriterion(const VS& v, double& c) override { long k = calls++; c = f(v); if (stopAt >= 0 && k >= stopAt) { c = DBL_MAX; return Status::Terminated; } seen.push_back({v, c}); return Status::Success; }
    VS selectedVariables() override { return {}; }
};
// The documented procedure: at each step add the best remaining variable; models of one step are listed from worst to best;
// the chosen model is the last listed one that improves on its predecessor by at least the threshold, or the last one.
struct Ref { std::vector<std::pair<VS, double>> models; VS chosen; bool ties = false; std::vector<VS> evaluated; };
template <class F> static Ref forward(const VS& vars, double thr, F f) {
    Ref r; VS cur, rest = vars;
    while (!rest.empty()) { std::vector<std::pair<VS, double>> step; size_t best = 0; for (size_t j = 0; j < rest.size(); j++) { VS t = cur; t.push_back(rest[j]); step.push_back({t, f(t)}); r.evaluated.push_back(t); if (step[j].second < step[best].second) best = j; }
        cur.push_back(rest[best]); rest.erase(rest.begin() + best); std::stable_sort(step.begin(), step.end(), [](auto& a, auto& b) { return a.second > b.second; }); for (size_t j = 1; j < step.size(); j++) if (step[j].second == step[j - 1].second) r.ties = true; for (auto& m : step) r.models.push_back(m); }
    r.chosen = r.models.back().first; for (size_t i = r.models.size() - 1; i > 0; i--) if (r.models[i - 1].second - r.models[i].second >= thr) { r.chosen = r.models[i].first; break; }
    return r;
}
static void search(Src& s, Case& c) {
    int k = s.range(1, 9); VS vars; size_t v = s.below(3); for (int i = 0; i < k; i++) { vars.push_back(v); v += 1 + s.below(3); } if (s.chance(30)) std::reverse(vars.begin(), vars.end());
    Crit q; q.seed = s.seed(); q.kind = s.range(0, 3); if (s.chance(20)) q.rejectPct = s.range(5, 60); static const double T[] = {3, 0.5, 10, 60, 1000}; double thr = T[s.below(5)]; bool cancel = s.chance(15); if (cancel) q.stopAt = s.range(0, k * (k + 1) / 2 - 1);
    c.desc << k << " variables " << show(vars) << " threshold " << thr << " kind " << q.kind << " rejected " << q.rejectPct << "% cancelAt " << q.stopAt; c.interesting(k >= 3);
    VariableForwardSelector sel(vars, thr); if (s.boolean()) { sel = VariableForwardSelector(); sel.setIndepVars(vars); sel.setThreshold(thr); } require(sel.indepVars() == vars && sel.threshold() == thr, "configuration read back");
    VS got = sel.optimize(&q); require(sel.indepVars() == vars, "the candidate variables were modified");
    if (cancel) { require(got == vars, "a cancelled selection must keep all variables, got " + show(got)); require(q.calls <= q.stopAt + 1, "selection went on after it was cancelled"); c.label("cancelled"); return; }
    Ref r = forward(vars, thr, [&](const VS& t) { return q.f(t); });
    require(q.calls == k * (k + 1) / 2, "number of evaluated models is " + std::to_string(q.calls)); auto list = sel.indepVarsCriterion(); require(list.size() == r.models.size(), "length of the criterion list");
    std::set<std::set<size_t>> A, B; for (auto& t : q.seen) A.insert(std::set<size_t>(t.first.begin(), t.first.end())); for (auto& t : r.evaluated) B.insert(std::set<size_t>(t.begin(), t.end()));
    if (!r.ties) { c.label("exact"); require(A == B, "the evaluated models are not those of forward selection");
        for (size_t i = 0; i < list.size(); i++) require(list[i].first == r.models[i].first && list[i].second == r.models[i].second, "criterion list entry " + std::to_string(i) + " is " + show(list[i].first) + "=" + num(list[i].second) + ", expected " + show(r.models[i].first) + "=" + num(r.models[i].second));
        require(got == r.chosen, "selected " + show(got) + ", expected " + show(r.chosen)); }
    std::set<size_t> u(got.begin(), got.end()); require(u.size() == got.size() && !got.empty(), "selected variables are not distinct"); for (auto x : got) require(std::find(vars.begin(), vars.end(), x) != vars.end(), "a variable that is no candidate was selected");
    size_t tag = 0; for (int i = k; i > 0; i--) { for (int j = 0; j < i; j++) { require(list[tag + j].first.size() == (size_t)(k - i + 1), "models are not grouped by size"); if (j) require(list[tag + j - 1].second >= list[tag + j].second, "models of one size are not listed from worst to best"); require(list[tag + j].second == q.f(list[tag + j].first), "listed criterion is not that model's"); } tag += i; }
}
// In GWR: the criterion is the AICc of the global model, the rest of the fit uses exactly the selected columns.
static void inModel(Src& s, Case& c) {
    Data d = genData(s, c, 12, 50, 2, 6, false, {0, 2, 4}); bool icept = !s.chance(25); Rng r(d.seed + 5); int drop = s.range(0, d.k - 1); vec yy(d.n, arma::fill::zeros); if (!icept) for (int i = 0; i < d.n; i++) d.x(i, 0) = r.normal(); for (int j = 0; j < d.k; j++) yy += (j == drop ? 0.0 : r.real(-2, 2)) * d.x.col(j); for (auto& v : yy) v += 0.7 * r.normal(); d.y = yy; int zero = d.k - icept >= 2 && s.chance(20) ? s.range((int)icept, d.k - 1) : -1; if (zero >= 0) { d.x.col(zero).zeros(); c.desc << " zero column " << zero; c.label("unfittable candidate"); } d.X = ref::M::from(d.x); d.Y = ref::vfrom(d.y);
    Bw b = genBw(s, c, d); if (onEdge(d.D, b)) throw Discard(); static const double T[] = {3, 0.5, 15}; double thr = T[s.below(3)]; bool omp = s.boolean(), autoBw = s.chance(20) && d.n > 26; int th = s.range(1, 6); c.desc << " threshold=" << thr << " intercept=" << icept << (omp ? " omp" : " serial") << (autoBw ? " +bandwidth" : ""); c.interesting(d.k - icept >= 3);
    VS vars; for (int j = icept; j < d.k; j++) vars.push_back(j);
    auto design = [&](const VS& t) { mat x(d.n, t.size() + icept); if (icept) x.col(0) = d.x.col(0); for (size_t j = 0; j < t.size(); j++) x.col(j + icept) = d.x.col(t[j]); return x; };
    bool bad = false; auto crit = [&](const VS& t) -> double { if (zero >= 0 && std::count(t.begin(), t.end(), (size_t)zero)) return DBL_MAX; ref::M X = ref::M::from(design(t)); ref::V one(d.n, 1); std::vector<ref::V> W(d.n, one); ref::GwrFit g = ref::gwr(X, d.Y, W); if (!g.ok || g.maxCond > 1e8L || g.rss < 1e-8L * g.tss || d.n - 2 - g.trS < 0.5) bad = true; return (double)g.aicc; };
    Ref R = forward(vars, thr, crit); if (bad) throw Discard();
    for (size_t i = 1; i < R.models.size(); i++) { double g = R.models[i - 1].second - R.models[i].second; if (std::fabs(g - thr) < 1e-5 || std::fabs(g) < 1e-7) throw Discard(); }
    if (zero >= 0 && std::count(R.chosen.begin(), R.chosen.end(), (size_t)zero)) throw Discard();
    GWRBasic a(d.x, d.y, d.coords, sw(b, false), true, icept); a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(thr); if (autoBw) a.setIsAutoselectBandwidth(true); if (omp) { a.setParallelType(OpenMP); a.setOmpThreadNum(th); }
    mat betas; if (throws([&] { betas = a.fit(); })) throw Discard();
    require(a.selectedVariables() == R.chosen, "selected " + show(a.selectedVariables()) + ", expected " + show(R.chosen)); auto list = a.indepVarsSelectionCriterionList(); require(list.size() == R.models.size(), "criterion list length");
    for (size_t i = 0; i < list.size(); i++) { require(list[i].first == R.models[i].first, "model " + std::to_string(i) + " is " + show(list[i].first) + ", expected " + show(R.models[i].first)); closeTo("AICc of " + show(list[i].first), list[i].second, R.models[i].second, 1e-7L, 1e-6L); }
    Bw t = b; if (autoBw) t.bw = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); mat xs = design(R.chosen); GWRBasic e(xs, d.y, d.coords, sw(t, false), true, icept); mat eb = e.fit(); matClose("coefficients equal those of the selected columns", betas, eb, 1e-7L); require(a.independentVariables().n_cols == xs.n_cols, "design matrix after selection");
    closeTo("RSS after selection", a.diagnostic().RSS, e.diagnostic().RSS, 1e-7L); closeTo("AICc after selection", a.diagnostic().AICc, e.diagnostic().AICc, 1e-7L, 1e-7L);
}
int main(int argc, char** argv) {
    pbt::add("search", 20000, 400000, search);
    pbt::add("in-model", 3000, 60000, inModel);
    pbt::add("in-density-model", 2000, 40000, density_part::variables);
    return pbt::mainImpl(argc, argv);
}
