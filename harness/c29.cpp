// C29: duplicating every observation changes the results only as the duplication predicts, whatever the size of the data.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "both runs succeed, the small model keeps at least one degree of freedom and its local systems are not nearly singular (a perturbation by 6e-14 changes its coefficients by less than 1e-9)";
static Cfg dup(const Cfg& f, int m) {
    Cfg g = f; g.d.n *= m; g.d.coords = arma::repmat(f.d.coords, m, 1); g.d.x = arma::repmat(f.d.x, m, 1); g.d.y = arma::repmat(f.d.y, m, 1); if (f.times.n_elem) g.times = arma::repmat(f.times, m, 1); auto gr = f.groups; for (int i = 1; i < m; i++) g.groups.insert(g.groups.end(), gr.begin(), gr.end());
    auto grow = [&](Bw& b) { if (b.adaptive) b.bw *= m; }; grow(g.b); for (auto& b : g.bs) grow(b); return g;
}
static bool steady(const Cfg& f, const Out& o) { Cfg g = f; Rng r(f.d.seed + 77); for (auto& v : g.d.y) v *= 1 + 6e-14 * (r.unit() - 0.5); for (size_t i = 0; i < g.d.x.n_elem; i++) if (g.d.x(i) != 1 && f.alg != GTWR_) g.d.x(i) *= 1 + 6e-14 * (r.unit() - 0.5); auto m = make(g); Res e = runModel(*m); if (e.threw) return false; auto *a = o.find("betas"), *b = e.o.find("betas"); return !a || arma::approx_equal(*a, *b, "both", 1e-9 * (1e-3 + arma::abs(*a).max()), 1e-9); }
static void same(const std::string& n, const mat& a, const mat& b, double rel) { Out x, y; x.add(n, a); y.add(n, b); std::string e = diff(x, y, rel); require(e.empty(), e); }
static double val(const Out& o, const char* n) { auto p = o.find(n); return p ? p->at(0, 0) : NAN; }
static void close(const char* n, double got, double want, double tol) { if (!std::isfinite(want)) return; require(std::fabs(got - want) <= tol, std::string(n) + ": " + num(got) + ", predicted " + num(want)); }
static void compare(const Cfg& f, const Out& a, const Out& b, int m, Case& c, double rel) {
    int n = f.d.n; double N = (double)n * m; auto rows = [&](const char* nm) { auto *p = a.find(nm), *q = b.find(nm); if (!p || !p->n_rows || (int)p->n_rows != n) return; same(nm, arma::repmat(*p, m, 1), *q, rel); };
    if (f.alg == GWSS_AVG) { rows("mean"); rows("sdev"); rows("var"); rows("skewness"); rows("cv"); return; } if (f.alg == GWSS_COR) { rows("mean"); rows("sdev"); rows("corr"); return; }
    if (f.alg == PCA) { rows("pv"); return; }
    rows("betas"); double rss = val(a, "RSS"), scale = arma::accu(arma::square(f.d.y)); if (f.alg == POISSON || f.alg == BINOMIAL) { close("deviance of the global model", val(b, "glm dev"), m * val(a, "glm dev"), 1e-4 * N); close("null deviance", val(b, "glm null dev"), m * val(a, "glm null dev"), 1e-7 * N); close("pseudo R2 of the global model", val(b, "glm R2"), val(a, "glm R2"), 1e-4); if (!f.hat) return; double dev = val(a, "RSS"), trS = (val(a, "AIC") - dev) / 2; close("deviance", val(b, "RSS"), m * dev, 1e-5 * (N + m * std::fabs(dev))); close("AIC", val(b, "AIC"), m * dev + 2 * trS, 1e-5 * (N + m * std::fabs(dev))); if (N - trS - 1 > 1) close("AICc", val(b, "AICc"), m * dev + 2 * trS + 2 * trS * (trS + 1) / (N - trS - 1), 1e-5 * (N + m * std::fabs(dev)) * 10); close("pseudo R2", val(b, "R2"), val(a, "R2"), 1e-4); return; }
    close("RSS", val(b, "RSS"), m * rss, rel * m * (rss + 1e-3 * scale)); close("R2", val(b, "R2"), val(a, "R2"), rel * 10); if (!f.hat) return; c.label("diagnostics");
    if (f.alg == LCR) { double p = val(a, "ENP"), q = m * rss / (N - p), at = rel * 1000 * N * (1 + std::fabs(p)); close("AIC", val(b, "AIC"), N * (std::log(2 * M_PI * q) + 1) + 2 * (p + 1), at); close("AICc", val(b, "AICc"), N * std::log(2 * M_PI * q) + N * (1 + p / N) / (1 - (p + 2) / N), at); close("adjusted R2", val(b, "R2adj"), 1 - (1 - val(a, "R2")) * (N - 1) / (N - p), rel * 1000); close("ENP", val(b, "ENP"), p, rel * 100 * n); close("EDF", val(b, "EDF"), N - p, rel * 100 * N); return; } double enp = val(a, "ENP"), edf = N - enp, trS, s2 = rss / n; if (rss < 1e-9 * scale) return; bool hasS = a.find("sHat") != nullptr; trS = hasS ? a.find("sHat")->at(0) : val(a, "AIC") - n * std::log(s2) - n * std::log(2 * M_PI) - n; double t = rel * 100 * (1 + std::fabs(trS)) * N;
    if (hasS) { same("sHat", arma::vectorise(*a.find("sHat")), arma::vectorise(*b.find("sHat")), rel * 10); }
    close("ENP", val(b, "ENP"), enp, rel * 100 * n); close("EDF", val(b, "EDF"), edf, rel * 100 * N); close("AIC", val(b, "AIC"), N * std::log(s2) + N * std::log(2 * M_PI) + N + trS, t); if (N - 2 - trS > 1) close("AICc", val(b, "AICc"), N * std::log(s2) + N * std::log(2 * M_PI) + N * ((N + trS) / (N - 2 - trS)), t * 10); if (edf > 1.5) close("adjusted R2", val(b, "R2adj"), 1 - (1 - val(a, "R2")) * (N - 1) / (edf - 1), rel * 1000);
    if (hasS) { double e0 = n - enp, f2 = (m * rss / edf) / (rss / e0) / m; if (e0 > 0.5) same("betasSE", arma::repmat(mat(*a.find("betasSE") * std::sqrt(f2)), m, 1), *b.find("betasSE"), rel * 10); auto* S = a.find("S"); if (S) { vec q(n); q.fill(0); // q(i): sum over j of (delta - s_ji)^2
            for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) q(i) += S->at(j, i) * S->at(j, i) / m; for (int i = 0; i < n; i++) q(i) += 1 - 2 * S->at(i, i) / m; mat Q = arma::repmat(q, m, 1), G = arma::vectorise(*b.find("qDiag")); same("qDiag", Q, G, rel * 10); } }
}
static void run(const Cfg& f, int m, Case& c, double rel) { auto A = make(f); Res a = runModel(*A); if (a.threw) throw Discard(); auto* e = a.o.find("EDF"); if (e && f.hat && e->at(0, 0) < 1) throw Discard(); if (!steady(f, a.o)) throw Discard(); Cfg g = dup(f, m); auto B = make(g); Res b = runModel(*B); require(!b.threw, "fails on the duplicated data: " + b.what); require(b.st == Status::Success, "status"); c.interesting(); compare(f, a.o, b.o, m, c, rel); }
static void small(Src& s, Case& c) {
    static const int pick[] = {BASIC, BASIC, BASIC, LCR, POISSON, BINOMIAL, GTWR_, GTWR_, GWDR_, GWDR_, LCR, GWSS_AVG, GWSS_COR, PCA}; GenOpt g; g.autos = false; g.nhi = 26; Cfg f = genCfg(s, c, pick[s.below(14)], g); f.ridge = 0; f.adjust = false; f.b.bw = f.b.adaptive ? std::max(1.0, std::floor(f.b.bw)) : f.b.bw; if (onEdge(f.d.D, f.b)) throw Discard();
    int m = s.range(2, 5); f.threads = hasOmp(f.alg) && s.chance(50) ? s.range(1, 4) : 0; c.desc << " copies=" << m << " threads=" << f.threads; c.label(f.threads ? "openmp" : "serial"); run(f, m, c, f.alg == POISSON || f.alg == BINOMIAL ? 1e-5 : 1e-7);
}
static void large(Src& s, Case& c) {
    static const int pick[] = {BASIC, BASIC, GTWR_, GWDR_}; GenOpt g; g.autos = false; g.nlo = 16; g.nhi = 30; g.geo = false; Cfg f = genCfg(s, c, pick[s.below(4)], g); f.hat = true; f.b.bw = f.b.adaptive ? std::max(1.0, std::floor(f.b.bw)) : f.b.bw; if (onEdge(f.d.D, f.b)) throw Discard();
    int m = (8191 + f.d.n) / f.d.n + (int)s.below(3); f.threads = s.boolean() ? s.range(2, 4) : 0; c.desc << " copies=" << m << " threads=" << f.threads; c.label(f.threads ? "openmp" : "serial"); c.label("n=" + std::to_string(f.d.n * m / 1000) + "xxx"); run(f, m, c, 1e-6);
}
int main(int argc, char** argv) { pbt::add("small", 2500, 60000, small); pbt::add("large", 8, 200, large); return pbt::mainImpl(argc, argv); }
