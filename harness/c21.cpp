// C21: geographically weighted discriminant analysis against a long-double reference of scores, classes, probabilities, entropy and hit rate.
#include "models.hpp"
using namespace models; using ref::R; using ref::V; using ref::M;
const char* pbt::RULE = "at least two groups whose local moments all exist (every group has more than k weighted members everywhere and its covariance has condition number below 1e7), fitted and compared entry by entry";
// Unbiased weighted covariance and mean of the rows listed in id.
static bool moments(const Data& d, const std::vector<int>& id, const V& w, V& mean, M& cov) {
    R sw = 0, s2 = 0; int pos = 0; for (int i : id) { sw += w[i]; s2 += w[i] * w[i]; pos += w[i] > 0; } if (!(sw > 1e-12L) || pos <= d.k) return false;
    mean.assign(d.k, 0); for (int i : id) for (int j = 0; j < d.k; j++) mean[j] += w[i] * d.X(i, j) / sw;
    cov = M(d.k, d.k); R f = 1 / (1 - s2 / (sw * sw)); if (!(f < 1e5L)) return false; for (int i : id) for (int a = 0; a < d.k; a++) for (int b = 0; b < d.k; b++) cov(a, b) += f * w[i] / sw * (d.X(i, a) - mean[a]) * (d.X(i, b) - mean[b]); return true;
}
static R norm2(const M& A) { V v; M e; ref::jacobi(A, v, e); R m = 0; for (auto x : v) m = std::max(m, std::fabs(x)); return m; }
struct Problem { Data d; Bw b; std::vector<std::string> g, lev; std::vector<std::vector<int>> id; bool qda, hc, hm, hp; };
static Problem gen21(Src& s, Case& c) {
    Problem p; Data& d = p.d; d = genData(s, c, 14, 70, 2, 4); int m = s.range(2, 4); p.qda = s.boolean(); p.hc = !s.chance(30); p.hm = !s.chance(30); p.hp = !s.chance(30); Rng r(d.seed + 77); double sep = s.chance(50) ? 0.5 : 2; bool skew = s.chance(30), far = s.chance(25);
    static const char* NM[] = {"b", "a", "class 3", ""}; std::vector<double> mu(m * d.k); for (auto& x : mu) x = sep * r.normal();
    for (int i = 0; i < d.n; i++) { int q = (int)r.below(m); if (skew && r.unit() < 0.4) q = 0; p.g.push_back(NM[q]); for (int j = 0; j < d.k; j++) d.x(i, j) = (j + 1) * (r.normal() * (1 + 0.3 * q) + mu[q * d.k + j] + (far ? 40 : 0)) + (j ? 0.4 * d.x(i, j - 1) : 0.0); } d.X = M::from(d.x);
    for (int i = 0; i < d.n; i++) { auto it = std::find(p.lev.begin(), p.lev.end(), p.g[i]); if (it == p.lev.end()) { p.lev.push_back(p.g[i]); p.id.push_back({i}); } else p.id[it - p.lev.begin()].push_back(i); } if (p.lev.size() < 2) throw Discard();
    p.b = genBw(s, c, d); bool cp = p.b.kernel >= 2; if (cp) { if (p.b.adaptive) p.b.bw = s.range((int)(0.7 * d.n), (int)(1.5 * d.n)); else p.b.bw = maxDist(d) * s.real(0.6, 1.6); c.desc << " -> bw=" << p.b.bw; } if (!p.b.adaptive && !(p.b.bw > 0)) throw Discard(); if (onEdge(d.D, p.b)) throw Discard();
    c.desc << " groups=" << p.lev.size() << (p.qda ? " QDA" : " LDA") << " cov=" << p.hc << " mean=" << p.hm << " prior=" << p.hp << " separation=" << sep << (far ? " offset variables" : "") << (skew ? " unbalanced" : ""); c.label(p.qda ? "QDA" : "LDA"); if (!p.hc || !p.hm || !p.hp) c.label("some global moments"); return p;
}
// A weight just inside or outside a compact kernel is zero or not depending on rounding.
static bool nearEdge(const Problem& p, int i) { R e = p.b.adaptive ? ref::adaptiveDistance(p.d.D[i], p.b.bw) : (R)p.b.bw; for (auto v : p.d.D[i]) if (std::fabs(v - e) < 1e-7L * e) return true; return false; }
// Scores of every location for every group; discards problems whose moments do not exist or are ill-conditioned.
static void reference(Problem& p, M& score, R& worst) {
    Data& d = p.d; int n = d.n, m = (int)p.lev.size(); auto W = refWeights(d.D, p.b); for (int i = 0; i < n; i++) { for (auto v : d.D[i]) if (!std::isfinite((double)v)) throw Discard(); for (auto v : W[i]) if (!std::isfinite((double)v)) throw Discard(); W[i][i] = 0; }
    score = M(n, m); R total = 0; worst = 0; for (auto& w : W) for (auto v : w) total += v; V one(n, 1); std::vector<V> mean1(m); std::vector<M> cov1(m); for (int g = 0; g < m; g++) if (!moments(d, p.id[g], one, mean1[g], cov1[g])) throw Discard();
    for (int i = 0; i < n; i++) { std::vector<V> mu(m); std::vector<M> cv(m); V pr(m, 0); for (int g = 0; g < m; g++) { V a, e; M b, q; bool need = p.hm || p.hc; if (need && !moments(d, p.id[g], W[i], a, b)) throw Discard(); mu[g] = p.hm ? a : mean1[g]; cv[g] = p.hc ? b : cov1[g]; if (p.hp) { for (int j : p.id[g]) pr[g] += W[i][j]; if (pr[g] < 1e-7L && (pr[g] > 0 || nearEdge(p, i))) throw Discard(); pr[g] /= total; } else pr[g] = (R)p.id[g].size() / ((R)n * n); }
        if (!p.qda) { M pool(d.k, d.k); for (int g = 0; g < m; g++) for (size_t z = 0; z < pool.a.size(); z++) pool.a[z] += cv[g].a[z] * p.id[g].size() / n; for (auto& q : cv) q = pool; }
        for (int g = 0; g < m; g++) { M Ai; if (!ref::inv(cv[g], Ai)) throw Discard(); R cn = ref::cond(cv[g], Ai); worst = std::max(worst, cn); if (cn > 1e7L) throw Discard(); R q = 0; for (int a = 0; a < d.k; a++) for (int b = 0; b < d.k; b++) q += (d.X(i, a) - mu[g][a]) * Ai(a, b) * (d.X(i, b) - mu[g][b]); score(i, g) = m / 2.0L * std::log(norm2(cv[g])) + q / 2 - std::log(pr[g]); } }
}
static void analyse(Src& s, Case& c) {
    Problem p = gen21(s, c); Data& d = p.d; int n = d.n, m = (int)p.lev.size(), t = s.range(0, 5); c.desc << " threads=" << t;
    M score; R worst; reference(p, score, worst);
    c.interesting(); GWDA a(d.x, d.coords, sw(p.b, d.geo)); std::vector<std::string> gg = p.g; a.setGroup(gg); a.setIsWqda(p.qda); a.setHascov(p.hc); a.setHasmean(p.hm); a.setHasprior(p.hp); if (t) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(t); c.label("openmp"); } require(a.isValid(), "a consistent analysis is reported invalid");
    for (int rep = 0; rep < 1 + (int)s.chance(15); rep++) { a.run(); require(a.status() == Status::Success, "status is not Success"); const mat& L = a.res(); require((int)L.n_rows == n && (int)L.n_cols == m && (int)a.probs().n_rows == n && (int)a.probs().n_cols == m && (int)a.pmax().n_elem == n && (int)a.entropy().n_elem == n && (int)a.group().size() == n, "shape of the results"); R tol = 1e-9L + worst * 1e-13L; int hit = 0; bool sure = true;
        for (int i = 0; i < n; i++) { R lo = INFINITY, mag = 1; int best = 0; for (int g = 0; g < m; g++) { R e = score(i, g); std::string at = " at location " + std::to_string(i) + " for group " + std::to_string(g); if (std::isinf((double)e)) { require(std::isinf(L(i, g)) && L(i, g) > 0, "a group without any local weight has score " + num(L(i, g)) + at); c.label("group absent locally"); continue; } closeTo("score" + at, L(i, g), e, tol, tol * 10); mag = std::max(mag, std::fabs(e)); if (e < lo) { lo = e; best = g; } }
            if (!std::isfinite((double)lo)) throw Discard(); R z = 0, ent = 0; V pr(m); for (int g = 0; g < m; g++) z += std::exp(lo - score(i, g)); R et = 1e-10L + 20 * tol * mag; for (int g = 0; g < m; g++) { pr[g] = std::exp(lo - score(i, g)) / z; if (pr[g] > 0) ent -= pr[g] * std::log2(pr[g]); closeTo("probability at location " + std::to_string(i) + " of group " + std::to_string(g), a.probs()(i, g), pr[g], 0, et); } closeTo("largest probability at location " + std::to_string(i), a.pmax()(i), 1 / z, 0, et); closeTo("entropy at location " + std::to_string(i), a.entropy()(i), ent / std::log2((R)m), 0, 60 * et); require(a.entropy()(i) >= 0 && a.entropy()(i) <= 1 + 1e-12, "entropy outside [0,1]");
            bool tie = false; for (int g = 0; g < m; g++) if (g != best && score(i, g) - lo < 1e-6L * mag) tie = true; if (tie) sure = false; else require(a.group()[i] == p.lev[best], "location " + std::to_string(i) + " is classified as '" + a.group()[i] + "', its smallest score is that of '" + p.lev[best] + "'"); hit += a.group()[i] == p.g[i]; }
        closeTo("rate of correct classifications", a.correctRate(), (R)hit / n, 1e-12L); if (sure) c.label("all classes decided"); if (hit < n) c.label("some misclassified"); }
}
// Group names carry no meaning: renaming and the order in which groups first appear do not matter; nor does the unit of any variable for the classes' probabilities up to the scale term.
static void renaming(Src& s, Case& c) {
    Problem p = gen21(s, c); Data& d = p.d; { M score; R worst; reference(p, score, worst); if (worst > 1e5L) throw Discard(); } auto run = [&](const mat& x, const mat& xy, const std::vector<std::string>& g) { std::unique_ptr<GWDA> a(new GWDA(x, xy, sw(p.b, d.geo))); std::vector<std::string> q = g; a->setGroup(q); a->setIsWqda(p.qda); a->setHascov(p.hc); a->setHasmean(p.hm); a->setHasprior(p.hp); a->run(); return a; };
    std::map<std::string, std::string> nm; for (size_t i = 0; i < p.lev.size(); i++) nm[p.lev[i]] = "g" + std::to_string((i * 7 + 3) % 5); auto A = run(d.x, d.coords, p.g); if (!A->res().is_finite()) throw Discard(); for (auto& w : refWeights(d.D, p.b)) { R z = 0; for (auto v : w) z += v; if (!(z > 0)) throw Discard(); }
    arma::uvec o(d.n); for (int i = 0; i < d.n; i++) o(i) = i; Rng r(d.seed + 5); for (int i = d.n - 1; i > 0; i--) std::swap(o(i), o(r.below(i + 1))); std::vector<std::string> g2; for (int i = 0; i < d.n; i++) g2.push_back(nm[p.g[o(i)]]); std::vector<std::string> l2; for (auto& x : g2) if (std::find(l2.begin(), l2.end(), x) == l2.end()) l2.push_back(x); auto B = run(mat(d.x.rows(o)), mat(d.coords.rows(o)), g2); c.interesting(); double big = arma::abs(A->res()).max(); if (big > 1e6) throw Discard();
    std::vector<size_t> map; for (auto& l : p.lev) map.push_back(std::find(l2.begin(), l2.end(), nm[l]) - l2.begin()); int same = 0; for (int i = 0; i < d.n; i++) { for (size_t g = 0; g < p.lev.size(); g++) closeTo("probability of location " + std::to_string(o(i)) + " after reordering and renaming", B->probs()(i, map[g]), A->probs()(o(i), g), 0, 1e-6L); arma::rowvec q = arma::sort(arma::rowvec(A->res().row(o(i)))); if (q(1) - q(0) > 1e-6 * (1 + big)) require(B->group()[i] == nm[A->group()[o(i)]], "class of location " + std::to_string(o(i)) + " changes with the order of the rows"); else same++; } if (!same) closeTo("rate of correct classifications", B->correctRate(), A->correctRate(), 1e-12L);
}
static void helpers(Src& s, Case& c) {
    int n = s.range(3, 40), k = s.range(2, 4); Rng r(s.seed()); bool z = s.chance(30); mat x(n, k); vec w(n); for (int i = 0; i < n; i++) { w(i) = z && r.unit() < 0.3 ? 0 : r.unit(); for (int j = 0; j < k; j++) x(i, j) = 3 * r.normal() + 2; } R sw_ = 0, s2 = 0; for (auto v : w) { sw_ += v; s2 += (R)v * v; } if (sw_ * sw_ - s2 < 1e-3L * sw_ * sw_ || !(sw_ > 0)) throw Discard(); c.desc << "n=" << n << " k=" << k << (z ? " some weights zero" : ""); c.interesting();
    auto cov = [&](int a, int b) { R ma = 0, mb = 0, q = 0; for (int i = 0; i < n; i++) { ma += w(i) * (R)x(i, a) / sw_; mb += w(i) * (R)x(i, b) / sw_; } for (int i = 0; i < n; i++) q += w(i) / sw_ * ((R)x(i, a) - ma) * ((R)x(i, b) - mb); return q / (1 - s2 / (sw_ * sw_)); }; mat C = GWDA::covwtmat(x, w); vec wn = w / arma::accu(w); for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) { R e = cov(a, b), sc = std::sqrt(cov(a, a) * cov(b, b)); closeTo("weighted covariance matrix", C(a, b), e, 1e-9L, 1e-9L * sc); closeTo("weighted covariance", GWDA::covwt(x.col(a), x.col(b), wn), e, 1e-9L, 1e-9L * sc); closeTo("weighted correlation", GWDA::corwt(x.col(a), x.col(b), wn), e / sc, 1e-9L, 1e-9L); }
}
int main(int argc, char** argv) { pbt::add("analyse", 12000, 200000, analyse); pbt::add("renaming", 3000, 50000, renaming); pbt::add("helpers", 8000, 100000, helpers); return pbt::mainImpl(argc, argv); }
