// C11: equivariance — results follow from the data themselves, not from the order of observations and variables, the units, the origin or orientation of the map, or observations out of reach.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "the transformation changes the input (order, units, map, response, variables or an observation out of reach) of a problem that is numerically stable (input noise of 6e-14 changes no result by more than 1e-9), and both runs give results, which are compared value by value after mapping";
static double pw2(Src& s) { int e = s.range(1, 12); return std::pow(2.0, s.boolean() ? e : -e); }
static bool reg(int a) { return a <= GWDR_ || a == MULTISCALE || a == SCALABLE; }
static bool linear(int a) { return a == BASIC || a == ROBUST || a == LCR || a == GTWR_ || a == GWDR_; }
// How the results of the transformed problem follow from those of the original one.
struct Map { bool rows = false; arma::uvec perm; double fy = 1; bool lin = false; mat M; arma::rowvec shift; bool skipSE = false; std::set<std::string> only; arma::rowvec cf, ct; double pc = 1; int rep = 1; bool swapDims = false; std::set<std::string> skip; bool negBeta = false; bool corrFirst = false; };
static mat prow(const mat& m, const Map& t, size_t n) { if (t.rows && m.n_rows == n) return m.rows(t.perm); return m; }
static std::string canonSign(Out& a, Out& b) { // local loadings have an arbitrary sign
    for (size_t q = 0; q < a.m.size(); q++) if (a.m[q].first.rfind("loadings", 0) == 0) { mat &x = a.m[q].second, &y = b.m[q].second; if (x.n_rows != y.n_rows || x.n_cols != y.n_cols) return "loadings: shape"; for (size_t i = 0; i < x.n_rows; i++) if (arma::dot(x.row(i), y.row(i)) < 0) y.row(i) *= -1; } return ""; }
static Out expected(const Out& o, const Cfg& f, const Map& t) {
    Out r; size_t n = f.d.n; double nn = n; for (auto& p : o.m) { const std::string& nm = p.first; mat v = p.second; if (t.skip.count(nm) || (!t.only.empty() && !t.only.count(nm))) continue; bool beta = nm == "betas" || nm == "returned" || nm == "predicted";
        if (reg(f.alg)) {
            if (beta) { if (nm != "predicted") v = prow(v, t, n); if (t.lin && v.n_cols == t.M.n_rows) v = v * t.M; v *= t.fy; if (t.negBeta) v = -v; if (!t.shift.is_empty() && v.n_cols == t.shift.n_elem) v.each_row() += t.shift; }
            else if (nm == "betasSE") { if (t.skipSE) continue; v = prow(v, t, n); if (t.lin && v.n_cols == t.M.n_rows) v = v * arma::abs(t.M); v *= std::fabs(t.fy); }
            else if (nm == "qDiag") v = prow(v, t, n); else if (nm == "S") { if (t.rows) v = v(t.perm, t.perm); } else if (nm == "RSS") v *= t.fy * t.fy; else if ((nm == "AIC" || nm == "AICc") && t.fy != 1) v += nn * std::log(t.fy * t.fy);
            else if (nm == "cv") v *= t.fy * t.fy;
        } else v = prow(v, t, n);
        if (f.alg == PCA && nm == "sdev") v *= std::fabs(t.pc);
        if ((f.alg == GWSS_AVG || f.alg == GWSS_COR) && !t.cf.is_empty() && v.n_elem) { size_t k = t.cf.n_elem; bool pair = nm == "cov" || nm == "corr" || nm == "spearman"; if (pair) { if (nm == "cov") { size_t c = 0; for (size_t i = 0; i < (t.corrFirst ? 1 : k - 1); i++) for (size_t j = i + 1; j < k; j++) { if (c < v.n_cols) v.col(c) *= t.cf(i) * t.cf(j); c++; } } }
            else if (nm == "mean" || nm == "median") { v.each_row() %= t.cf; v.each_row() += t.ct; } else if (nm == "sdev" || nm == "iqr") v.each_row() %= t.cf; else if (nm == "var") v.each_row() %= arma::square(t.cf); else if (nm == "cv") continue; }
        r.add(nm, v); }
    return r;
}
static Out restrict_(const Out& o, const Out& like) { Out r; std::set<std::string> n; for (auto& p : like.m) n.insert(p.first); for (auto& p : o.m) if (n.count(p.first)) r.add(p.first, p.second); return r; }
struct Got { bool threw = false; Out o; };
static Got go(const Cfg& f, const mat& loc) { Got g; try { auto m = make(f); m->run(); g.o = m->out(); if (m->status() != Status::Success) throw Fail("status"); if (loc.n_rows) { auto q = make(f); g.o.add("predicted", q->predict(loc)); } } catch (const std::exception&) { g.threw = true; } return g; }
// Covariances, correlations and skewness may vanish: compared on the scale of what they are sums of.
static void lift(Out& e, Out& q) { const mat* v = e.find("var"); mat var = v ? *v : mat(); for (size_t i = 0; i < e.m.size() && i < q.m.size(); i++) { const std::string& n = e.m[i].first; if (n == "corr" || n == "spearman" || n == "skewness") { e.m[i].second += 1; q.m[i].second += 1; } else if (n == "cov" && var.n_cols && e.m[i].second.n_elem) { mat &a = e.m[i].second, &b = q.m[i].second; arma::rowvec sd = arma::sqrt(arma::max(var, 0)); size_t k = sd.n_elem, c = 0; bool first = a.n_cols == k - 1; if (a.n_cols != b.n_cols) continue; for (size_t x = 0; x < (first ? 1 : k - 1); x++) for (size_t y = x + 1; y < k; y++, c++) if (c < a.n_cols) { a.col(c) += sd(x) * sd(y); b.col(c) += sd(x) * sd(y); } } } }
static void noise(Cfg& f, uint32_t seed) { Rng r(seed); auto e = [&](double v) { return v * (1 + (r.unit() - 0.5) * std::pow(2.0, -43)); }; f.d.x.transform(e); if (f.alg != BINOMIAL && f.alg != POISSON) f.d.y.transform(e); f.d.coords.transform(e); }
static void stable(const Cfg& f, const Got& base, const mat& loc) { // numerically delicate problems are not judged
    for (uint32_t q = 1; q <= 2; q++) { Cfg h = f; noise(h, q); Got g = go(h, loc); if (g.threw) throw Discard(); Out a = base.o, b = g.o; canonSign(a, b); lift(a, b); if (!diffReordered(a, b, f.alg == SCALABLE ? 1e-5 : 1e-9).empty()) throw Discard(); } }
static void relation(Src& s, Case& c) {
    int alg = s.range(0, NALG - 1); GenOpt go_; go_.autos = s.chance(15); go_.nhi = 32; Cfg f = genCfg(s, c, alg, go_); Data& d = f.d; int n = d.n, k = d.x.n_cols; f.threads = hasOmp(alg) && s.chance(25) ? s.range(1, 4) : 0; bool pred = hasPredict(alg) && !f.autoBw && !f.autoVar && s.chance(60); mat loc;
    if (pred) { Rng r(s.seed()); int m = s.range(1, 4); loc = mat(m, 2); arma::rowvec lo = arma::min(d.coords, 0), hi = arma::max(d.coords, 0); for (int i = 0; i < m; i++) for (int j = 0; j < 2; j++) loc(i, j) = lo(j) + (hi(j) - lo(j)) * r.unit(); }
    Cfg g = f; mat gl = loc; Map t; int rel = s.range(0, 5); std::string name; Rng r(s.seed());
    switch (rel) {
    case 0: { name = "order of the observations"; arma::uvec p(n); for (int i = 0; i < n; i++) p(i) = i; for (int i = n - 1; i > 0; i--) std::swap(p(i), p(r.below(i + 1))); t.rows = true; t.perm = p; g.d.x = d.x.rows(p); g.d.y = d.y.n_elem ? vec(d.y(p)) : d.y; g.d.coords = d.coords.rows(p); if (f.times.n_elem) g.times = vec(f.times(p)); if (!f.groups.empty()) { for (int i = 0; i < n; i++) g.groups[i] = f.groups[p(i)]; t.only = {"group", "pmax", "entropy", "correct"}; } break; }
    case 1: { // the map
        if (d.geo) { int w = s.range(0, 2); if (w == 0) { g.d.coords.col(0) *= -1; if (pred) gl.col(0) *= -1; name = "mirrored longitudes"; } else if (w == 1) { g.d.coords.col(1) *= -1; if (pred) gl.col(1) *= -1; name = "mirrored latitudes"; } else { double room = 180 - std::max(std::fabs(d.coords.col(0).max()), std::fabs(d.coords.col(0).min())); double sh = (r.unit() - 0.5) * 2 * room * 0.9; g.d.coords.col(0) += sh; if (pred) { gl.col(0) += sh; } name = "shifted longitudes"; } break; }
        int w = s.range(0, alg == GWDR_ ? 2 : 4); auto both = [&](std::function<void(mat&)> q) { q(g.d.coords); if (pred) q(gl); };
        if (w == 0) { double q = pw2(s); name = "map units times " + num(q); if (alg == GTWR_ && f.lambda < 1 && f.b.adaptive) throw Discard(); both([&](mat& m) { m *= q; }); if (alg == GTWR_) g.times *= q; if (!f.b.adaptive) g.b.bw *= q; for (auto& b : g.bs) if (!b.adaptive) b.bw *= q; if (f.autoBw && alg == GTWR_) throw Discard(); t.skip.insert("bandwidth"); t.skip.insert("criterion list"); }
        else if (w == 1) { int a = s.range(0, 1); name = "mirrored map"; both([&](mat& m) { m.col(a) *= -1; }); }
        else if (w == 2) { arma::rowvec ext = arma::max(d.coords, 0) - arma::min(d.coords, 0); arma::rowvec sh(2); for (auto& v : sh) v = std::round(r.real(-16, 16)) / 4; sh %= ext; name = "moved map"; both([&](mat& m) { m.each_row() += sh; }); }
        else if (w == 3) { name = "transposed map"; both([&](mat& m) { m.swap_cols(0, 1); }); } else { double a = r.real(0.1, 3); mat R = {{std::cos(a), -std::sin(a)}, {std::sin(a), std::cos(a)}}; name = "rotated map"; both([&](mat& m) { m = m * R; }); }
        if (alg == GWDR_ && f.autoBw) throw Discard(); break; }
    case 2: { // the response
        if (!(linear(alg) || alg == SCALABLE || alg == BINOMIAL)) throw Discard(); int w = s.range(0, 1);
        if (alg == BINOMIAL) { if (f.autoBw) throw Discard(); name = "complementary response"; g.d.y = 1 - d.y; t.negBeta = true; }
        else if (w == 0 || alg == MULTISCALE || alg == SCALABLE) { if (alg == SCALABLE && !f.cv) throw Discard(); if (f.autoBw) throw Discard(); /* the search stops on an absolute difference of criteria */ double q = alg == SCALABLE || alg == MULTISCALE || f.autoBw ? pw2(s) : s.chance(40) ? std::pow(2.0, s.range(-30, 30)) : r.real(0.01, 30) * (s.boolean() ? 1 : -1); name = "response times " + num(q); g.d.y *= q; t.fy = q; t.skip.insert("criterion list"); }
        else { if (f.autoVar || f.autoBw) throw Discard(); if (alg == LCR && (f.ridge != 0 || f.adjust)) throw Discard(); arma::rowvec b(k); for (auto& v : b) v = r.real(-3, 3); name = "response plus a linear function of the variables"; g.d.y = d.y + d.x * b.t(); t.shift = b; t.skip = {"R2", "R2adj"}; }
        break; }
    case 3: { // the variables
        if (alg == MULTISCALE || alg == SCALABLE || alg == GWDA_LDA || alg == GWDA_QDA || f.autoVar) { if (alg == SCALABLE || alg == MULTISCALE || f.autoVar) throw Discard(); }
        if (alg == PCA) { double q = pw2(s) * (s.boolean() ? 1 : -1); g.d.x *= q; t.pc = q; name = "all variables times " + num(q); break; }
        if (alg == GWSS_AVG || alg == GWSS_COR) { t.cf = arma::rowvec(k); t.ct = arma::rowvec(k); for (int j = 0; j < k; j++) { t.cf(j) = pw2(s); t.ct(j) = s.boolean() ? 0 : std::round(r.real(-8, 8)) * t.cf(j); g.d.x.col(j) = d.x.col(j) * t.cf(j) + t.ct(j); } t.corrFirst = f.corrFirst; name = "units of the variables"; break; }
        if (alg == GWDA_LDA || alg == GWDA_QDA) { mat A(k, k); for (auto& v : A) v = r.real(-1, 1); A.diag() += 3; if (alg == GWDA_QDA) { mat Q, R; if (!arma::qr(Q, R, A)) throw Discard(); A = Q * r.real(0.2, 5); /* the quadratic score uses the norm of the covariance: only rotations and common units */ } g.d.x = d.x * A; g.d.x.each_row() += arma::rowvec(k, arma::fill::value(2.5)); t.only = {"group", "correct"}; name = "recombined variables"; if (!f.hasCov || !f.hasMean || !f.hasPrior) throw Discard(); break; }
        if (k < 2 || (alg == LCR && (f.ridge != 0 || f.adjust))) throw Discard(); int w = s.range(0, 2); mat A(k, k, arma::fill::eye);
        if (w == 0) { for (int j = 1; j < k; j++) A(j, j) = r.real(0.05, 20) * (s.boolean() ? 1 : -1); name = "units of the variables"; } else if (w == 1) { std::vector<int> p; for (int j = 1; j < k; j++) p.push_back(j); for (int j = k - 2; j > 0; j--) std::swap(p[j], p[r.below(j + 1)]); A.zeros(); A(0, 0) = 1; bool id = true; for (int j = 1; j < k; j++) { A(p[j - 1], j) = 1; id = id && p[j - 1] == j; } if (id) throw Discard(); name = "order of the variables"; }
        else { for (int i = 0; i < k; i++) for (int j = 1; j < k; j++) A(i, j) = (i == j ? 2 : 0) + r.real(-1, 1); name = "recombined variables"; t.skipSE = true; if (std::fabs(arma::det(A)) < 0.3) throw Discard(); }
        g.d.x = d.x * A; t.lin = true; t.M = arma::inv(A).t(); break; }
    case 4: { // every observation twice
        if (!(alg == BASIC || alg == GTWR_ || alg == GWDR_ || alg == GWSS_AVG || alg == LCR) || f.autoBw || f.autoVar) throw Discard(); if (alg == LCR && (f.ridge != 0 || f.adjust)) throw Discard(); name = "every observation twice"; auto dbl = [&](Bw& b) { if (b.adaptive) { if (b.bw != std::floor(b.bw)) b.bw = std::floor(b.bw); b.bw *= 2; } }; auto fl = [&](Bw& b) { if (b.adaptive) b.bw = std::floor(b.bw); };
        fl(f.b); for (auto& b : f.bs) fl(b); g.b = f.b; g.bs = f.bs; dbl(g.b); for (auto& b : g.bs) dbl(b); g.d.n = 2 * n; g.d.x = arma::join_cols(d.x, d.x); if (d.y.n_elem) g.d.y = arma::join_cols(d.y, d.y); g.d.coords = arma::join_cols(d.coords, d.coords); if (f.times.n_elem) g.times = arma::join_cols(f.times, f.times); t.only = {"betas", "returned", "predicted", "RSS", "ENP0", "mean"}; t.rep = 2; break; }
    default: { // an observation out of reach
        if (!(alg == BASIC || alg == GTWR_ || alg == GWDR_ || alg == GWSS_AVG || alg == GWSS_COR || alg == PCA || alg == GWDA_LDA || alg == GWDA_QDA || alg == SCALABLE) || f.autoBw || f.autoVar) throw Discard(); name = "an observation out of reach"; int j = (int)r.below(n); auto compact = [&](Bw& b) { b.kernel = (BandwidthWeight::KernelFunctionType)(2 + r.below(3)); if (b.adaptive && b.bw > n - 2) b.bw = std::max(n / 2, 4 * k); }; compact(f.b); g.b = f.b; for (auto& b : f.bs) compact(b); g.bs = f.bs;
        for (int q = 0; q < k; q++) if (!(q == 0 && reg(alg))) g.d.x(j, q) += r.real(0.2, 2); if (d.y.n_elem) g.d.y(j) += r.real(-5, 5); t.perm = arma::uvec{(arma::uword)j}; }
    }
    bool search = f.autoBw || f.autoLambda || alg == MULTISCALE; if (search && !(name == "mirrored map" || name == "transposed map")) throw Discard(); /* searches: only transformations without rounding, and the search stops on an absolute step */ if (alg == SCALABLE) { t.skip.insert("scale"); t.skip.insert("penalty"); } if (alg == SCALABLE && (d.layout == 1 || d.layout == 5) && rel <= 1) throw Discard(); /* which of equally distant neighbours counts is not specified */ if ((d.layout == 1 || d.layout == 5 || f.b.kernel == BandwidthWeight::Boxcar || d.geo) && !(name == "mirrored map" || name == "transposed map" || name.rfind("map units", 0) == 0 || rel == 3)) { t.skip.insert("median"); t.skip.insert("iqr"); t.skip.insert("qi"); } /* cumulative weights may tie with the quantile */ c.desc << " transformed: " << name; c.label(name.substr(0, name.find(" times"))); Got a = go(f, loc); if (a.threw) throw Discard();
    if (rel == 5) { // local results of the places that cannot see observation j
        int j = t.perm(0); if (alg == SCALABLE) throw Discard(); Got b = go(g, loc); if (b.threw) throw Discard(); canonSign(a.o, b.o); if (alg == GTWR_ || d.geo) throw Discard(); int far = 0;
        for (int i = 0; i < n; i++) { double w = 1; if (alg == GWDR_) { for (size_t m = 0; m < f.bs.size(); m++) { vec dm = arma::abs(d.coords.col(m) - d.coords(i, m)); BandwidthWeight bw(f.bs[m].bw, f.bs[m].adaptive, f.bs[m].kernel); w *= bw.weight(dm)(j); } } else { vec dm(n); for (int q = 0; q < n; q++) dm(q) = std::sqrt(std::pow(d.coords(q, 0) - d.coords(i, 0), 2) + std::pow(d.coords(q, 1) - d.coords(i, 1), 2)); double own = dm(j); Bw fb = f.b; if (fb.adaptive) { vec so = arma::sort(dm); double lim = fb.bw >= n ? fb.bw / n * so(n - 1) : so(std::min<size_t>((size_t)fb.bw, n - 1)); w = own > lim * (1 + 1e-9) && fb.kernel >= 2 ? 0 : 1; } else w = own > fb.bw * (1 + 1e-9) && fb.kernel >= 2 ? 0 : 1; }
            if (w != 0) continue; far++; for (auto& p : a.o.m) { bool rowwise = p.second.n_rows == (size_t)n && p.first != "betasSE" && p.first != "qDiag"; if (!rowwise) continue; if (p.first == "pv" || p.first.rfind("loadings", 0) == 0 || p.first == "sdev" || p.first == "betas" || p.first == "returned" || p.first == "mean" || p.first == "var" || p.first == "skewness" || p.first == "cov" || p.first == "corr" || p.first == "scores" || p.first == "probs" || p.first == "S") {
                if ((alg == GWDA_LDA || alg == GWDA_QDA) && (!f.hasCov || !f.hasMean || !f.hasPrior || i == j)) continue; if (p.first == "spearman" || p.first == "median") continue; const mat* q = b.o.find(p.first); require(q && q->n_rows == p.second.n_rows, p.first + " has another shape"); for (size_t m = 0; m < p.second.n_cols; m++) if (!sameNum(p.second(i, m), (*q)(i, m), 1e-9, arma::abs(p.second.row(i)).max())) throw Fail(p.first + " at observation " + std::to_string(i) + " changes from " + num(p.second(i, m)) + " to " + num((*q)(i, m)) + " with observation " + std::to_string(j) + ", whose weight there is zero"); } } }
        if (!far) throw Discard(); c.interesting(); c.label(std::string(AN[alg]) + " locality"); return; }
    stable(f, a, loc); Got b = go(g, gl); require(!b.threw, "the transformed problem (" + name + ") has no solution"); if (alg == BINOMIAL || alg == POISSON) for (auto* o : {&a.o, &b.o}) for (auto& p : o->m) if (!p.second.is_finite()) throw Discard(); /* separated classes: probabilities of exactly 0 or 1 */
    c.interesting();
    if (rel == 4) { Out e, q; for (auto& p : a.o.m) if (t.only.count(p.first) && p.second.n_elem) { const mat* m = b.o.find(p.first); require(m != nullptr, p.first + " missing"); if (p.first == "RSS") { e.add("RSS", p.second * 2); q.add("RSS", *m); } else if (p.first == "predicted") { e.add("predicted", p.second); q.add("predicted", *m); } else { require(m->n_rows == 2 * p.second.n_rows, p.first + " has " + std::to_string(m->n_rows) + " rows"); e.add(p.first, arma::join_cols(p.second, p.second)); q.add(p.first, *m); } } std::string w = diff(e, q, 1e-6); require(w.empty(), "with " + name + ": " + w); return; }
    Out e = expected(a.o, f, t), q = restrict_(b.o, e); canonSign(e, q); lift(e, q); std::string w = diffReordered(e, q, alg == SCALABLE ? 2e-3 /* the scale is found by a search that ends at 1e-6 */ : 1e-6); require(w.empty(), "after changing " + name + ", expected vs got " + w);
}
int main(int argc, char** argv) { pbt::add("equivariance", 20000, 600000, relation, 120); return pbt::mainImpl(argc, argv); }
