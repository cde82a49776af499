// C27: messages — what a run reports while it works is what it does, and being observed changes nothing.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "the run reported messages of a search (bandwidth, variables, balance or backfitting) that were checked against criteria computed on their own or against the reported lists, or an error that had to be reported";
static std::vector<std::string> split(const std::string& t, char d) { std::vector<std::string> v; std::string c; for (char ch : t) if (ch == d) { v.push_back(c); c.clear(); } else c += ch; v.push_back(c); return v; }
static double number(const std::string& t) { size_t n = 0; double v = 0; try { v = std::stod(t, &n); } catch (const std::exception&) { throw Fail("not a number in a message: '" + t + "'"); } require(n == t.size(), "not a number in a message: '" + t + "'"); return v; }
static const std::string BW = "#bandwidth-criterion ", VAR = "#variable-criterion ", LAM = "#lambda-optimization ", BF = "#back-fitting ", INI = "#initial-bandwidth ", STG = "#stage ";
static bool starts(const std::string& t, const std::string& p) { return t.rfind(p, 0) == 0; }
static std::vector<std::string> with(const std::vector<std::string>& m, const std::string& p) { std::vector<std::string> v; for (auto& t : m) if (starts(t, p)) v.push_back(t.substr(p.size())); return v; }
static bool shown(const std::string& t, double v) { double q = number(t); return std::fabs(q - v) <= 1.1e-6 + 1e-9 * std::fabs(v); } // messages carry six decimals
struct Run { bool threw = false; std::string what; Out o; std::vector<std::string> infos, errors; Status st = Status::Success; std::vector<std::pair<long, long>> steps; std::vector<double> percents; };
template <class A> Run observed(A& a, bool watch) { Run r; auto st = std::make_shared<Tele::State>(); if (watch) a.setTelegram(std::unique_ptr<ITelegram>(new Tele(st, true))); try { mat m = doRun(a); collect(a, r.o); r.o.add("returned", m); r.st = a.status(); } catch (const std::exception& e) { r.threw = true; r.what = e.what(); } r.infos = st->infos; r.errors = st->errors; r.steps = st->steps; r.percents = st->percents; return r; }
// Progress reports of a run: counts that rise to their total and start again, or (threads) every count of a round once; percentages between 0 and 1.
static void progress(const Run& r, int threads, bool whole, Case& c) {
    for (auto p : r.percents) require(p >= 0 && p <= 1 + 1e-4, "a progress of " + num(p)); long cur = 0, tot = 0; for (auto& q : r.steps) require(q.first >= 0 && q.first <= q.second, "a progress of " + std::to_string(q.first) + " out of " + std::to_string(q.second)); if (!whole) return;
    if (threads > 1) { for (size_t i = 0; i < r.steps.size();) { long t = r.steps[i].second; require(i + t <= r.steps.size(), "the last round of progress reports is incomplete"); std::vector<int> seen(t + 1, 0); for (long j = 0; j < t; j++) { auto& q = r.steps[i + j]; require(q.second == t && q.first >= 1 && !seen[q.first]++, "progress " + std::to_string(q.first) + " of " + std::to_string(q.second) + " in a round of " + std::to_string(t)); } i += t; } if (r.steps.size()) c.label("progress"); return; }
    for (auto& q : r.steps) { bool fresh = tot == 0 || cur == tot; if (fresh) require(q.first <= 1, "progress starts at " + std::to_string(q.first)); else require(q.second == tot && q.first >= cur && q.first <= cur + 1, "progress " + std::to_string(q.first) + "/" + std::to_string(q.second) + " after " + std::to_string(cur) + "/" + std::to_string(tot)); cur = q.first; tot = q.second; } require(cur == tot, "the progress of a finished run ends at " + std::to_string(cur) + " of " + std::to_string(tot)); if (r.steps.size()) c.label("progress"); }
// Lines of a one-dimensional bandwidth search against the reported list.
static void bandwidthLines(const std::vector<std::string>& all, bool adaptive, const BandwidthCriterionList& list, Case& c) {
    auto m = with(all, BW); require(!m.empty(), "the bandwidth search reports nothing"); require(m[0] == std::string(adaptive ? "adaptive" : "fixed") + ",criterion", "the bandwidth search is announced as '" + m[0] + "' for " + (adaptive ? "an adaptive" : "a fixed") + " bandwidth"); std::set<size_t> seen;
    for (size_t i = 1; i < m.size(); i++) { auto p = split(m[i], ','); require(p.size() == 2, "odd message of the bandwidth search: " + m[i]); bool ok = false; for (size_t q = 0; q < list.size(); q++) if (shown(p[0], list[q].first) && shown(p[1], list[q].second)) { ok = true; seen.insert(q); } require(ok, "message of the bandwidth search '" + m[i] + "' is not among the reported criteria"); }
    for (size_t q = 0; q < list.size(); q++) { bool once = seen.count(q); require(once, "the evaluation of bandwidth " + num(list[q].first) + " (criterion " + num(list[q].second) + ") was not reported"); } if (m.size() > 2) { c.interesting(); c.label("bandwidth search"); } }
static void variableLines(const std::vector<std::string>& all, const VariablesCriterionList& list, Case& c, bool header) {
    auto m = with(all, VAR); size_t at = 0; if (header) { require(!m.empty() && m[0] == "variables,criterion", "the variable search is not announced"); at = 1; } size_t finite = 0; for (auto& q : list) if (q.second < DBL_MAX) finite++;
    require(m.size() - at == finite, "the variable search reports " + std::to_string(m.size() - at) + " models, the list has " + std::to_string(finite)); for (size_t i = at; i < m.size(); i++) { auto p = split(m[i], ','); require(p.size() == 2, "odd message of the variable search: " + m[i]); auto v = split(p[0], '+'); bool ok = false; for (auto& q : list) { if (q.first.size() != v.size() || !shown(p[1], q.second)) continue; bool eq = true; for (size_t z = 0; z < v.size(); z++) eq = eq && number(v[z]) == (double)q.first[z]; ok = ok || eq; } require(ok, "message of the variable search '" + m[i] + "' is not among the reported criteria"); } if (finite) { c.interesting(); c.label("variable search"); } }
template <class A> void search(A&, const Cfg&, const Run&, Src&, Case&) {}
static void search(GWRBasic& a, const Cfg& f, const Run& r, Src&, Case& c) { if (f.autoVar && f.d.k > 1) variableLines(r.infos, a.indepVarsSelectionCriterionList(), c, true); else require(with(r.infos, VAR).empty(), "messages of a variable search without one"); if (f.autoBw) bandwidthLines(r.infos, f.b.adaptive, a.bandwidthSelectionCriterionList(), c); else require(with(r.infos, BW).empty(), "messages of a bandwidth search without one"); }
static void search(GWRRobust& a, const Cfg& f, const Run& r, Src& s, Case& c) { search(static_cast<GWRBasic&>(a), f, r, s, c); }
template <class A> void header(const Cfg& f, const Run& r) { auto m = with(r.infos, BW); if (!f.autoBw) { require(m.empty(), "messages of a bandwidth search without one"); return; } require(!m.empty() && m[0] == std::string(f.b.adaptive ? "adaptive" : "fixed") + ",criterion", "the bandwidth search is not announced properly"); }
static void search(GWRLocalCollinearity&, const Cfg& f, const Run& r, Src&, Case& c) { header<GWRLocalCollinearity>(f, r); if (f.autoBw) c.label("announced search"); }
static void search(GWRGeneralized&, const Cfg& f, const Run& r, Src&, Case& c) { header<GWRGeneralized>(f, r); if (f.autoBw) c.label("announced search"); }
static void search(GTWR& a, const Cfg& f, const Run& r, Src& s, Case& c) {
    header<GTWR>(f, r); auto m = with(r.infos, LAM); if (!f.autoLambda) { require(m.empty(), "messages of a search for the balance without one"); return; } require(!m.empty() && m[0] == "lambda,criterion", "the search for the balance is not announced"); if (m.size() < 2) return;
    for (int q = 0; q < 3; q++) { auto& t = m[1 + s.below(m.size() - 1)]; auto p = split(t, ','); require(p.size() == 2, "odd message of the search for the balance: " + t); Cfg g = f; g.autoBw = g.autoLambda = false; g.threads = 0; g.lambda = number(p[0]); g.b.bw = a.spatialWeight().weight<BandwidthWeight>()->bandwidth(); require(g.lambda >= 0 && g.lambda <= 1, "the search tries a balance outside [0,1]: " + t); double v[3], at0 = g.lambda; bool fine = true; for (int e = 0; e < 3 && fine; e++) { g.lambda = std::min(1.0, std::max(0.0, at0 + (e - 1) * 6e-7)); GTWR x; conf(x, g); Run y = observed(x, false); fine = !y.threw; if (fine) v[e] = y.o.find("R2")->at(0, 0); } if (!fine) continue; double want = v[1], slack = 1e-4 * (1 + std::fabs(want)) + 3 * (std::fabs(v[0] - v[1]) + std::fabs(v[2] - v[1])); if (!std::isfinite(want) || !std::isfinite(number(p[1]))) continue; require(std::fabs(want - number(p[1])) < slack, "message of the search for the balance '" + t + "', but a fit with that balance has R2 " + num(want)); c.interesting(); c.label("balance search"); } }
static void search(GWDR& a, const Cfg& f, const Run& r, Src& s, Case& c) {
    if (f.autoVar && f.d.k > 1) variableLines(r.infos, a.indepVarCriterionList(), c, false); else require(with(r.infos, VAR).empty(), "messages of a variable search without one"); auto m = with(r.infos, BW); if (!f.autoBw) { require(m.empty(), "messages of a bandwidth search without one"); return; }
    std::string head; for (size_t i = 0; i < f.bs.size(); i++) head += std::to_string(i + 1) + ":" + (f.bs[i].adaptive ? "adaptive" : "fixed") + ","; require(!m.empty() && m[0] == head + "criterion", "the bandwidth search is announced as '" + (m.empty() ? "" : m[0]) + "'"); if (m.size() < 2) return;
    for (int q = 0; q < 3; q++) { auto& t = m[1 + s.below(m.size() - 1)]; auto p = split(t, ','); require(p.size() == f.bs.size() + 1, "odd message of the bandwidth search: " + t); std::vector<Bw> b = f.bs; bool fine = true; for (size_t i = 0; i < b.size(); i++) { b[i].bw = number(p[i]); fine = fine && b[i].bw > 1e-2 * (b[i].adaptive ? 1 : f.d.scale); } if (!fine) continue; double v[5], told = number(p.back()); static const double rel[] = {0, 1e-9, -1e-9, 0, 0}, abso[] = {0, 0, 0, 6e-7, -6e-7}; double spread = 0; for (int e = 0; e < 5; e++) { std::vector<BandwidthWeight> w; std::vector<BandwidthWeight*> ptr; for (auto& z : b) w.emplace_back(z.bw * (1 + rel[e]) + abso[e], z.adaptive, z.kernel); for (auto& z : w) ptr.push_back(&z); v[e] = a.bandwidthCriterion(ptr); spread = std::max(spread, std::fabs(v[e] - v[0])); } if (std::fabs(v[0]) > 1e6 || std::fabs(told) > 1e6 || std::min(v[0], told) < -14.0 * f.d.n || spread > 1e-3 * (1 + std::fabs(v[0]))) continue; require(std::fabs(v[0] - told) < 1e-4 * (1 + std::fabs(v[0])) + 5 * spread, "message of the bandwidth search '" + t + "', but the criterion there is " + num(v[0])); c.interesting(); c.label("bandwidths search"); } }
static void search(GWRMultiscale& a, const Cfg& f, const Run& r, Src&, Case& c) {
    size_t k = f.d.k; std::vector<double> cur(k, NAN); int it = 0; bool open = false; double last = NAN, thr = a.criterionThreshold(); std::vector<int> unchanged(k, 0); std::vector<bool> done(k); for (size_t i = 0; i < k; i++) done[i] = f.init[i] == GWRMultiscale::Specified; int pending = -1; bool finished = false;
    for (auto& t : r.infos) {
        if (starts(t, INI)) { auto p = split(t.substr(INI.size()), ','); size_t i = (size_t)number(p[0]); require(i < k, "initial bandwidth of an unknown variable: " + t); if (p.size() == 2) cur[i] = number(p[1]); continue; }
        if (!starts(t, BF)) continue; std::string m = t.substr(BF.size());
        if (starts(m, "#iteration ")) { require(!open, "a sweep starts before the last one ended: " + t); open = true; it++; require(number(m.substr(11)) == it, "sweep " + std::to_string(it) + " is reported as '" + m + "'"); require(it <= (int)a.maxIteration(), "more sweeps than the limit"); require(it == 1 || last > thr - 2e-6, "another sweep although the criterion " + num(last) + " was below the threshold"); }
        else if (starts(m, "#backfitting-criterion ")) { require(open, "criterion outside a sweep"); open = false; last = number(m.substr(23)); }
        else if (starts(m, "#variable-bandwidth-selection ")) { require(open, "bandwidth selection outside a sweep"); auto p = split(m.substr(30), ','); size_t i = (size_t)number(p[0]); require(i < k, "selection for an unknown variable: " + t); require(!done[i], "a bandwidth is selected for variable " + std::to_string(i) + ", whose bandwidth is settled"); if (p.size() == 1) { require(pending < 0, "a selection starts inside another one"); pending = (int)i; continue; } require(pending == (int)i, "a selection ends that was not started: " + t); pending = -1; require(p.size() >= 5, "odd message: " + t); double o = number(p[1]), w = number(p[2]), d = number(p[3]);
            require(std::isnan(cur[i]) || std::fabs(cur[i] - o) < 2.1e-6 + 1e-9 * std::fabs(o), "variable " + std::to_string(i) + ": the selection starts at " + num(o) + ", the bandwidth before was " + num(cur[i])); require(std::fabs(std::fabs(w - o) - d) < 3.1e-6 + 1e-9 * std::fabs(w), "the change reported (" + num(d) + ") is not that of the bandwidths: " + t); cur[i] = w; double lim = a.bandwidthSelectThreshold()[i]; if (p[4] == "false") { require(d > lim - 2e-6, "a change below the threshold is reported as one: " + t); unchanged[i] = 0; } else { require(d <= lim + 2e-6, "a change above the threshold counts as settled: " + t); unchanged[i]++; if (p[4] == "true") { require(unchanged[i] >= (int)a.bandwidthSelectRetryTimes(), "settled after too few retries: " + t); done[i] = true; } else { require(number(p[4]) == unchanged[i] && p.size() == 6 && number(p[5]) == (double)a.bandwidthSelectRetryTimes() - unchanged[i], "the retries are miscounted: " + t); } } c.label("selection in a sweep"); }
        else if (m == "Finished") finished = true; }
    require(it > 0 && !open && finished, "the sweeps are not reported to the end"); if (std::isnan(last)) { double rss = a.diagnostic().RSS; require(rss < 1e-12 * arma::accu(arma::square(f.d.y)), "the sweeps end at a criterion that is not a number, with a residual sum of squares of " + num(rss)); return; }
    require(last <= thr + 2e-6 || it == (int)a.maxIteration(), "the sweeps end at criterion " + num(last) + " above the threshold " + num(thr) + " after " + std::to_string(it) + " of " + std::to_string(a.maxIteration())); for (size_t i = 0; i < k; i++) if (!std::isnan(cur[i])) { double b = a.spatialWeights()[i].template weight<BandwidthWeight>()->bandwidth(); require(std::fabs(b - cur[i]) < 1.1e-6 + 1e-9 * std::fabs(b), "the last bandwidth reported for variable " + std::to_string(i) + " is " + num(cur[i]) + ", the model has " + num(b)); } c.interesting(); c.label("backfitting"); }
template <class A> void messages(const Cfg& f, Src& s, Case& c) {
    A a, b; conf(a, f); conf(b, f); setThreads(a, f.threads); setThreads(b, f.threads); Run x = observed(a, true), y = observed(b, false); require(x.threw == y.threw, std::string("an observed run ") + (x.threw ? "fails (" + x.what + ")" : "succeeds") + ", an unobserved one does not"); require(!x.infos.empty() && starts(x.infos[0], STG), "the run does not begin by reporting its stage"); bool searching = f.autoBw || f.autoVar || f.autoLambda || f.alg == MULTISCALE;
    if (x.threw) { if (!searching && (f.alg == BASIC || f.alg == ROBUST || f.alg == GTWR_ || f.alg == GWDR_)) { require(!x.errors.empty(), "the run fails (" + x.what + ") without an error message"); c.interesting(); c.label("error reported"); } return; }
    progress(x, f.threads, x.errors.empty(), c); require(!x.steps.empty() && x.steps.back().second == f.d.n, "the run reports no progress"); require(x.st == Status::Success, "status"); if (!searching) require(x.errors.empty(), "a successful run reports an error: " + (x.errors.empty() ? "" : x.errors[0])); if (!(f.threads > 1 && searching)) { std::string e = f.threads > 1 ? diffReordered(x.o, y.o, 1e-6) : diff(x.o, y.o, 0); require(e.empty(), "observing the run changes its results: " + e); } search(a, f, x, s, c);
}
// Predictions report every location once.
static void predictions(Src& s, Case& c) {
    static const int pick[] = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, SCALABLE}; int alg = pick[s.below(6)]; GenOpt g; g.autos = false; g.nhi = 30; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g); f.threads = hasOmp(alg) && s.chance(40) ? s.range(2, 4) : 0; mat loc(s.range(1, 14), 2); Rng r(f.d.seed + 5); for (size_t i = 0; i < loc.n_rows; i++) loc.row(i) = 0.5 * (f.d.coords.row(r.below(f.d.n)) + f.d.coords.row(r.below(f.d.n))); c.desc << " threads=" << f.threads << " locations=" << loc.n_rows;
    auto a = make(f), b = make(f); try { a->run(); b->run(); } catch (const std::exception&) { throw Discard(); } auto st = std::make_shared<Tele::State>(); a->telegram(std::unique_ptr<ITelegram>(new Tele(st, true))); mat p, q; bool ta = false, tb = false; try { p = a->predict(loc); } catch (const std::exception&) { ta = true; } try { q = b->predict(loc); } catch (const std::exception&) { tb = true; } require(ta == tb, "an observed prediction " + std::string(ta ? "fails" : "succeeds") + ", an unobserved one does not"); if (ta) { require(alg == POISSON || alg == BINOMIAL || !st->errors.empty(), "a prediction fails without an error message"); c.label("error reported"); return; }
    require(arma::approx_equal(p, q, "absdiff", 0) || (p.has_nan() && q.has_nan()), "observing a prediction changes it"); Run x; x.steps = st->steps; x.percents = st->percents; progress(x, f.threads, st->errors.empty() , c); require(!x.steps.empty() && x.steps.back().second == (long)loc.n_rows, "the prediction reports no progress over its locations"); c.interesting(); }
static void reports(Src& s, Case& c) {
    static const int pick[] = {BASIC, BASIC, BASIC, ROBUST, LCR, POISSON, BINOMIAL, GTWR_, GTWR_, GWDR_, GWDR_, MULTISCALE, MULTISCALE, SCALABLE, PCA, GWSS_AVG, GWSS_COR}; int alg = pick[s.below(17)]; GenOpt g; g.nhi = 30; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g); if (alg == BASIC || alg == ROBUST || alg == GWDR_) { f.autoBw = f.autoBw || s.boolean(); f.autoVar = f.autoVar || s.boolean(); if (alg == GWDR_ && f.autoVar) f.autoBw = false; } if (alg == GTWR_) f.autoLambda = f.autoLambda || s.boolean(); f.threads = hasOmp(alg) && s.chance(25) ? s.range(1, 4) : 0; if (alg == GWDR_ && f.autoBw) f.threads = 0;
    if (s.chance(12) && f.d.k >= 3 && alg <= GWDR_ && !f.autoBw && !f.autoVar && !f.autoLambda) { f.d.x.col(f.d.k - 1).zeros(); c.desc << " SINGULAR"; } c.desc << " threads=" << f.threads << " auto=" << f.autoBw << f.autoVar << f.autoLambda;
    switch (alg) { case BASIC: messages<GWRBasic>(f, s, c); break; case ROBUST: messages<GWRRobust>(f, s, c); break; case LCR: messages<GWRLocalCollinearity>(f, s, c); break; case POISSON: case BINOMIAL: messages<GWRGeneralized>(f, s, c); break; case GTWR_: messages<GTWR>(f, s, c); break; case GWDR_: messages<GWDR>(f, s, c); break; case GWSS_AVG: case GWSS_COR: messages<GWSS>(f, s, c); break; case MULTISCALE: messages<GWRMultiscale>(f, s, c); break; case SCALABLE: messages<GWRScalable>(f, s, c); break; default: messages<GWPCA>(f, s, c); }
}
int main(int argc, char** argv) { pbt::add("reports", 5000, 100000, reports); pbt::add("predictions", 3000, 50000, predictions); return pbt::mainImpl(argc, argv); }
