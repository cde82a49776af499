// C22: cancellation at any poll of any algorithm — reported, prompt, harmless, and without trace on the next fit.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "the cancelled run really polled and was told to stop at a generated poll index (fit or prediction), and a fit afterwards was compared with that of an untouched object";
static std::unique_ptr<ITelegram> tele(std::shared_ptr<Tele::State> st) { return std::unique_ptr<ITelegram>(new Tele(st, false)); }
static void cancel(Src& s, Case& c) {
    static const std::vector<int> A = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, GTWR_, GWDR_, MULTISCALE, SCALABLE, PCA, GWSS_AVG, GWSS_COR}; int alg = s.pick(A); GenOpt g; g.nhi = 26; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g); int t = s.chance(40) && hasOmp(alg) ? s.range(1, 4) : 0; f.threads = t; c.label(AN[alg]); c.label(t ? "openmp" : "serial");
    auto count = std::make_shared<Tele::State>(); auto fresh = make(f); fresh->telegram(tele(count)); Res want = runModel(*fresh); if (want.threw) throw Discard(); require(want.st == Status::Success, "status of an undisturbed run is not Success"); long N = count->polls; require(count->badProgress == 0, "progress beyond its total: " + count->firstBad); if (N < 1) throw Discard();
    int how = s.range(0, 3); long k = how == 0 ? s.range(0, (int)std::min<long>(N - 1, 5)) : how == 1 ? N - 1 - s.range(0, (int)std::min<long>(N - 1, 5)) : (long)s.below(N); c.desc << " threads=" << t << " polls=" << N << " stop at poll " << k; c.interesting();
    auto m = make(f); auto st = std::make_shared<Tele::State>(); st->stopAt = k; m->telegram(tele(st)); Res r = runModel(*m); if (!st->stopped) { require(t > 0, "the run polls fewer times when nobody cancels it"); c.label("not reached"); throw Discard(); }
    require(!r.threw, std::string("a cancelled run throws: ") + r.what); require(r.st == Status::Terminated, "a cancelled run reports status " + std::to_string((int)r.st)); long after = st->polls - k - 1; c.label("polls after " + std::to_string(after > 100 ? 1000 : after > 40 ? 100 : after > 10 ? 40 : after > 1 ? 10 : after)); require(after <= (t ? 4 * f.d.n + 60 : 20), "the run goes on polling " + std::to_string(after) + " times after it was told to stop");
    require(st->badProgress == 0, "progress beyond its total in a cancelled run: " + st->firstBad);
    int again = s.range(0, 2); for (int i = 0; i < again; i++) { auto s2 = std::make_shared<Tele::State>(); s2->stopAt = (long)s.below(N); m->reconfigure(f); m->telegram(tele(s2)); Res q = runModel(*m); if (s2->stopped) require(!q.threw && q.st == Status::Terminated, "cancelling again: " + (q.threw ? q.what : "status " + std::to_string((int)q.st))); }
    auto s3 = std::make_shared<Tele::State>(); m->reconfigure(f); m->telegram(tele(s3)); Res q = runModel(*m); require(!q.threw, "a fit after a cancelled one throws: " + q.what); require(q.st == Status::Success, "a fit after a cancelled one reports status " + std::to_string((int)q.st)); std::string e = t ? diffReordered(want.o, q.o, 1e-6) : diff(want.o, q.o, 1e-9); require(e.empty(), "a fit after a cancelled one differs from a fresh one: " + e); if (!t) require(s3->polls == N, "a fit after a cancelled one polls " + std::to_string(s3->polls) + " times instead of " + std::to_string(N));
}
static void predict(Src& s, Case& c) {
    static const std::vector<int> A = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, SCALABLE}; int alg = s.pick(A); GenOpt g; g.nhi = 26; g.safeKernels = true; g.autos = false; Cfg f = genCfg(s, c, alg, g); int t = s.chance(40) && hasOmp(alg) ? s.range(1, 4) : 0; f.threads = t; c.label(AN[alg]); c.label(t ? "openmp" : "serial");
    int np = s.range(1, 12); Rng r(f.d.seed + 3); mat loc(np, 2); for (int i = 0; i < np; i++) { int a = (int)r.below(f.d.n), b = (int)r.below(f.d.n); double w = r.unit(); loc.row(i) = f.d.coords.row(a) * w + f.d.coords.row(b) * (1 - w); }
    bool fitFirst = s.boolean(); auto count = std::make_shared<Tele::State>(); auto fresh = make(f); mat want; try { if (fitFirst) fresh->run(); fresh->telegram(tele(count)); want = fresh->predict(loc); } catch (const std::exception&) { throw Discard(); } require(fresh->status() == Status::Success, "status of an undisturbed prediction is not Success"); long N = count->polls; if (N < 1) throw Discard();
    long k = (long)s.below(N); c.desc << " threads=" << t << " locations=" << np << " polls=" << N << " stop at poll " << k; c.interesting(); auto m = make(f); if (fitFirst) m->run(); auto st = std::make_shared<Tele::State>(); st->stopAt = k; m->telegram(tele(st)); try { m->predict(loc); } catch (const std::exception& e) { throw Fail(std::string("a cancelled prediction throws: ") + e.what()); } if (!st->stopped) throw Discard(); require(m->status() == Status::Terminated, "a cancelled prediction reports status " + std::to_string((int)m->status()));
    m->telegram(tele(std::make_shared<Tele::State>())); mat p = m->predict(loc); require(m->status() == Status::Success, "a prediction after a cancelled one reports status " + std::to_string((int)m->status())); Out a, b; a.add("prediction", want); b.add("prediction", p); std::string e = diff(a, b, t ? 1e-7 : 1e-11); require(e.empty(), "a prediction after a cancelled one differs: " + e);
}
// Told to stop from inside one of its own messages or progress reports, as a user pressing a button would.
static void event(Src& s, Case& c) {
    static const std::vector<int> A = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, GTWR_, GWDR_, MULTISCALE, SCALABLE, PCA, GWSS_AVG, GWSS_COR}; int alg = s.pick(A); GenOpt g; g.nhi = 60; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g); int t = s.chance(40) && hasOmp(alg) ? s.range(1, 4) : 0; f.threads = t; c.label(AN[alg]); c.label(t ? "openmp" : "serial");
    auto count = std::make_shared<Tele::State>(); auto fresh = make(f); fresh->telegram(tele(count)); Res want = runModel(*fresh); if (want.threw) throw Discard(); long E = count->events; if (E < 1) throw Discard(); c.interesting();
    // A run that says it is working must also be asking: the events between two polls are a handful, whatever the number of samples.
    long gap = (alg == GWDR_ ? 30 : 8) + 4 * t; require(count->maxGap <= gap && count->gap <= gap, "the run sends " + std::to_string(std::max(count->maxGap, count->gap)) + " messages and progress reports without asking once whether to stop");
    if (!t && count->progress) require(count->lastCur == count->lastTot, "a completed run's last progress report is " + std::to_string(count->lastCur) + " of " + std::to_string(count->lastTot));
    long e = (long)s.below(E); auto m = make(f); auto st = std::make_shared<Tele::State>(); st->stopAtEvent = e; m->telegram(tele(st)); c.desc << " threads=" << t << " events=" << E << " stop in event " << e; Res r = runModel(*m); bool later = count->pollsAt[e] < count->polls;
    if (!t) { require(st->pollsAtEvent == count->pollsAt[e], "two runs of the same model send other messages"); require(st->stopped == later, "the run asks another number of times"); }
    require(!r.threw, std::string("a cancelled run throws: ") + r.what); require(r.st == (st->stopped ? Status::Terminated : Status::Success), "status " + std::to_string((int)r.st) + " after a run that was " + (st->stopped ? "" : "not ") + "told to stop");
    if (st->stopped) require(st->afterFlag <= 12 + 4 * t + (t ? f.d.n / 2 : 0), "the run sends " + std::to_string(st->afterFlag) + " more messages and progress reports after it was told to stop");
}
// While it works a run asks: the matrix products and factorisations between two questions are those of a few local regressions.
extern "C" long work_count_total;
struct WorkTele : Tele { long last, most = 0, second = 0; std::mutex wm; explicit WorkTele(std::shared_ptr<State> st) : Tele(st, false), last(now()) {} static long now() { return __atomic_load_n(&work_count_total, __ATOMIC_RELAXED); }
    void gap(long w) { if (w > most) { second = most; most = w; } else if (w > second) second = w; } bool stop() override { { std::lock_guard<std::mutex> g(wm); long w = now(); gap(w - last); last = w; } return Tele::stop(); } };
static void work(Src& s, Case& c) {
    static const std::vector<int> A = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, GTWR_, GWDR_, MULTISCALE, SCALABLE, PCA}; int alg = s.pick(A); GenOpt g; g.nlo = 60; g.nhi = 90; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g); int t = s.chance(40) && hasOmp(alg) ? s.range(1, 4) : 0; f.threads = t; c.label(AN[alg]); c.label(t ? "openmp" : "serial");
    auto m = make(f); auto st = std::make_shared<Tele::State>(); auto w = new WorkTele(st); m->telegram(std::unique_ptr<ITelegram>(w)); long w0 = WorkTele::now(); Res r = runModel(*m); if (r.threw) throw Discard(); long total = WorkTele::now() - w0; w->gap(WorkTele::now() - w->last); int n = f.d.n, u = std::max(1, t);
    // The global model that goes with a generalized one is calibrated in one piece, once; everything else asks at every location, except
    // that multiscale and density regression put their matrices together, and scalable regression evaluates its objective, in one piece.
    bool glm = alg == POISSON || alg == BINOMIAL; long most = glm ? w->second : w->most; long limit = alg == SCALABLE ? 100L * n : (alg == MULTISCALE && f.hat) || (alg == GWDR_ && f.autoVar) ? 12L * n + 40 * u : (alg == LCR ? 80 : 36) + 24 * u;
    static const std::vector<int> P = {BASIC, ROBUST, LCR, POISSON, BINOMIAL, SCALABLE}; if (std::find(P.begin(), P.end(), alg) != P.end() && s.boolean()) { Rng q(f.d.seed + 3); mat loc(70, 2); for (int i = 0; i < 70; i++) { int a = (int)q.below(n), b = (int)q.below(n); double h = q.unit(); loc.row(i) = f.d.coords.row(a) * h + f.d.coords.row(b) * (1 - h); }
        w->last = WorkTele::now(); w->most = w->second = 0; bool done = false; try { m->predict(loc); done = true; } catch (const std::exception&) {} w->gap(WorkTele::now() - w->last); if (done) { c.label("prediction"); require(w->most <= limit, "a prediction makes " + std::to_string(w->most) + " matrix operations without asking once whether to stop"); } }
    c.desc << " threads=" << t << " work=" << total << " most between questions=" << most; require(most <= limit, "the run makes " + std::to_string(most) + " matrix operations without asking once whether to stop"); if (total > 2 * limit) c.interesting();
}
int main(int argc, char** argv) { pbt::add("cancel", 3000, 60000, cancel); pbt::add("event", 3000, 60000, event); pbt::add("work", 1500, 30000, work); pbt::add("predict", 3000, 60000, predict); return pbt::mainImpl(argc, argv); }
