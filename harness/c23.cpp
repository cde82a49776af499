// C23: histories — several objects, any sequence of reconfigurations, fits, failing and cancelled fits, predictions and criterion evaluations: every result is that of a fresh object.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "at least two operations precede a fit or prediction that succeeds and is compared with the same operation on a fresh object";
// What a reused object must reproduce: the same configuration on an object nobody else touched.
struct Obj { std::unique_ptr<Model> m; Cfg f; int alg; bool dirty = false, ran = false; Out last; bool hasLast = false; };
static bool mutates(const Cfg& f) { bool cen = false; for (bool b : f.centred) cen |= b; bool srch = false; for (int i : f.init) srch |= i != 2; return f.autoBw || f.autoVar || f.autoLambda || cen || srch || f.alg == SCALABLE; }
// Results of options that are switched off are not part of a run (an earlier run's may still be readable).
static std::string cmp(const Cfg& f, Out a, Out b0) { Out b; if (a.m.size() != b0.m.size()) return "different sets of results"; { Out k; for (size_t i = 0; i < a.m.size(); i++) if (a.m[i].second.n_elem && !((f.alg == POISSON || f.alg == BINOMIAL) && !f.hat && a.m[i].second.n_elem == 1 && a.m[i].second(0, 0) == 0)) { k.m.push_back(a.m[i]); b.m.push_back(b0.m[i]); } a = k; } return f.threads ? diffReordered(a, b, 1e-6) : diff(a, b, 1e-10); }
static std::unique_ptr<ITelegram> tele(long at) { auto st = std::make_shared<Tele::State>(); st->stopAt = at; return std::unique_ptr<ITelegram>(new Tele(st, false)); }
static Cfg draw(Src& s, Case& c, int alg) {
    GenOpt g; g.nhi = 24; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g); if (hasOmp(alg)) f.threads = s.chance(35) ? s.range(1, 4) : 0; if (f.autoBw && f.threads && alg == GWDR_) f.threads = 0; if (f.autoBw && f.autoVar && alg == GWDR_) f.autoBw = false;
    if (s.chance(12) && f.d.k >= 3 && alg != GWSS_AVG && alg != GWSS_COR && alg != PCA) { f.d.x.col(f.d.k - 1) = 2 * f.d.x.col(f.d.k - 2); f.autoVar = false; c.desc << " SINGULAR"; } c.desc << " threads=" << f.threads; return f;
}
static void history(Src& s, Case& c) {
    int no = s.range(1, 2); std::vector<Obj> o(no); c.desc << "{"; for (auto& x : o) { x.alg = s.range(0, NALG - 1); x.f = draw(s, c, x.alg); x.m = make(x.f); c.desc << "} {"; } c.desc << "}"; int nops = s.range(2, 7), done = 0;
    auto check = [&](Obj& x, const std::string& what) { // run and compare
        auto fresh = make(x.f); Res want = runModel(*fresh), got = runModel(*x.m); x.ran = true; x.dirty = mutates(x.f);
        bool fuzzy = x.f.threads > 0; if (want.threw != got.threw) { throw Fail(what + (want.threw ? ": a fresh object fails (" + want.what + "), this one does not" : ": fails (" + got.what + ") although a fresh object does not")); } if (want.threw) { c.label("failing fit"); x.hasLast = false; x.dirty = true; return; }
        (void)fuzzy; require(want.st == got.st, what + ": status " + std::to_string((int)got.st) + " instead of " + std::to_string((int)want.st)); std::string e = cmp(x.f, want.o, got.o); require(e.empty(), what + " differs from that of a fresh object: " + e); x.last = got.o; x.hasLast = true; if (done >= 2) c.interesting(); c.label("fit compared"); };
    for (int i = 0; i < nops; i++, done++) { size_t w = s.below(no); Obj& x = o[w]; int op = s.range(0, 5); std::string at = "operation " + std::to_string(i + 1) + " (object " + std::to_string(w) + ", " + AN[x.alg] + ") ";
        switch (op) {
        case 0: if (x.dirty) { x.m->reconfigure(x.f); x.dirty = false; } c.desc << " | fit " << w; check(x, at + "fit"); break;
        case 1: { c.desc << " | reconfigure " << w << ": "; Cfg g = draw(s, c, x.alg); x.f = g; x.m->reconfigure(g); x.dirty = false; x.ran = false; x.hasLast = false; c.label("reconfigured"); break; }
        case 2: { if (!hasPredict(x.alg) || x.f.autoBw || x.f.autoVar) break; int np = s.range(1, 9); c.desc << " | predict " << np << " at " << w; if (x.dirty) { x.m->reconfigure(x.f); x.dirty = false; x.ran = false; } Rng r(x.f.d.seed + i); mat loc(np, 2); for (int q = 0; q < np; q++) { double t = r.unit(); loc.row(q) = x.f.d.coords.row(r.below(x.f.d.n)) * t + x.f.d.coords.row(r.below(x.f.d.n)) * (1 - t); }
            auto fresh = make(x.f); mat want, got; bool t1 = false, t2 = false; std::string w1; try { if (x.ran) fresh->run(); } catch (const std::exception&) {} try { want = fresh->predict(loc); } catch (const std::exception& e) { t1 = true; w1 = e.what(); } try { got = x.m->predict(loc); } catch (const std::exception& e) { t2 = true; w1 = e.what(); } require(t1 == t2, at + "prediction " + (t2 ? "fails (" + w1 + ") although that of a fresh object does not" : "works although that of a fresh object fails (" + w1 + ")")); if (t1) { x.dirty = true; break; }
            Out a, b; a.add("coefficients", want); b.add("coefficients", got); std::string e = diff(a, b, x.f.threads ? 1e-6 : 1e-10); require(e.empty(), at + "prediction differs from that of a fresh object: " + e); if (done >= 2) c.interesting(); c.label("prediction compared"); x.hasLast = false; break; }
        case 3: { long k = (long)s.below(60); c.desc << " | cancel at poll " << k << " " << w; if (x.dirty) x.m->reconfigure(x.f); x.m->telegram(tele(k)); try { x.m->run(); } catch (const std::exception&) {} x.m->telegram(tele(-1)); x.m->reconfigure(x.f); x.dirty = false; x.ran = true; x.hasLast = false; c.label("cancelled"); break; }
        case 4: { if (!x.hasLast || x.f.autoVar || x.f.autoBw || x.dirty) break; c.desc << " | criterion " << w; std::vector<Bw> b = x.f.bs.empty() ? std::vector<Bw>{x.f.b} : x.f.bs; for (auto& q : b) q.bw = q.adaptive ? std::max(2.0, q.bw - 1) : q.bw * 1.1; try { x.m->criterion(b); } catch (const std::exception&) { } catch (const Discard&) { } c.label("criterion evaluated"); x.hasLast = false; break; }
        default: { if (!hasOmp(x.alg)) break; int t = s.range(0, 4); if (x.f.alg == GWDR_ && x.f.autoBw) t = 0; c.desc << " | threads " << t << " at " << w; x.f.threads = t; x.m->threads(t); x.hasLast = false; c.label("threads changed"); }
        }
        for (auto& z : o) if (&z != &x && z.hasLast) { std::string e = diff(z.last, z.m->out(), 0); require(e.empty(), at + "changed the results of another object: " + e); c.label("bystander checked"); } }
    size_t w = s.below(no); Obj& x = o[w]; x.m->reconfigure(x.f); x.dirty = false; c.desc << " | final fit " << w; check(x, "the final fit (object " + std::to_string(w) + ", " + AN[x.alg] + ")");
}
int main(int argc, char** argv) { pbt::add("history", 4000, 80000, history); return pbt::mainImpl(argc, argv); }
