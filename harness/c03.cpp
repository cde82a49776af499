// C03: weighting schemes and distances have value semantics, for every history of copy/move/assign/set/destroy.
#include "gen.hpp"
#include "gwmodelpp/spatialweight/MinkwoskiDistance.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"
#include "gwmodelpp/spatialweight/DMatDistance.h"
#include "gwmodelpp/GWRBasic.h"
using namespace gen; using namespace gwm; using ref::R; using ref::V;
const char* pbt::RULE = "a history of at least 6 operations in which at least one copy or move happens after an object was configured";

struct DSpec { int type = 0; double a = 0, b = 0; uint32_t pts = 0; int n = 0; bool has = false; std::string file; };      // model of a distance
struct WSpec { double bw = 1; bool adaptive = false; int kernel = 0; };
struct Slot { std::unique_ptr<SpatialWeight> obj; bool known = true; bool hasW = false, hasD = false; WSpec w; DSpec d; };

static void points(const DSpec& s, mat& f, mat& d, vec& tf, vec& td) { f = makeCoords(s.pts, s.n, 0, 10); d = makeCoords(s.pts + 7, s.n, 0, 10); Rng r(s.pts); tf = vec(s.n); td = vec(s.n); for (int i = 0; i < s.n; i++) { td(i) = r.real(0, 5); tf(i) = 5 + r.real(0, 5); } }
static void param(Distance* D, DSpec& s, uint32_t seed, int n) {
    s.pts = seed; s.n = n; s.has = true; mat f, d; vec tf, td; points(s, f, d, tf, td);
    switch (s.type) { case 0: case 1: case 2: D->makeParameter({f, d}); break; case 3: D->makeParameter({tf, td}); break; case 4: D->makeParameter({f, d, tf, td}); break; default: D->makeParameter({uword(n), uword(n)}); }
}
static R expect(const DSpec& s, int i, int j) {
    mat f, d; vec tf, td; points(s, f, d, tf, td); R e = ref::euclid(f(i, 0), f(i, 1), d(j, 0), d(j, 1));
    switch (s.type) {
    case 0: return e; case 1: return ref::greatCircle(f(i, 0), f(i, 1), d(j, 0), d(j, 1));
    case 2: { R dx = std::fabs((R)f(i, 0) - d(j, 0)), dy = std::fabs((R)f(i, 1) - d(j, 1)); return std::pow(std::pow(dx, (R)s.a) + std::pow(dy, (R)s.a), 1 / (R)s.a); }
    case 3: return std::fabs((R)tf(i) - td(j));
    case 4: { R t = (R)tf(i) - td(j), l = s.a; return l * e + (1 - l) * t + 2 * std::sqrt(l * (1 - l) * e * t) * std::cos((R)s.b); }
    } return 0;
}
static std::unique_ptr<Distance> makeD(Src& s, DSpec& d) {
    d = DSpec(); d.type = s.range(0, 5); std::unique_ptr<Distance> D; static const double P[] = {3, 1.5, 4};
    switch (d.type) {
    case 0: D.reset(new CRSDistance(false)); break; case 1: D.reset(new CRSDistance(true)); break;
    case 2: d.a = P[s.below(3)]; D.reset(new MinkwoskiDistance(d.a, 0)); break; case 3: D.reset(new OneDimDistance()); break;
    case 4: { d.a = s.real(0.1, 0.9); d.b = s.real(0.2, 1.4); CRSDistance sd(false); OneDimDistance td; D.reset(new CRSSTDistance(&sd, &td, d.a, d.b)); break; }
    default: d.file = "m" + std::to_string(s.below(1000)) + ".dmat"; D.reset(new DMatDistance(d.file)); }
    if (s.chance(75)) param(D.get(), d, s.seed(), s.range(2, 5));
    return D;
}
static WSpec genW(Src& s) { WSpec w; w.bw = s.real(0.5, 20); w.adaptive = s.boolean(); if (w.adaptive) w.bw = 1 + s.below(8); w.kernel = s.range(0, 4); return w; }
static BandwidthWeight makeW(const WSpec& w) { return BandwidthWeight(w.bw, w.adaptive, (BandwidthWeight::KernelFunctionType)w.kernel); }

static void checkD(Distance* D, const DSpec& d, const std::string& who) {
    static const Distance::DistanceType T[] = {Distance::CRSDistance, Distance::CRSDistance, Distance::MinkwoskiDistance, Distance::OneDimDistance, Distance::CRSSTDistance, Distance::DMatDistance};
    require(D->type() == T[d.type], who + ": distance changed its type");
    if (d.type <= 1) require(static_cast<CRSDistance*>(D)->geographic() == (d.type == 1), who + ": geographic flag");
    if (d.type == 2) require(static_cast<MinkwoskiDistance*>(D)->poly() == d.a, who + ": order of the metric");
    if (d.type == 5) { require(static_cast<DMatDistance*>(D)->dMatFile() == d.file, who + ": file name"); return; }
    if (!d.has) { require(throws([&] { D->maxDistance(); }), who + ": an unconfigured distance answered"); return; }
    R mx = 0;
    for (int i = 0; i < d.n; i++) { vec v = D->distance(i); require((int)v.n_elem == d.n, who + ": number of distances"); for (int j = 0; j < d.n; j++) { R e = expect(d, i, j); mx = std::max(mx, e); closeTo(who + ": distance", v(j), e, 1e-7L, 1e-9L); } }
    closeTo(who + ": maxDistance", D->maxDistance(), mx, 1e-7L, 1e-9L);
}
static void checkSlot(const Slot& s, int k) {
    std::string who = "object " + std::to_string(k); if (!s.obj || !s.known) return;
    require(s.obj->isValid() == (s.hasW && s.hasD), who + ": isValid()");
    require((s.obj->weight() != nullptr) == s.hasW && (s.obj->distance() != nullptr) == s.hasD, who + ": parts present");
    if (s.hasW) { auto* w = s.obj->weight<BandwidthWeight>(); require(w->bandwidth() == s.w.bw && w->adaptive() == s.w.adaptive && (int)w->kernel() == s.w.kernel, who + ": weight parameters differ from what was assigned"); }
    if (s.hasD) checkD(s.obj->distance(), s.d, who);
    if (s.hasW && s.hasD && s.d.has && s.d.type != 5) for (int i = 0; i < s.d.n; i++) {
        V dist(s.d.n); for (int j = 0; j < s.d.n; j++) dist[j] = expect(s.d, i, j); vec v = s.obj->weightVector(i); V w = ref::weights(dist, s.w.bw, s.w.adaptive, s.w.kernel); R edge = s.w.adaptive ? ref::adaptiveDistance(dist, s.w.bw) : (R)s.w.bw;
        for (int j = 0; j < s.d.n; j++) if (s.w.kernel != 4 || std::fabs(dist[j] - edge) > 1e-6L) closeTo(who + ": weight", v(j), w[j], 1e-6L, 1e-7L); }
}
static void history(Src& s, Case& c) {
    int steps = s.range(1, 24); const int N = 4; std::vector<Slot> sl(N); int copies = 0, configured = 0;
    auto live = [&](bool known) { std::vector<int> v; for (int i = 0; i < N; i++) if (sl[i].obj && (!known || sl[i].known)) v.push_back(i); return v; };
    for (int t = 0; t < steps; t++) {
        int op = s.range(0, 13), k = s.range(0, N - 1); auto all = live(false), good = live(true); c.desc << (t ? ";" : ""); std::string o;
        auto anyGood = [&]() { return good[s.below(good.size())]; }; auto anyLive = [&]() { return all[s.below(all.size())]; };
        if (op == 0) { sl[k] = Slot(); sl[k].obj.reset(new SpatialWeight()); c.desc << "new" << k; }
        else if (op == 1 || op == 2) { Slot n; n.w = genW(s); auto D = makeD(s, n.d); BandwidthWeight w = makeW(n.w); n.hasW = n.hasD = true; n.obj.reset(op == 1 ? new SpatialWeight(&w, D.get()) : new SpatialWeight(w, *D)); sl[k] = std::move(n); configured++; c.desc << "new" << k << "(w,d" << sl[k].d.type << ")"; }
        else if (good.empty()) { c.desc << "nop"; continue; }
        else if (op == 3) { int f = anyGood(); Slot n; n.hasW = sl[f].hasW; n.hasD = sl[f].hasD; n.w = sl[f].w; n.d = sl[f].d; n.obj.reset(new SpatialWeight(*sl[f].obj)); sl[k] = std::move(n); copies += configured > 0; c.desc << "new" << k << "(copy " << f << ")"; }
        else if (op == 4) { int f = anyGood(); if (f == k) continue; Slot n; n.hasW = sl[f].hasW; n.hasD = sl[f].hasD; n.w = sl[f].w; n.d = sl[f].d; n.obj.reset(new SpatialWeight(std::move(*sl[f].obj))); sl[f].known = false; sl[k] = std::move(n); copies += configured > 0; c.desc << "new" << k << "(move " << f << ")"; }
        else if (op == 5) { int f = anyGood(), g = anyLive(); *sl[g].obj = *sl[f].obj; sl[g].known = true; sl[g].hasW = sl[f].hasW; sl[g].hasD = sl[f].hasD; sl[g].w = sl[f].w; sl[g].d = sl[f].d; copies += configured > 0; c.desc << g << "=" << f; if (f == g) c.label("self-copy"); }
        else if (op == 6) { int f = anyGood(), g = anyLive(); if (f == g) continue; *sl[g].obj = std::move(*sl[f].obj); sl[g].known = true; sl[g].hasW = sl[f].hasW; sl[g].hasD = sl[f].hasD; sl[g].w = sl[f].w; sl[g].d = sl[f].d; sl[f].known = false; copies += configured > 0; c.desc << g << "=move " << f; }
        else if (op == 7) { int g = anyGood(); WSpec w = genW(s); BandwidthWeight b = makeW(w); int how = s.range(0, 3); if (how == 0) sl[g].obj->setWeight(&b); else if (how == 1) sl[g].obj->setWeight(b); else if (how == 2) sl[g].obj->setWeight(makeW(w)); else sl[g].obj->setWeight((Weight*)&b); sl[g].w = w; sl[g].hasW = true; b.setBandwidth(77); configured++; c.desc << g << ".w"; }
        else if (op == 8) { int g = anyGood(); DSpec d; auto D = makeD(s, d); int how = s.range(0, 2); if (how == 0) sl[g].obj->setDistance(D.get()); else if (how == 1) sl[g].obj->setDistance(*D); else sl[g].obj->setDistance(std::move(*D)); sl[g].d = d; sl[g].hasD = true; DSpec junk = d; if (d.type != 5) param(D.get(), junk, 99, 3); configured++; c.desc << g << ".d" << d.type; }
        else if (op == 9) { int g = anyGood(); bool ref_ = s.boolean(); if (sl[g].hasW) { if (ref_) sl[g].obj->setWeight(*sl[g].obj->weight()); else sl[g].obj->setWeight(sl[g].obj->weight()); } if (sl[g].hasD) { if (ref_) sl[g].obj->setDistance(*sl[g].obj->distance()); else sl[g].obj->setDistance(sl[g].obj->distance()); } c.desc << g << ".own"; c.label("own-part"); }
        else if (op == 10) { int g = anyGood(); if (!sl[g].hasW) continue; sl[g].w = genW(s); auto* w = sl[g].obj->weight<BandwidthWeight>(); w->setBandwidth(sl[g].w.bw); w->setAdaptive(sl[g].w.adaptive); w->setKernel((BandwidthWeight::KernelFunctionType)sl[g].w.kernel); c.desc << g << ".w*"; }
        else if (op == 11) { int g = anyGood(); if (!sl[g].hasD || sl[g].d.type == 5) continue; param(sl[g].obj->distance(), sl[g].d, s.seed(), s.range(2, 5)); c.desc << g << ".d*"; }
        else if (op == 12) { int g = anyLive(); sl[g] = Slot(); c.desc << "del" << g; }
        else { int f = anyGood(), g = anyLive(); if (f == g) continue; // parts handed from one object to another
            if (!sl[g].known) continue; if (sl[f].hasW) { sl[g].obj->setWeight(sl[f].obj->weight()); sl[g].w = sl[f].w; sl[g].hasW = true; } if (sl[f].hasD) { sl[g].obj->setDistance(sl[f].obj->distance()); sl[g].d = sl[f].d; sl[g].hasD = true; } c.desc << g << ".parts(" << f << ")"; copies++; }
        for (int i = 0; i < N; i++) checkSlot(sl[i], i);
    }
    c.interesting(steps >= 6 && copies > 0); c.label(copies ? "copied" : "no-copy");
}
// clones of every distance and weight, taken in any state, answer as the original and are unaffected by what happens to it
static void clones(Src& s, Case& c) {
    DSpec d; auto D = makeD(s, d); c.desc << "distance type " << d.type << " configured=" << d.has; c.interesting(d.has);
    std::unique_ptr<Distance> k1(D->clone()), k2(k1->clone()); checkD(k1.get(), d, "clone"); DSpec other = d; param(D.get(), other, s.seed(), s.range(2, 5)); checkD(k1.get(), d, "clone after the original was reconfigured"); checkD(D.get(), other, "original");
    D.reset(); checkD(k1.get(), d, "clone after the original was destroyed"); DSpec third = d; param(k1.get(), third, s.seed(), 3); checkD(k2.get(), d, "clone of the clone"); checkD(k1.get(), third, "reconfigured clone");
    WSpec w = genW(s); BandwidthWeight b = makeW(w); std::unique_ptr<Weight> bc(b.clone()); BandwidthWeight bp(&b); b.setBandwidth(w.bw + 1); b.setAdaptive(!w.adaptive); auto* q = static_cast<BandwidthWeight*>(bc.get());
    require(q->bandwidth() == w.bw && q->adaptive() == w.adaptive && (int)q->kernel() == w.kernel, "cloned weight"); require(bp.bandwidth() == w.bw && bp.adaptive() == w.adaptive && (int)bp.kernel() == w.kernel, "weight copied through a pointer");
}
// An algorithm keeps its own copy: neither later changes of the caller's object, nor its destruction, nor running the algorithm leak through.
static void algorithmKeepsCopy(Src& s, Case& c) {
    Data d = genData(s, c, 8, 25, 2, 3, false, {0, 2}); Bw b = genBw(s, c, d); c.interesting();
    mat expectB; { GWRBasic r(d.x, d.y, d.coords, sw(b, false)); bool t = throws([&] { expectB = r.fit(); }); if (t) throw Discard(); }
    GWRBasic a; a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); int how = s.range(0, 2);
    { SpatialWeight w = sw(b, false); a.setSpatialWeight(w); if (how > 0) { w.weight<BandwidthWeight>()->setBandwidth(b.bw * 3 + 1); w.weight<BandwidthWeight>()->setKernel(BandwidthWeight::Boxcar); } if (how > 1) { OneDimDistance o; w.setDistance(o); } }
    mat got = a.fit(); matClose("coefficients after the caller's weighting scheme changed", got, expectB, 1e-10L);
    auto* w = a.spatialWeight().weight<BandwidthWeight>(); require(w->bandwidth() == b.bw && w->adaptive() == b.adaptive && w->kernel() == b.kernel, "the algorithm's weighting scheme changed");
    SpatialWeight copy = a.spatialWeight(); mat x2 = d.x, c2 = d.coords; vec y2 = d.y; GWRBasic a2(x2, y2, c2, copy); x2.zeros(); c2.zeros(); y2.zeros(); matClose("refit from the scheme read back", a2.fit(), expectB, 1e-10L);
}
int main(int argc, char** argv) {
    pbt::add("history", 12000, 300000, history);
    pbt::add("clones", 4000, 60000, clones);
    pbt::add("algorithm-keeps-copy", 400, 6000, algorithmKeepsCopy);
    return pbt::mainImpl(argc, argv);
}
