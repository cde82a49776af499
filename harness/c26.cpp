// C26: settings — whatever is set reads back as set, whatever else is set before or after or run in between, and results depend on the values set and not on the order of setting them.
#include "models.hpp"
using namespace models;
const char* pbt::RULE = "at least three settings were changed after the first configuration, every setting read back after every change, and a run gave results that were compared with those of a second object set up with the same final values in another order";
template <class A> struct Set { std::string name, value; std::function<void(A&)> apply; std::function<bool(A&)> holds; };
template <class A> struct Knob { std::string name; std::function<Set<A>(Src&)> draw; bool first = false; /* has to be set before the others (documented: it defines their length) */ };
template <class A> struct Knobs { std::vector<Knob<A>> v; bool search = false;
    void add(const std::string& n, std::function<Set<A>(Src&)> d, bool first = false) { Knob<A> k; k.name = n; k.first = first; k.draw = [n, d](Src& s) { Set<A> r = d(s); r.name = n; return r; }; v.push_back(k); }
    void flag(const std::string& n, std::function<void(A&, bool)> set, std::function<bool(A&)> get, int pct = 50) { add(n, [=](Src& s) { bool b = s.chance(pct); return Set<A>{"", b ? "yes" : "no", [=](A& a) { set(a, b); }, get ? std::function<bool(A&)>([=](A& a) { return get(a) == b; }) : nullptr}; }); }
    void numb(const std::string& n, std::function<double(Src&)> draw, std::function<void(A&, double)> set, std::function<double(A&)> get) { add(n, [=](Src& s) { double b = draw(s); return Set<A>{"", num(b), [=](A& a) { set(a, b); }, get ? std::function<bool(A&)>([=](A& a) { return get(a) == b; }) : nullptr}; }); } };
static bool same(const mat& a, const mat& b) { return a.n_rows == b.n_rows && a.n_cols == b.n_cols && (a.n_elem == 0 || arma::all(arma::vectorise(a == b))); }
static bool sameBw(const SpatialWeight& w, const Bw& b) { auto* q = w.weight<BandwidthWeight>(); return q && q->bandwidth() == b.bw && q->adaptive() == b.adaptive && q->kernel() == b.kernel; }
static std::string str(const Bw& b) { return std::string(KN[b.kernel]) + (b.adaptive ? " adaptive " : " fixed ") + num(b.bw); }
static Bw vary(Src& s, Bw b, const Cfg& f, double md, int nk = 2) { b.kernel = (BandwidthWeight::KernelFunctionType)s.below(nk); if (b.adaptive) b.bw = s.range(std::min(f.d.n - 2, f.d.n / 2 + 2), f.d.n - 1); else b.bw *= s.real(0.8, 1.5); (void)md; return b; }
template <class A> void dataKnobs(Knobs<A>& K, const Cfg& f) { // coordinates, and for regressions X and y
    K.add("coordinates", [f](Src& s) { mat m = f.d.coords; if (s.boolean()) m += 0.001 * f.d.scale * (f.d.geo ? 0.1 : 1); return Set<A>{"", num(m(0, 0)), [m](A& a) { a.setCoords(m); }, [m](A& a) { return same(a.coords(), m); }}; }); }
template <class A> void regKnobs(Knobs<A>& K, const Cfg& f) {
    K.add("independent variables", [f](Src& s) { mat m = f.d.x; double q = s.range(1, 4); m.col(m.n_cols - 1) *= q; return Set<A>{"", "last column times " + num(q), [m](A& a) { a.setIndependentVariables(m); }, [m](A& a) { return same(a.independentVariables(), m); }}; }, true);
    bool counts = f.alg == POISSON || f.alg == BINOMIAL; K.add("dependent variable", [f, counts](Src& s) { vec y = f.d.y; int q = s.range(0, 3); if (!counts) y *= 1 + q; else if (q) y = arma::shift(y, q); return Set<A>{"", std::to_string(q), [y](A& a) { a.setDependentVariable(y); }, [y](A& a) { return same(a.dependentVariable(), y); }}; });
    K.flag("intercept", [](A& a, bool b) { a.setHasIntercept(b); }, [](A& a) { return a.hasIntercept(); }); }
template <class A> void monoWeight(Knobs<A>& K, const Cfg& f) { double md = maxDist(f.d); K.add("spatial weight", [f, md](Src& s) { Bw b = vary(s, f.b, f, md); return Set<A>{"", str(b), [b, f](A& a) { a.setSpatialWeight(sw(b, f.d.geo)); }, [b](A& a) { return sameBw(a.spatialWeight(), b); }}; }); }
template <class A> bool mpi(A*) { return false; }
static bool mpi(GWRBasic*) { return true; }
static bool mpi(GWRMultiscale*) { return true; }
template <class A> void parKnobs(Knobs<A>& K, bool one) {
    K.add("parallel type", [](Src& s) { if (!mpi((A*)nullptr) && s.chance(8)) { auto t = s.boolean() ? ParallelType::MPI_Serial : ParallelType::MPI_MP; return Set<A>{"", "MPI (only partly offered)", [t](A& a) { a.setParallelType(t); }, nullptr}; } bool o = s.boolean(); auto t = o ? ParallelType::OpenMP : ParallelType::SerialOnly; return Set<A>{"", o ? "OpenMP" : "serial", [t](A& a) { a.setParallelType(t); }, [t](A& a) { return a.parallelType() == t; }}; });
    K.add("threads", [one](Src& s) { int t = one ? 1 : s.range(1, 4); return Set<A>{"", std::to_string(t), [t](A& a) { a.setOmpThreadNum(t); }, nullptr}; }); }
template <class A, class E> std::function<Set<A>(Src&)> choice(std::vector<E> v, std::function<void(A&, E)> set, std::function<E(A&)> get) { return [=](Src& s) { E e = v[s.below(v.size())]; return Set<A>{"", std::to_string((int)e), [=](A& a) { set(a, e); }, get ? std::function<bool(A&)>([=](A& a) { return get(a) == e; }) : nullptr}; }; }

static void basicKnobs(Knobs<GWRBasic>& K, const Cfg& f) { using A = GWRBasic; dataKnobs(K, f); regKnobs(K, f); monoWeight(K, f); parKnobs(K, true);
    K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }, 70); K.flag("automatic bandwidth", [](A& a, bool b) { a.setIsAutoselectBandwidth(b); }, [](A& a) { return a.isAutoselectBandwidth(); });
    K.add("bandwidth criterion", choice<A, A::BandwidthSelectionCriterionType>({A::CV, A::AIC}, [](A& a, A::BandwidthSelectionCriterionType t) { a.setBandwidthSelectionCriterion(t); }, [](A& a) { return a.bandwidthSelectionCriterion(); }));
    K.flag("automatic variables", [](A& a, bool b) { a.setIsAutoselectIndepVars(b); }, [](A& a) { return a.isAutoselectIndepVars(); }, 30); K.numb("variable threshold", [](Src& s) { return (double)s.range(0, 6); }, [](A& a, double v) { a.setIndepVarSelectionThreshold(v); }, [](A& a) { return a.indepVarSelectionThreshold(); });
    bool ad = f.b.adaptive; double n = f.d.n, md = maxDist(f.d); K.numb("lower search bound", [=](Src& s) { return ad ? std::floor(n / 2) + s.range(0, 3) : md * s.real(0.3, 0.5); }, [](A& a, double v) { a.setGoldenLowerBounds(v); }, nullptr); K.numb("upper search bound", [=](Src& s) { return ad ? n - 1 - s.range(0, 3) : md * s.real(0.7, 1.1); }, [](A& a, double v) { a.setGoldenUpperBounds(v); }, nullptr);
    K.flag("store S", [](A& a, bool b) { a.setStoreS(b); }, nullptr); K.flag("store C", [](A& a, bool b) { a.setStoreC(b); }, [](A& a) { return a.isStoreC(); }); K.numb("worker id", [](Src& s) { return (double)s.range(0, 3); }, [](A& a, double v) { a.setWorkerId((int)v); }, [](A& a) { return (double)a.workerId(); }); }
static Knobs<GWRBasic> knobs(GWRBasic*, const Cfg& f) { Knobs<GWRBasic> K; basicKnobs(K, f); return K; }
static Knobs<GWRRobust> knobs(GWRRobust*, const Cfg& f) { using A = GWRRobust; Knobs<GWRBasic> B; basicKnobs(B, f); Knobs<A> K; for (auto& k : B.v) { if (k.name == "parallel type") continue; auto d = k.draw; K.add(k.name, [d](Src& s) { Set<GWRBasic> q = d(s); return Set<A>{"", q.value, [q](A& a) { q.apply(a); }, q.holds ? std::function<bool(A&)>([q](A& a) { return q.holds(a); }) : nullptr}; }, k.first); }
    K.add("parallel type", [](Src& s) { bool o = s.boolean(); auto t = o ? ParallelType::OpenMP : ParallelType::SerialOnly; return Set<A>{"", o ? "OpenMP" : "serial", [t](A& a) { a.setParallelType(t); }, [t](A& a) { return a.parallelType() == t; }}; }); K.flag("filtered", [](A& a, bool b) { a.setFiltered(b); }, [](A& a) { return a.filtered(); }); return K; }
static Knobs<GWRLocalCollinearity> knobs(GWRLocalCollinearity*, const Cfg& f) { using A = GWRLocalCollinearity; Knobs<A> K; dataKnobs(K, f); regKnobs(K, f); monoWeight(K, f); parKnobs(K, true); K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }); K.flag("automatic bandwidth", [](A& a, bool b) { a.setIsAutoselectBandwidth(b); }, [](A& a) { return a.isAutoselectBandwidth(); }, 35);
    K.add("bandwidth criterion", choice<A, A::BandwidthSelectionCriterionType>({A::CV}, [](A& a, A::BandwidthSelectionCriterionType t) { a.setBandwidthSelectionCriterion(t); }, [](A& a) { return a.bandwidthSelectionCriterion(); }));
    K.numb("ridge", [](Src& s) { return s.boolean() ? 0 : s.real(0, 0.5); }, [](A& a, double v) { a.setLambda(v); }, [](A& a) { return a.lambda(); }); K.flag("ridge adjustment", [](A& a, bool b) { a.setLambdaAdjust(b); }, [](A& a) { return a.lambdaAdjust(); }); K.numb("condition threshold", [](Src& s) { return s.real(2, 40); }, [](A& a, double v) { a.setCnThresh(v); }, [](A& a) { return a.cnThresh(); }); return K; }
static Knobs<GWRGeneralized> knobs(GWRGeneralized*, const Cfg& f) { using A = GWRGeneralized; Knobs<A> K; dataKnobs(K, f); regKnobs(K, f); monoWeight(K, f); parKnobs(K, true); K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }); K.flag("automatic bandwidth", [](A& a, bool b) { a.setIsAutoselectBandwidth(b); }, [](A& a) { return a.autoselectBandwidth(); }, 35);
    K.add("bandwidth criterion", choice<A, A::BandwidthSelectionCriterionType>({A::CV, A::AIC}, [](A& a, A::BandwidthSelectionCriterionType t) { a.setBandwidthSelectionCriterionType(t); }, [](A& a) { return a.bandwidthSelectionCriterionType(); }));
    bool bin = f.alg == BINOMIAL; K.add("family", choice<A, A::Family>(bin ? std::vector<A::Family>{A::Poisson, A::Binomial, A::Binomial} : std::vector<A::Family>{A::Poisson}, [](A& a, A::Family t) { a.setFamily(t); }, [](A& a) { return a.getFamily(); }));
    K.numb("tolerance", [](Src& s) { return std::pow(10.0, -s.range(2, 8)); }, [](A& a, double v) { a.setTol(v); }, [](A& a) { return a.getTol(); }); K.numb("iteration limit", [](Src& s) { return (double)s.range(2, 25); }, [](A& a, double v) { a.setMaxiter((size_t)v); }, [](A& a) { return (double)a.getMaxiter(); }); return K; }
static Knobs<GTWR> knobs(GTWR*, const Cfg& f) { using A = GTWR; Knobs<A> K; regKnobs(K, f); parKnobs(K, true);
    K.add("coordinates", [f](Src& s) { mat m = f.d.coords; vec t = f.times; if (s.boolean()) m += 0.001 * f.d.scale * (f.d.geo ? 0.1 : 1); if (s.boolean()) t *= 2; return Set<A>{"", num(m(0, 0)) + "/" + num(t.max()), [m, t](A& a) { a.setCoords(m, t); }, [m](A& a) { return same(a.coords(), m); }}; });
    double md = maxDist(f.d); K.add("spatial weight", [f, md](Src& s) { Cfg g = f; g.b = vary(s, f.b, f, md); Bw b = g.b; return Set<A>{"", str(b), [g](A& a) { a.setSpatialWeight(stWeight(g)); }, [b](A& a) { return sameBw(a.spatialWeight(), b); }}; });
    K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }, 70); bool ab = f.lambda == 1 || f.autoBw; K.flag("automatic bandwidth", [](A& a, bool b) { a.setIsAutoselectBandwidth(b); }, [](A& a) { return a.isAutoselectBandwidth(); }, ab ? 50 : 0);
    K.add("bandwidth criterion", choice<A, A::BandwidthSelectionCriterionType>({A::CV, A::AIC}, [](A& a, A::BandwidthSelectionCriterionType t) { a.setBandwidthSelectionCriterion(t); }, [](A& a) { return a.bandwidthSelectionCriterion(); })); K.flag("automatic balance", [](A& a, bool b) { a.setIsAutoselectLambda(b); }, nullptr, 25); return K; }
static Knobs<GWDR> knobs(GWDR*, const Cfg& f) { using A = GWDR; Knobs<A> K; dataKnobs(K, f); regKnobs(K, f); parKnobs(K, true);
    K.add("spatial weights", [f](Src& s) { std::vector<Bw> v; std::string t; for (auto& q : f.bs) { v.push_back(vary(s, q, f, 0)); t += str(v.back()) + "; "; } return Set<A>{"", t, [v](A& a) { std::vector<SpatialWeight> w; for (auto& b : v) w.push_back(dimWeight(b)); a.setSpatialWeights(w); }, [v](A& a) { auto& w = a.spatialWeights(); if (w.size() != v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!sameBw(w[i], v[i])) return false; return true; }}; });
    K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }, 70); K.flag("optimise bandwidths", [](A& a, bool b) { a.setEnableBandwidthOptimize(b); }, [](A& a) { return a.enableBandwidthOptimize(); }, 25); K.numb("optimiser precision", [](Src& s) { return s.real(0.005, 0.05); }, [](A& a, double v) { a.setBandwidthOptimizeEps(v); }, [](A& a) { return a.bandwidthOptimizeEps(); }); K.numb("optimiser iterations", [](Src& s) { return (double)s.range(1000, 3000); }, [](A& a, double v) { a.setBandwidthOptimizeMaxIter((size_t)v); }, [](A& a) { return (double)a.bandwidthOptimizeMaxIter(); }); K.numb("optimiser step", [](Src& s) { return s.real(0.01, 0.1); }, [](A& a, double v) { a.setBandwidthOptimizeStep(v); }, [](A& a) { return a.bandwidthOptimizeStep(); });
    K.add("bandwidth criterion", choice<A, A::BandwidthCriterionType>({A::CV, A::AIC}, [](A& a, A::BandwidthCriterionType t) { a.setBandwidthCriterionType(t); }, [](A& a) { return a.bandwidthCriterionType(); })); K.flag("select variables", [](A& a, bool b) { a.setEnableIndepVarSelect(b); }, [](A& a) { return a.enableIndpenVarSelect(); }, 30); K.numb("variable threshold", [](Src& s) { return (double)s.range(0, 6); }, [](A& a, double v) { a.setIndepVarSelectThreshold(v); }, [](A& a) { return a.indepVarSelectThreshold(); }); return K; }
template <class A> void varKnob(Knobs<A>& K, const Cfg& f) { K.add("variables", [f](Src& s) { mat m = f.d.x; double q = s.range(1, 4); m.col(0) *= q; return Set<A>{"", "first column times " + num(q), [m](A& a) { a.setVariables(m); }, [m](A& a) { return same(a.variables(), m); }}; }); }
static Knobs<GWSS> knobs(GWSS*, const Cfg& f) { using A = GWSS; Knobs<A> K; dataKnobs(K, f); varKnob(K, f); monoWeight(K, f); parKnobs(K, false); K.flag("quantiles", [](A& a, bool b) { a.setQuantile(b); }, [](A& a) { return a.quantile(); }); K.flag("first only", [](A& a, bool b) { a.setIsCorrWithFirstOnly(b); }, [](A& a) { return a.isCorrWithFirstOnly(); });
    K.add("mode", choice<A, GWSS::GWSSMode>({GWSS::GWSSMode::Average, GWSS::GWSSMode::Correlation}, [](A& a, GWSS::GWSSMode t) { a.setGWSSMode(t); }, nullptr)); return K; }
static Knobs<GWDA> knobs(GWDA*, const Cfg& f) { using A = GWDA; Knobs<A> K; dataKnobs(K, f); varKnob(K, f); monoWeight(K, f); parKnobs(K, false); K.add("groups", [f](Src& s) { auto g = f.groups; if (s.boolean()) for (auto& q : g) if (q == "b") q = "zeta"; return Set<A>{"", "", [g](A& a) { auto h = g; a.setGroup(h); }, nullptr}; });
    K.flag("quadratic", [](A& a, bool b) { a.setIsWqda(b); }, [](A& a) { return a.isWqda(); }); K.flag("local covariances", [](A& a, bool b) { a.setHascov(b); }, [](A& a) { return a.hasCov(); }); K.flag("local means", [](A& a, bool b) { a.setHasmean(b); }, [](A& a) { return a.hasMean(); }); K.flag("local priors", [](A& a, bool b) { a.setHasprior(b); }, [](A& a) { return a.hasPrior(); }); return K; }
static Knobs<GWPCA> knobs(GWPCA*, const Cfg& f) { using A = GWPCA; Knobs<A> K; dataKnobs(K, f); varKnob(K, f); monoWeight(K, f); int k = f.d.k; K.numb("components", [k](Src& s) { return (double)s.range(1, k); }, [](A& a, double v) { a.setKeepComponents((int)v); }, [](A& a) { return (double)a.keepComponents(); }); return K; }
static Knobs<GWRScalable> knobs(GWRScalable*, const Cfg& f) { using A = GWRScalable; Knobs<A> K; dataKnobs(K, f); regKnobs(K, f); monoWeight(K, f); K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }); K.numb("polynomial", [](Src& s) { return (double)s.range(1, 4); }, [](A& a, double v) { a.setPolynomial((arma::uword)v); }, [](A& a) { return (double)a.polynomial(); });
    K.add("criterion", choice<A, A::BandwidthSelectionCriterionType>({A::CV, A::AIC}, [](A& a, A::BandwidthSelectionCriterionType t) { a.setParameterOptimizeCriterion(t); }, [](A& a) { return a.parameterOptimizeCriterion(); })); return K; }
static Knobs<GWRMultiscale> knobs(GWRMultiscale*, const Cfg& f) { using A = GWRMultiscale; Knobs<A> K; dataKnobs(K, f); regKnobs(K, f); parKnobs(K, true); size_t k = f.d.k; K.v.erase(std::remove_if(K.v.begin(), K.v.end(), [](Knob<A>& q) { return q.name == "intercept"; }), K.v.end()); K.flag("intercept", [](A& a, bool b) { a.setHasIntercept(b); }, [](A& a) { return a.hasIntercept(); }, 50);
    K.add("spatial weights", [f](Src& s) { std::vector<Bw> v; std::string t; int kk = s.below(2); for (auto& q : f.bs) { Bw b = vary(s, q, f, 0); b.kernel = (BandwidthWeight::KernelFunctionType)kk; v.push_back(b); t += str(b) + "; "; } return Set<A>{"", t, [v, f](A& a) { std::vector<SpatialWeight> w; for (auto& b : v) w.push_back(sw(b, f.d.geo)); a.setSpatialWeights(w); }, [v](A& a) { auto& w = a.spatialWeights(); if (w.size() != v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!sameBw(w[i], v[i])) return false; return true; }}; });
    using I = A::BandwidthInitilizeType; using T = A::BandwidthSelectionCriterionType; K.add("initialisation", [k](Src& s) { std::vector<I> v; std::string t; for (size_t i = 0; i < k; i++) { v.push_back((I)s.range(0, 2)); t += std::to_string((int)v.back()); } return Set<A>{"", t, [v](A& a) { a.setBandwidthInitilize(v); }, [v](A& a) { return a.bandwidthInitilize() == v; }}; });
    K.add("approach", [k](Src& s) { std::vector<T> v; std::string t; for (size_t i = 0; i < k; i++) { v.push_back(s.boolean() ? A::CV : A::AIC); t += std::to_string((int)v.back()); } return Set<A>{"", t, [v](A& a) { a.setBandwidthSelectionApproach(v); }, [v](A& a) { return a.bandwidthSelectionApproach() == v; }}; });
    K.add("centring", [k](Src& s) { std::vector<bool> v; std::string t; for (size_t i = 0; i < k; i++) { v.push_back(i > 0 && s.chance(40)); t += v.back() ? "1" : "0"; } return Set<A>{"", t, [v](A& a) { a.setPreditorCentered(v); }, [v](A& a) { return a.preditorCentered() == v; }}; });
    K.add("thresholds", [k](Src& s) { std::vector<double> v; for (size_t i = 0; i < k; i++) v.push_back(std::pow(10.0, -s.range(1, 5))); return Set<A>{"", "", [v](A& a) { a.setBandwidthSelectThreshold(v); }, [v](A& a) { return a.bandwidthSelectThreshold() == v; }}; });
    K.flag("hat matrix", [](A& a, bool b) { a.setHasHatMatrix(b); }, [](A& a) { return a.hasHatMatrix(); }); K.numb("retries", [](Src& s) { return (double)s.range(1, 5); }, [](A& a, double v) { a.setBandwidthSelectRetryTimes((size_t)v); }, [](A& a) { return (double)a.bandwidthSelectRetryTimes(); }); K.numb("iteration limit", [](Src& s) { return (double)s.range(2, 30); }, [](A& a, double v) { a.setMaxIteration((size_t)v); }, [](A& a) { return (double)a.maxIteration(); });
    K.add("criterion type", choice<A, A::BackFittingCriterionType>({A::CVR, A::dCVR}, [](A& a, A::BackFittingCriterionType t) { a.setCriterionType(t); }, [](A& a) { return a.criterionType(); })); K.numb("criterion threshold", [](Src& s) { return std::pow(10.0, -s.range(2, 6)); }, [](A& a, double v) { a.setCriterionThreshold(v); }, [](A& a) { return a.criterionThreshold(); }); K.numb("smallest neighbour count", [](Src& s) { return (double)s.range(8, 14); }, [](A& a, double v) { a.setAdaptiveLower((int)v); }, [](A& a) { return (double)a.adaptiveLower(); }); K.numb("worker id", [](Src& s) { return (double)s.range(0, 3); }, [](A& a, double v) { a.setWorkerId((int)v); }, [](A& a) { return (double)a.workerId(); }); return K; }

template <class A> auto selects(A& a, int) -> decltype(a.isAutoselectIndepVars(), bool()) { return a.isAutoselectIndepVars(); }
template <class A> bool selects(A&, long) { return false; }
static bool selects(GWDR& a, int) { return a.enableIndpenVarSelect(); }
template <class A> auto search(A& a, int) -> decltype(a.isAutoselectBandwidth(), bool()) { return a.isAutoselectBandwidth(); }
template <class A> bool search(A&, long) { return false; }
static bool search(GWRGeneralized& a, int) { return a.autoselectBandwidth(); }
static bool search(GWDR& a, int) { return a.enableBandwidthOptimize(); }
static bool search(GWRMultiscale&, int) { return true; }
template <class A> bool offered(A& a, ParallelType t, decltype(a.parallelAbility())*) { return a.parallelAbility() & t; }
template <class A> auto parallelOf(A& a, int) -> decltype(a.parallelType(), int()) { return (int)a.parallelType(); }
template <class A> int parallelOf(A&, long) { return 0; }
template <class A> auto setUnoffered(A& a, ParallelType t, int) -> decltype(a.setParallelType(t), bool()) { if (a.parallelAbility() & t) return false; a.setParallelType(t); return true; }
template <class A> bool setUnoffered(A&, ParallelType, long) { return false; }
// The same object made by the constructor that takes data, weighting and options.
using Names = std::set<std::string>; static const Names REG = {"independent variables", "dependent variable", "coordinates", "spatial weight", "spatial weights", "hat matrix", "intercept"}, ANA = {"variables", "coordinates", "spatial weight"};
template <class A> std::unique_ptr<A> built(A&, Names&) { return nullptr; }
static std::unique_ptr<GWRBasic> built(GWRBasic& o, Names& n) { n = REG; return std::unique_ptr<GWRBasic>(new GWRBasic(o.independentVariables(), o.dependentVariable(), o.coords(), o.spatialWeight(), o.hasHatMatrix(), o.hasIntercept())); }
static std::unique_ptr<GTWR> built(GTWR& o, Names& n) { n = REG; n.erase("coordinates"); return std::unique_ptr<GTWR>(new GTWR(o.independentVariables(), o.dependentVariable(), o.coords(), o.spatialWeight(), o.hasHatMatrix(), o.hasIntercept())); }
static std::unique_ptr<GWDR> built(GWDR& o, Names& n) { n = REG; return std::unique_ptr<GWDR>(new GWDR(o.independentVariables(), o.dependentVariable(), o.coords(), o.spatialWeights(), o.hasHatMatrix(), o.hasIntercept())); }
static std::unique_ptr<GWRMultiscale> built(GWRMultiscale& o, Names& n) { n = REG; n.erase("hat matrix"); n.erase("intercept"); return std::unique_ptr<GWRMultiscale>(new GWRMultiscale(o.independentVariables(), o.dependentVariable(), o.coords(), o.spatialWeights())); }
template <class A> std::unique_ptr<A> builtA(A& o, Names& n) { n = ANA; return std::unique_ptr<A>(new A(o.variables(), o.coords(), o.spatialWeight())); }
static std::unique_ptr<GWSS> built(GWSS& o, Names& n) { return builtA(o, n); }
static std::unique_ptr<GWDA> built(GWDA& o, Names& n) { return builtA(o, n); }
static std::unique_ptr<GWPCA> built(GWPCA& o, Names& n) { return builtA(o, n); }
template <class A> void shared(const Cfg& f, Src& s, Case& c) {
    Knobs<A> K = knobs((A*)nullptr, f); A a, b; std::vector<Set<A>> cur; for (int pass = 0; pass < 2; pass++) for (auto& k : K.v) if (k.first == (pass == 0)) { Set<A> q = k.draw(s); q.apply(a); cur.push_back(q); }
    auto all = [&](A& o, const std::string& when, std::function<bool(const std::string&)> skip = nullptr) { for (auto& q : cur) if (q.holds && !(skip && skip(q.name)) && !q.holds(o)) throw Fail(when + ": " + q.name + " no longer reads back as set (" + q.value + ")"); };
    all(a, "after configuring"); int steps = s.range(0, 14), changed = 0;
    auto step = [&](A& o) { if (s.chance(6)) { ParallelType t = s.boolean() ? ParallelType::CUDA : ParallelType::MPI; int was = parallelOf(o, 0); if (setUnoffered(o, t, 0)) { c.desc << " | parallel type not offered"; require(parallelOf(o, 0) == was, "a parallel type that is not offered is reported as the one in use"); c.label("type not offered"); all(o, "after asking for a parallel type that is not offered"); } return; }
        auto& k = K.v[s.below(K.v.size())]; Set<A> q = k.draw(s); c.desc << " | " << q.name << "=" << q.value; q.apply(o); changed++; for (auto& z : cur) if (z.name == q.name) z = q; all(o, "after setting " + q.name); };
    for (int i = 0; i < steps; i++) step(a);
    auto runOf = [&](A& o) { Res r; try { mat m = doRun(o); collect(o, r.o); r.o.add("returned", m); r.st = o.status(); } catch (const std::exception& e) { r.threw = true; r.what = e.what(); } return r; };
    auto compare = [&](A& o, const std::string& what) { // a second object, set up in another order
        Names given; std::unique_ptr<A> pp; if (s.chance(40)) { pp = built(o, given); if (pp) { c.label("constructed with arguments"); c.desc << " (second object by constructor)"; } } if (!pp) { pp.reset(new A()); given.clear(); } A& p = *pp; std::vector<size_t> ord; for (size_t i = 0; i < cur.size(); i++) ord.push_back(i); for (size_t i = ord.size(); i-- > 1;) std::swap(ord[i], ord[s.below(i + 1)]); std::stable_partition(ord.begin(), ord.end(), [&](size_t i) { for (auto& k : K.v) if (k.name == cur[i].name) return k.first; return false; });
        for (size_t i : ord) if (!given.count(cur[i].name)) cur[i].apply(p); all(p, what + ", set in another order"); require(o.isValid() == p.isValid(), what + ": the validity depends on the order of settings"); if (!o.isValid()) throw Discard(); int was = parallelOf(o, 0);
        Res x = runOf(o), y = runOf(p); bool srch = search(o, 0) || K.search; auto skip = [&](const std::string& n) { if ((n == "spatial weight" || n == "spatial weights") && (srch || f.alg == GTWR_)) return true; return n == "independent variables" ? f.alg == MULTISCALE || selects(o, 0) : f.alg == MULTISCALE && n == "initialisation"; }; all(o, what + ", after the run", skip); require(parallelOf(o, 0) == was, what + ": the run changes the parallel type");
        require(x.threw == y.threw, what + ": " + (x.threw ? "fails (" + x.what + ")" : "fails when set in another order (" + y.what + ")")); if (x.threw) { c.label("error in both orders"); return false; } require(x.st == y.st, what + ": another status when set in another order"); std::string e = diffReordered(x.o, y.o, 1e-9); require(e.empty(), what + ": depends on the order of settings: " + e);
        all(p, what + ", set in another order, after the run", skip); return true; };
    bool ok = compare(a, "first run"); if (s.boolean()) { // further changes and another run of the same object
        c.desc << " | RUN"; for (auto& q : cur) if (q.name == "spatial weight" || q.name == "spatial weights" || q.name == "independent variables" || q.name == "initialisation") q.apply(a); /* what a run may replace is set anew */ all(a, "after setting anew what the run replaced");
        int more = s.range(1, 6); for (int i = 0; i < more; i++) step(a); c.label("changed after a run"); A p; /* results of options that are switched off may be those of the run before */
        { std::vector<Set<A>> keep = cur; Res x = runOf(a); for (int pass = 0; pass < 2; pass++) for (size_t i = keep.size(); i-- > 0;) for (auto& k : K.v) if (k.name == keep[i].name && k.first == (pass == 0)) keep[i].apply(p); Res y = runOf(p); require(x.threw == y.threw, "second run: " + (x.threw ? "fails (" + x.what + ")" : "a new object fails (" + y.what + ")")); if (!x.threw) { const mat *u = x.o.find("returned"), *v = y.o.find("returned"); Out q, r; if (u && v) { q.add("returned", *u); r.add("returned", *v); } require(x.o.m.size() == y.o.m.size(), "second run: another set of results than a new object"); for (size_t i = 0; i < x.o.m.size(); i++) { auto &z = x.o.m[i], &w = y.o.m[i]; if (w.second.n_elem && (z.first == "betas" || z.first == "mean" || z.first == "corr" || z.first == "scores" || z.first == "pv" || z.first == "bandwidth")) { q.add(z.first, z.second); r.add(z.first, w.second); } } std::string e = diff(q, r, 1e-9); require(e.empty(), "second run after changed settings: differs from that of a new object: " + e); } } }
    if (ok && changed >= 3) c.interesting();
}
static void settings(Src& s, Case& c) {
    int alg = s.range(0, NALG - 1); GenOpt g; g.nhi = 26; g.autos = false; g.safeKernels = true; Cfg f = genCfg(s, c, alg, g);
    switch (alg) { case BASIC: shared<GWRBasic>(f, s, c); break; case ROBUST: shared<GWRRobust>(f, s, c); break; case LCR: shared<GWRLocalCollinearity>(f, s, c); break; case POISSON: case BINOMIAL: shared<GWRGeneralized>(f, s, c); break; case GTWR_: shared<GTWR>(f, s, c); break; case GWDR_: shared<GWDR>(f, s, c); break; case GWSS_AVG: case GWSS_COR: shared<GWSS>(f, s, c); break; case GWDA_LDA: case GWDA_QDA: shared<GWDA>(f, s, c); break; case MULTISCALE: shared<GWRMultiscale>(f, s, c); break; case SCALABLE: shared<GWRScalable>(f, s, c); break; default: shared<GWPCA>(f, s, c); }
}
int main(int argc, char** argv) { pbt::add("settings", 6000, 150000, settings); return pbt::mainImpl(argc, argv); }
