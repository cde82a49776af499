// C09: distributed (MPI) runs give the serial answers for every number of processes, including more processes than observations.
#include <mpi.h>
#include "models.hpp"
#include "gwmodelpp/utils/armampi.h"
#include <map>
#include <sys/stat.h>
using namespace models;
const char* pbt::RULE = "a batch of generated models (or matrix products) run under mpiexec with at least 2 processes whose master results were all compared with a serial run";
enum Kind { BASIC_FIT, BASIC_SINGULAR, MGWR, MATMUL, REUSE, NKIND };
static const char* KNAME[] = {"basic", "singular", "multiscale", "matmul", "reuse"};

// ---- child side (every rank) -------------------------------------------------------------------
static int rank_, np_;
template <class A> static void mpiConf(A& a, int mp, int threads) { a.setParallelType(mp ? ParallelType::MPI_MP : ParallelType::MPI_Serial); if (mp) a.setOmpThreadNum(threads); a.setWorkerId(rank_); a.setWorkerNum(np_); }
static std::string oneBasic(Src& s, Case& c, bool singular) {
    GenOpt g; g.nlo = singular || s.chance(70) ? 12 : 24; g.nhi = 40; g.autos = !singular; Cfg f = genCfg(s, c, BASIC, g); f.hat = true; if (s.chance(20) && !f.autoBw) { /* very few observations: some processes get none */ int n = s.range(f.d.k + 4, 9); if (n < f.d.n) { f.d.n = n; f.d.x = mat(f.d.x.rows(0, n - 1)); f.d.y = vec(f.d.y.subvec(0, n - 1)); f.d.coords = mat(f.d.coords.rows(0, n - 1)); if (f.b.adaptive) f.b.bw = n; else f.b.bw = maxDist(f.d); f.b.kernel = BandwidthWeight::Gaussian; f.autoVar = false; c.desc << " reduced to n=" << n; } }
    int mp = s.range(0, 1), th = s.range(1, 3); c.desc << (mp ? " MPI+OpenMP " : " MPI ") << th; if (singular) { int z = s.range(1, f.d.k - 1); if (s.boolean()) { f.d.x.col(z).zeros(); c.desc << " zero column"; } else { // only one location is singular, and only one process meets it
            int r = s.range(0, f.d.n - 1); f.d.coords(r, 0) += 1000 * f.d.scale; f.d.geo = false; f.b = {20 * f.d.scale, false, BandwidthWeight::Bisquare}; for (int j = 1; j < f.d.k; j++) f.d.x(r, j) = 0; c.desc << " isolated observation " << r; } f.autoBw = s.chance(30); f.autoVar = false; }
    if (f.autoBw && f.b.kernel == BandwidthWeight::Boxcar) { f.b.kernel = BandwidthWeight::Bisquare; c.desc << " (bisquare)"; } // a piecewise constant criterion has exact ties, which the order of summation decides
    if (!singular && s.chance(8)) { f.d.y *= 1e190; f.autoVar = false; c.desc << " response too large to be squared"; }
    auto ser = make(f); Res rs = runModel(*ser); GWRBasic a; if (rank_ == 0) { a.setCoords(f.d.coords); a.setIndependentVariables(f.d.x); a.setDependentVariable(f.d.y); } a.setSpatialWeight(sw(f.b, f.d.geo)); a.setHasHatMatrix(f.hat); bool storeS = s.boolean(); (void)storeS; mpiConf(a, mp, th); a.setIsAutoselectBandwidth(f.autoBw); a.setBandwidthSelectionCriterion(f.cv ? GWRBasic::CV : GWRBasic::AIC); a.setIsAutoselectIndepVars(f.autoVar); a.setIndepVarSelectionThreshold(f.thr);
    bool threw = false; std::string what; mat ret; try { ret = a.fit(); } catch (const std::exception& e) { threw = true; what = e.what(); }
    int any = threw, all = threw; MPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); MPI_Allreduce(MPI_IN_PLACE, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    if (rank_) return ""; if (any != (int)rs.threw) return std::string("serial run ") + (rs.threw ? "fails" : "succeeds") + " but the distributed one " + (any ? "fails: " + what : "succeeds"); if (any && !all) return "the failure is reported by some processes only"; if (any) return "";
    Out o; collect(a, o); o.add("returned", ret); Out A, B; for (auto& p : rs.o.m) if (p.first != "S") A.m.push_back(p); for (auto& p : o.m) if (p.first != "S") B.m.push_back(p); std::string e = diffReordered(A, B, 1e-6); return e.empty() ? "" : "serial and distributed results differ: " + e;
}
static std::string oneMgwr(Src& s, Case& c) {
    GenOpt g; Cfg f = genCfg(s, c, MULTISCALE, g); int mp = s.range(0, 1), th = s.range(1, 3); c.desc << (mp ? " MPI+OpenMP " : " MPI ") << th; auto ser = make(f); Res rs = runModel(*ser); if (rs.threw) return ""; GWRMultiscale a; conf(a, f); if (s.chance(40)) { c.desc << " (workers hold other values)"; if (rank_) { a.setDependentVariable(vec(f.d.n, arma::fill::zeros)); a.setIndependentVariables(mat(f.d.n, f.d.k, arma::fill::ones)); } } mpiConf(a, mp, th); bool threw = false; std::string what; mat ret; try { ret = a.fit(); } catch (const std::exception& e) { threw = true; what = e.what(); }
    if (rank_) return ""; if (threw) return "the distributed run fails: " + what; Out o; collect(a, o); o.add("returned", ret); std::string e = diffReordered(rs.o, o, 1e-5); return e.empty() ? "" : "serial and distributed results differ: " + e;
}
static std::string oneMul(Src& s, Case& c) { // row blocks of A (N x N) and B (N x M) spread over the processes; the product's row blocks come back
    std::vector<int> rows(np_); int N = 0; bool even = s.boolean(); int base = s.range(1, 6); for (int i = 0; i < np_; i++) { rows[i] = even ? base : s.range(0, 7); N += rows[i]; } if (N == 0) { rows[0] = 1; N = 1; } int M = s.range(1, 12); Rng r(s.seed()); mat A(N, N), B(N, M); for (auto& v : A) v = r.normal(); for (auto& v : B) v = r.normal(); c.desc << " matmul rows"; for (int x : rows) c.desc << " " << x; c.desc << " columns " << M;
    int off = 0; for (int i = 0; i < rank_; i++) off += rows[i]; mat a = rows[rank_] ? mat(A.rows(off, off + rows[rank_] - 1)) : mat(0, N), b = rows[rank_] ? mat(B.rows(off, off + rows[rank_] - 1)) : mat(0, M), cc; mat_mul_mpi(a, b, cc, rank_, np_, *std::max_element(rows.begin(), rows.end()));
    mat want = A * B; int bad = 0; if (cc.n_rows != (uword)rows[rank_] || cc.n_cols != (uword)M) bad = 1; else for (int i = 0; i < rows[rank_] && !bad; i++) for (int j = 0; j < M; j++) if (!(std::fabs(cc(i, j) - want(off + i, j)) < 1e-9 * N)) bad = 1; MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return rank_ == 0 && bad ? "the distributed product differs from the serial one" : "";
}
// One object per process is used several times, distributed and alone in turn: no use leaves a trace in the next.
static std::string agree(bool& threw) { int any = threw, all = threw; MPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); MPI_Allreduce(MPI_IN_PLACE, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); threw = any; return any && !all ? "the failure is reported by some processes only" : ""; }
static std::string oneReuse(Src& s, Case& c) {
    bool multi = s.chance(30); int ops = s.range(2, 4); GWRBasic a; GWRMultiscale m; c.desc << (multi ? "multiscale" : "basic"); std::string err;
    for (int k = 0; k < ops; k++) { GenOpt g; g.autos = s.chance(30); Cfg f = genCfg(s, c, multi ? MULTISCALE : BASIC, g); f.hat = true; if (f.autoBw && f.b.kernel == BandwidthWeight::Boxcar) f.b.kernel = BandwidthWeight::Bisquare; int how = s.range(0, 3), th = s.range(1, 3); f.threads = 0; static const char* H[] = {" distributed", " distributed with threads", " alone", " alone with threads"}; c.desc << H[how] << (k + 1 < ops ? ";" : ""); bool alone = how >= 2, pred = !multi && s.chance(40), other = s.boolean();
        auto ser = make(f); Res rs = runModel(*ser); mat loc(5, 2); Rng q(f.d.seed + 9); for (int i = 0; i < 5; i++) { double h = q.unit(); loc.row(i) = f.d.coords.row(q.below(f.d.n)) * h + f.d.coords.row(q.below(f.d.n)) * (1 - h); }
        auto setup = [&](auto& o) { conf(o, f); if (!alone && rank_ && other) { o.setDependentVariable(vec(3, arma::fill::zeros)); o.setIndependentVariables(mat(3, 1, arma::fill::ones)); o.setCoords(mat(3, 2, arma::fill::zeros)); } o.setParallelType(how == 0 ? ParallelType::MPI_Serial : how == 1 ? ParallelType::MPI_MP : how == 2 ? ParallelType::SerialOnly : ParallelType::OpenMP); o.setOmpThreadNum(th); o.setWorkerId(rank_); o.setWorkerNum(np_); };
        if (multi) { other = false; setup(m); } else setup(a); bool threw = false; std::string what; mat ret, p; try { ret = multi ? m.fit() : a.fit(); } catch (const std::exception& e) { threw = true; what = e.what(); } std::string e = agree(threw); if (err.empty()) err = e;
        if (err.empty() && (rank_ == 0 || alone)) { if (threw != rs.threw) err = std::string("a serial run ") + (rs.threw ? "fails" : "succeeds") + " but operation " + std::to_string(k + 1) + (threw ? " fails: " + what : " succeeds"); else if (!threw) { Out o; if (multi) collect(m, o); else collect(a, o); o.add("returned", ret); Out A, B; std::string d; std::map<std::string, int> seen; for (auto& x : rs.o.m) { int nth = seen[x.first]++; if (x.first == "S" || !x.second.n_elem) continue; A.m.push_back(x); bool got = false; for (auto& y : o.m) if (y.first == x.first && nth-- == 0) { B.m.push_back(y); got = true; break; } if (!got) d = "no " + x.first; } if (d.empty()) d = diffReordered(A, B, multi ? 1e-5 : 1e-6); if (!d.empty()) err = "operation " + std::to_string(k + 1) + " of an object used before differs from the serial run: " + d;
            else if (pred && !f.autoBw && !f.autoVar) try { mat want = ser->predict(loc); Out U, V; U.add("prediction", want); V.add("prediction", a.predict(loc)); d = diff(U, V, 1e-6); if (!d.empty()) err = "prediction after operation " + std::to_string(k + 1) + " differs from that after a serial run: " + d; } catch (const std::exception&) {} } }
        int bad = !err.empty(); MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (bad) { if (err.empty()) err = rank_ ? "" : "another process found: (see its own results) operation " + std::to_string(k + 1) + " differs from the serial run"; return err; } }
    return "";
}
static int child(int argc, char** argv) { // --mpi-child kind seed count resultfile
    MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &np_); int kind = atoi(argv[2]); uint64_t seed = strtoull(argv[3], 0, 10); int count = atoi(argv[4]); FILE* f = rank_ == 0 ? fopen(argv[5], "w") : nullptr;
    for (int i = 0; i < count; i++) { Src s(seed * 1000003ULL + i + 1 + kind * 77); Case c; std::string m, d; if (f) { fprintf(f, "BEGIN %d\n", i); fflush(f); }
        try { m = kind == BASIC_FIT ? oneBasic(s, c, false) : kind == BASIC_SINGULAR ? oneBasic(s, c, true) : kind == MGWR ? oneMgwr(s, c) : kind == REUSE ? oneReuse(s, c) : oneMul(s, c); } catch (const Discard&) {} catch (const std::exception& e) { m = std::string("unexpected: ") + e.what(); }
        d = c.desc.str(); if (f) { fprintf(f, "%s %s | %s\n", m.empty() ? "OK" : "FAIL", m.c_str(), d.c_str()); fflush(f); if (!m.empty()) { fclose(f); MPI_Abort(MPI_COMM_WORLD, 1); } } }
    if (f) { fprintf(f, "END\n"); fclose(f); } MPI_Finalize(); return 0;
}
// ---- parent side ---------------------------------------------------------------------------------
static std::string runBatch(int np, int kind, uint64_t seed, int count, double timeout, int& done) {
    char dir[] = "/tmp/vpmpi.XXXXXX"; if (!mkdtemp(dir)) return "cannot make a scratch directory"; std::string file = std::string(dir) + "/r"; pid_t p = fork();
    if (p == 0) { setpgid(0, 0); int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); setenv("TMPDIR", dir, 1); setenv("OMPI_MCA_orte_tmpdir_base", dir, 1); execlp("mpiexec", "mpiexec", "-np", std::to_string(np).c_str(), getenv("VERIF_EXE"), "--mpi-child", std::to_string(kind).c_str(), std::to_string(seed).c_str(), std::to_string(count).c_str(), file.c_str(), (char*)nullptr); _exit(127); }
    int st = 0; double t0 = pbt::now(); bool hang = false; while (waitpid(p, &st, WNOHANG) == 0) { if (pbt::now() - t0 > timeout) { hang = true; kill(p, SIGTERM); usleep(500000); kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(5000); }
    std::string out, last; FILE* f = fopen(file.c_str(), "r"); done = 0; bool end = false; std::string fail; if (f) { char line[65536]; while (fgets(line, sizeof line, f)) { last = line; if (last.compare(0, 2, "OK") == 0) done++; else if (last.compare(0, 3, "END") == 0) end = true; else if (last.compare(0, 4, "FAIL") == 0) fail = last.substr(5); } fclose(f); }
    std::string rm = std::string("rm -rf -- ") + dir; if (system(rm.c_str())) {} if (!fail.empty()) return fail; if (hang) return "the distributed run hangs at " + last; if (!f && WIFEXITED(st) && WEXITSTATUS(st) != 0) return "launch:" + std::to_string(WEXITSTATUS(st)); if (!end) return "the distributed run died at " + last; return "";
}
static void batch(Src& s, Case& c, int kind, int lo, int hi, int timeout) {
    int np = s.range(1, 7), count = s.range(lo, hi); uint64_t seed = s.seed(); c.desc << KNAME[kind] << " processes=" << np << " batch=" << count << " seed=" << seed; int done = 0; std::string m = runBatch(np, kind, seed, count, timeout, done);
    if (m.compare(0, 7, "launch:") == 0) { usleep(300000); m = runBatch(np, kind, seed, count, timeout, done); if (m.compare(0, 7, "launch:") == 0) throw Fail("mpiexec could not start the program: " + m); }
    for (int i = 0; i < done; i++) c.label("models-compared"); c.label("np=" + std::to_string(np)); c.interesting(np >= 2 && done > 0); require(m.empty(), m);
}
int main(int argc, char** argv) {
    if (argc > 1 && std::string(argv[1]) == "--mpi-child") return child(argc, argv);
    pbt::add("basic", 60, 700, [](Src& s, Case& c) { batch(s, c, BASIC_FIT, 15, 40, 60); }, 150);
    pbt::add("singular", 20, 300, [](Src& s, Case& c) { batch(s, c, BASIC_SINGULAR, 10, 30, 60); }, 150);
    pbt::add("multiscale", 40, 400, [](Src& s, Case& c) { batch(s, c, MGWR, 3, 10, 60); }, 150);
    pbt::add("reuse", 30, 400, [](Src& s, Case& c) { batch(s, c, REUSE, 8, 20, 60); }, 150);
    pbt::add("matmul", 20, 300, [](Src& s, Case& c) { batch(s, c, MATMUL, 30, 120, 60); }, 150);
    return pbt::mainImpl(argc, argv);
}
