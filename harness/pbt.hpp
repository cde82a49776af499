// Small property-based-testing engine: choice-sequence generation, forked workers
// (so crashes, terminate() and hangs in the code under test are observed as failures),
// integrated shrinking on the choice sequence, replay files, coverage statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <poll.h>

namespace pbt {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// Independent deterministic stream used to fill data blocks.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ULL + 12345) { splitmix(s); }
    uint64_t u64() { return splitmix(s); }
    double unit() { return (splitmix(s) >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    uint64_t below(uint64_t n) { return n ? splitmix(s) % n : 0; }
    double normal() {
        double u = unit(), v = unit();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
};

// Source of choices. Every draw is recorded; replaying a (possibly shortened or reduced) record
// re-creates the case. 0 is always the simplest choice.
class Src {
public:
    Src(uint64_t seed) : rng(seed), replaying(false) {}
    Src(const std::vector<uint64_t>& d) : rng(0), replaying(true), data(d) {}
    uint64_t below(uint64_t bound) {
        uint64_t v;
        if (bound == 0) bound = 1;
        if (replaying) { v = pos < data.size() ? data[pos] : 0; pos++; if (v >= bound) v = bound - 1; }
        else v = rng.below(bound);
        rec.push_back(v);
        return v;
    }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } // inclusive, simplest = a
    bool boolean() { return below(2) == 1; }
    bool chance(int pct) { return (int)below(100) >= 100 - pct; }               // simplest = false
    double real(double a, double b) { return a + (b - a) * ((double)below(1 << 20) / (double)(1 << 20)); }
    uint32_t seed() { return (uint32_t)below(1u << 31); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)below(v.size())]; }
    const std::vector<uint64_t>& record() const { return rec; }
private:
    Rng rng; bool replaying; std::vector<uint64_t> data; size_t pos = 0; std::vector<uint64_t> rec;
};

struct Case {
    bool nontrivial = false;
    std::map<std::string, uint64_t> labels;
    std::ostringstream desc;
    void label(const std::string& s) { labels[s]++; }
    void interesting(bool b = true) { nontrivial = nontrivial || b; }
};

typedef std::function<void(Src&, Case&)> Prop;
struct Sub { std::string name; int quick; int thorough; Prop fn; double caseTimeout; };
struct Known { std::string id; std::string what; std::function<bool()> stillFails; };

inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
inline std::vector<Known>& knowns() { static std::vector<Known> v; return v; }
inline void add(const std::string& name, int quick, int thorough, Prop fn, double caseTimeout = 60) {
    subs().push_back({name, quick, thorough, fn, caseTimeout});
}
inline void known(const std::string& id, const std::string& what, std::function<bool()> f) { knowns().push_back({id, what, f}); }
extern const char* RULE; // defined by each property file: the rule for "non-trivial"

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c < 32 ? c : '?'); o += b; }
        else o += c;
    }
    return o;
}

enum Outcome { PASS = 0, FAIL = 1, DISCARD = 2, CRASH = 3, HANG = 4 };
struct RunResult { Outcome o; std::string msg; std::string desc; std::vector<uint64_t> rec; bool nontrivial = false; };

inline RunResult runInProcess(const Sub& sub, Src& src, Case& c) {
    RunResult r; r.o = PASS;
    try { sub.fn(src, c); }
    catch (const Fail& f) { r.o = FAIL; r.msg = f.what(); }
    catch (const Discard&) { r.o = DISCARD; }
    catch (const std::exception& e) { r.o = FAIL; r.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r.o = FAIL; r.msg = "unexpected non-standard exception"; }
    r.desc = c.desc.str(); r.rec = src.record(); r.nontrivial = c.nontrivial;
    return r;
}

inline void writeAll(int fd, const std::string& s) {
    size_t o = 0;
    while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return; } o += k; }
}
template <class T> void putN(std::string& s, T v) { s.append((const char*)&v, sizeof v); }
inline void putS(std::string& s, const std::string& v) { putN<uint64_t>(s, v.size()); s += v; }
struct Rd { const std::string& s; size_t p = 0; bool ok = true;
    template <class T> T n() { T v{}; if (p + sizeof v > s.size()) { ok = false; return v; } memcpy(&v, s.data() + p, sizeof v); p += sizeof v; return v; }
    std::string str() { uint64_t k = n<uint64_t>(); if (!ok || p + k > s.size()) { ok = false; return ""; } std::string v = s.substr(p, k); p += k; return v; } };

inline void quietStderr() { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }

inline Case*& crashCase() { static Case* c = nullptr; return c; }
inline int& crashFd() { static int f = -1; return f; }
inline void onCrash(int sig) { // best effort: pass the description of the case on before dying
    signal(sig, SIG_DFL); if (crashCase() && crashFd() >= 0) { std::string d = crashCase()->desc.str(), b; putN<int>(b, -7); putS(b, d); writeAll(crashFd(), b); }
    raise(sig);
}
// Run one case (recorded choices) in a forked child.
inline RunResult runForked(const Sub& sub, const std::vector<uint64_t>& rec, bool quiet = true) {
    int fds[2]; RunResult r; r.o = CRASH;
    if (pipe(fds)) { perror("pipe"); exit(3); }
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]); if (quiet) quietStderr();
        Src src(rec); Case c; crashCase() = &c; crashFd() = fds[1]; for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS}) signal(sg, onCrash);
        RunResult q = runInProcess(sub, src, c);
        std::string b; putN<int>(b, q.o); putS(b, q.msg); putS(b, q.desc); putN<uint64_t>(b, q.rec.size());
        for (auto v : q.rec) putN<uint64_t>(b, v);
        putN<uint32_t>(b, 0xC0FFEE);
        writeAll(fds[1], b); close(fds[1]); _exit(0);
    }
    close(fds[1]);
    std::string buf; double t0 = now(); bool hang = false;
    for (;;) {
        pollfd p{fds[0], POLLIN, 0};
        int k = poll(&p, 1, 200);
        if (k > 0) { char tmp[65536]; ssize_t g = read(fds[0], tmp, sizeof tmp); if (g <= 0) break; buf.append(tmp, g); }
        if (now() - t0 > sub.caseTimeout) { hang = true; kill(pid, SIGKILL); break; }
    }
    close(fds[0]); int st = 0; waitpid(pid, &st, 0);
    if (hang) { r.o = HANG; r.msg = "no result within the per-case time limit (hang)"; r.rec = rec; return r; }
    Rd rd{buf}; int o = rd.n<int>(); if (rd.ok && o == -7) { r.desc = rd.str(); rd.ok = false; } std::string m = rd.str(), d = rd.str(); uint64_t n = rd.n<uint64_t>();
    std::vector<uint64_t> v; if (rd.ok && n < 100000000) for (uint64_t i = 0; i < n; i++) v.push_back(rd.n<uint64_t>());
    if (rd.ok && rd.n<uint32_t>() == 0xC0FFEE) { r.o = (Outcome)o; r.msg = m; r.desc = d; r.rec = v; return r; }
    r.o = CRASH; r.rec = rec;
    if (WIFSIGNALED(st)) { r.msg = std::string("process died with signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; }
    else r.msg = "process exited abnormally with status " + std::to_string(WEXITSTATUS(st));
    return r;
}
inline bool bad(Outcome o) { return o == FAIL || o == CRASH || o == HANG; }

inline RunResult shrink(const Sub& sub, RunResult best, double seconds) {
    double t0 = now();
    auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
        if (now() - t0 > seconds) return false;
        RunResult r = runForked(sub, cand);
        if (!bad(r.o)) return false;
        if (r.o == CRASH || r.o == HANG) r.rec = cand;
        // accept only if simpler
        if (r.rec.size() > best.rec.size()) return false;
        if (r.rec.size() == best.rec.size() && !(r.rec < best.rec)) return false;
        best = r; return true;
    };
    bool progress = true;
    while (progress && now() - t0 < seconds) {
        progress = false;
        for (size_t len = best.rec.size() / 2; len >= 1; len /= 2)           // delete blocks
            for (size_t i = 0; i + len <= best.rec.size() && now() - t0 < seconds;) {
                std::vector<uint64_t> c = best.rec; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += len;
            }
        for (size_t i = 0; i < best.rec.size() && now() - t0 < seconds; i++) {  // reduce values
            if (best.rec[i] == 0) continue;
            std::vector<uint64_t> c = best.rec; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.rec.size() ? best.rec[i] : 0;
            for (int it = 0; it < 40 && hi - lo > 1 && i < best.rec.size(); it++) {
                uint64_t mid = lo + (hi - lo) / 2; c = best.rec; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
            }
        }
    }
    return best;
}

struct Shared { volatile int sub; volatile long idx; volatile double t; volatile int stop; };

inline int mainImpl(int argc, char** argv) {
    std::string prop = "?", tier = "quick", replay, out, replayOut, only; uint64_t seed = 1; int W = 8; double budget = 0; double mult = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--replay") replay = nx(); else if (a == "--out") out = nx(); else if (a == "--replay-out") replayOut = nx();
        else if (a == "--only") only = nx(); else if (a == "--mult") mult = atof(nx().c_str());
        else if (a == "--list") { for (auto& s : subs()) printf("%s %d %d\n", s.name.c_str(), s.quick, s.thorough); return 0; }
    }
    signal(SIGPIPE, SIG_IGN);
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open replay\n"); return 2; }
        std::string t; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f);
        auto fld = [&](const std::string& key) { size_t p = t.find("\"" + key + "\""); if (p == std::string::npos) return std::string(); p = t.find(':', p) + 1; while (t[p] == ' ') p++; if (t[p] == '"') { size_t e = t.find('"', p + 1); return t.substr(p + 1, e - p - 1); } size_t e = t.find(']', p); return t.substr(p + 1, e - p - 1); };
        std::string sname = fld("sub"), ch = fld("choices"); std::vector<uint64_t> rec; std::istringstream is(ch); std::string tok;
        while (std::getline(is, tok, ',')) rec.push_back(strtoull(tok.c_str(), 0, 10));
        for (auto& s : subs()) if (s.name == sname) {
            RunResult r = runForked(s, rec, false);
            printf("replay %s: %s\n%s\ncase: %s\n", sname.c_str(), r.o == PASS ? "PASS" : r.o == DISCARD ? "DISCARD" : r.o == FAIL ? "FAIL" : r.o == CRASH ? "CRASH" : "HANG", r.msg.c_str(), r.desc.c_str());
            return bad(r.o) ? 1 : 0;
        }
        fprintf(stderr, "unknown sub-check %s\n", sname.c_str()); return 2;
    }
    double t0 = now();
    std::vector<Sub> active; for (auto& s : subs()) if (only.empty() || s.name.find(only) != std::string::npos) active.push_back(s);
    std::vector<long> N; for (auto& s : active) N.push_back(std::max(1L, (long)((tier == "thorough" ? s.thorough : s.quick) * mult)));
    Shared* sh = (Shared*)mmap(0, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(W); std::vector<int> fd(W); std::vector<std::string> bufs(W); std::vector<bool> open_(W, true);
    fflush(stdout);
    for (int w = 0; w < W; w++) {
        int fds[2]; if (pipe(fds)) { perror("pipe"); return 3; }
        sh[w].sub = -1; sh[w].stop = 0; sh[w].t = now();
        pid_t p = fork();
        if (p == 0) {
            close(fds[0]); for (int q = 0; q < w; q++) close(fd[q]); quietStderr();
            std::vector<std::tuple<double, int, long>> plan;
            for (size_t s = 0; s < active.size(); s++) for (long i = w; i < N[s]; i += W) plan.push_back({(double)(i + 0.5) / N[s], (int)s, i});
            std::sort(plan.begin(), plan.end());
            std::vector<uint64_t> runs(active.size()), disc(active.size()), nt(active.size()); std::map<std::string, uint64_t> labels; std::set<uint64_t> hashes; std::vector<std::string> samples;
            std::string b;
            for (auto& pl : plan) {
                if (sh[w].stop) break;
                if (budget > 0 && now() - t0 > budget) break;
                int s = std::get<1>(pl); long i = std::get<2>(pl);
                sh[w].sub = s; sh[w].idx = i; sh[w].t = now();
                uint64_t cs = fnv(active[s].name.data(), active[s].name.size()); cs = fnv(&seed, 8, cs); cs = fnv(&i, 8, cs);
                Src src(cs); Case c; RunResult r = runInProcess(active[s], src, c);
                runs[s]++; if (r.o == DISCARD) { disc[s]++; continue; }
                for (auto& l : c.labels) labels[active[s].name + ":" + l.first] += l.second;
                if (c.nontrivial) { nt[s]++; uint64_t h = fnv(active[s].name.data(), active[s].name.size()); h = fnv(r.rec.data(), r.rec.size() * 8, h); hashes.insert(h); if (nt[s] <= 2 && samples.size() < 60) samples.push_back(active[s].name + ": " + r.desc); }
                if (r.o == FAIL) { putN<int>(b, 1); putN<int>(b, s); putN<long>(b, i); putS(b, r.msg); putS(b, r.desc); putN<uint64_t>(b, r.rec.size()); for (auto v : r.rec) putN<uint64_t>(b, v); break; }
            }
            sh[w].sub = -2;
            putN<int>(b, 2); for (size_t s = 0; s < active.size(); s++) { putN<uint64_t>(b, runs[s]); putN<uint64_t>(b, disc[s]); putN<uint64_t>(b, nt[s]); }
            putN<uint64_t>(b, labels.size()); for (auto& l : labels) { putS(b, l.first); putN<uint64_t>(b, l.second); }
            putN<uint64_t>(b, hashes.size()); for (auto h : hashes) putN<uint64_t>(b, h);
            putN<uint64_t>(b, samples.size()); for (auto& x : samples) putS(b, x);
            putN<uint32_t>(b, 0xC0FFEE);
            writeAll(fds[1], b); close(fds[1]); _exit(0);
        }
        close(fds[1]); fd[w] = fds[0]; pids[w] = p;
    }
    bool failed = false; int fs = -1; RunResult fr; std::string origin; long fidx = -1;
    std::vector<uint64_t> runs(active.size()), disc(active.size()), nt(active.size()); std::map<std::string, uint64_t> labels; std::set<uint64_t> hashes; std::vector<std::string> samples;
    int left = W;
    auto caseRec = [&](int s, long i) { // regenerate recorded choices in a child (the case crashes/hangs): replay by seed prefix
        std::vector<uint64_t> rec; uint64_t cs = fnv(active[s].name.data(), active[s].name.size()); cs = fnv(&seed, 8, cs); cs = fnv(&i, 8, cs);
        // choices are written to shared memory as they are drawn
        size_t cap = 1 << 16; uint64_t* mem = (uint64_t*)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); mem[0] = 0;
        // Draws are bounded, so regenerate them as raw values: run the property with a recording source that mirrors into mem.
        pid_t p = fork();
        if (p == 0) {
            quietStderr(); Src src(cs); Case c;
            // mirror thread-free: poll record at exit is impossible on crash, so use an alternate: signal handler copying record
            static Src* g; static uint64_t* gm; static size_t gc; g = &src; gm = mem; gc = cap;
            auto dump = [](int sig) { auto& r = g->record(); size_t n = std::min(r.size(), gc - 1); for (size_t k = 0; k < n; k++) gm[k + 1] = r[k]; gm[0] = n; if (sig) _exit(99); };
            for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTERM}) signal(sg, (void (*)(int))dump);
            alarm((unsigned)active[s].caseTimeout);
            runInProcess(active[s], src, c); dump(0); _exit(0);
        }
        int st; double ts = now(); while (waitpid(p, &st, WNOHANG) == 0) { if (now() - ts > active[s].caseTimeout + 5) { kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(20000); }
        for (size_t k = 0; k < mem[0]; k++) rec.push_back(mem[k + 1]);
        munmap(mem, cap * 8); return rec;
    };
    while (left > 0) {
        std::vector<pollfd> ps; std::vector<int> who;
        for (int w = 0; w < W; w++) if (open_[w]) { ps.push_back({fd[w], POLLIN, 0}); who.push_back(w); }
        poll(ps.data(), ps.size(), 200);
        for (size_t k = 0; k < ps.size(); k++) {
            int w = who[k];
            if (ps[k].revents) {
                char tmp[65536]; ssize_t g = read(fd[w], tmp, sizeof tmp);
                if (g > 0) { bufs[w].append(tmp, g); continue; }
                close(fd[w]); open_[w] = false; left--; int st = 0; waitpid(pids[w], &st, 0);
                Rd rd{bufs[w]}; int tag = rd.n<int>();
                if (rd.ok && tag == 1) {
                    int s = rd.n<int>(); long i = rd.n<long>(); std::string m = rd.str(), d = rd.str(); uint64_t n = rd.n<uint64_t>(); std::vector<uint64_t> v; for (uint64_t q = 0; q < n; q++) v.push_back(rd.n<uint64_t>());
                    if (!failed) { failed = true; fs = s; fidx = i; fr.o = FAIL; fr.msg = m; fr.desc = d; fr.rec = v; for (int q = 0; q < W; q++) sh[q].stop = 1; }
                    tag = rd.n<int>();
                }
                if (rd.ok && tag == 2) {
                    for (size_t s = 0; s < active.size(); s++) { runs[s] += rd.n<uint64_t>(); disc[s] += rd.n<uint64_t>(); nt[s] += rd.n<uint64_t>(); }
                    uint64_t n = rd.n<uint64_t>(); for (uint64_t q = 0; q < n && rd.ok; q++) { std::string l = rd.str(); labels[l] += rd.n<uint64_t>(); }
                    n = rd.n<uint64_t>(); for (uint64_t q = 0; q < n && rd.ok; q++) hashes.insert(rd.n<uint64_t>());
                    n = rd.n<uint64_t>(); for (uint64_t q = 0; q < n && rd.ok; q++) { std::string s = rd.str(); if (w == 0) samples.push_back(s); }
                } else if (!failed) { // died
                    failed = true; fs = sh[w].sub; fidx = sh[w].idx; fr.o = CRASH;
                    fr.msg = WIFSIGNALED(st) ? std::string("process died with signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")" : "worker exited abnormally (status " + std::to_string(WEXITSTATUS(st)) + ")";
                    for (int q = 0; q < W; q++) sh[q].stop = 1;
                    if (fs >= 0) fr.rec = caseRec(fs, fidx);
                }
            }
        }
        for (int w = 0; w < W; w++) if (open_[w] && sh[w].sub >= 0 && now() - sh[w].t > active[sh[w].sub].caseTimeout) {
            int s = sh[w].sub; long i = sh[w].idx; kill(pids[w], SIGKILL);
            if (!failed) { failed = true; fs = s; fidx = i; fr.o = HANG; fr.msg = "no result within the per-case time limit (hang)"; for (int q = 0; q < W; q++) sh[q].stop = 1; fr.rec = caseRec(s, i); }
            sh[w].sub = -3;
        }
    }
    uint64_t tot = 0, totd = 0, totn = 0; for (size_t s = 0; s < active.size(); s++) { tot += runs[s]; totd += disc[s]; totn += nt[s]; }
    std::string confirmedMsg; bool confirmed = false; bool flaky = false;
    if (failed && fs >= 0) {
        Sub sub = active[fs];
        int rep = 0, tries = 0; bool slow = false; for (; tries < 20 && rep < (slow ? 1 : 3); tries++) { double tr = now(); RunResult r = runForked(sub, fr.rec); slow |= now() - tr > 10; /* hangs: confirm once, do not shrink */ if (bad(r.o)) { rep++; if (r.desc.size()) fr.desc = r.desc; if (r.msg.size()) fr.msg = r.msg; } else if (tries >= 3 && rep == 0 && tries >= 19) break; }
        confirmed = rep >= 1; flaky = confirmed && rep < tries;
        if (confirmed && !flaky && !slow) { RunResult r = fr; r = shrink(sub, fr, fr.o == HANG ? 60 : 25); int ok = 0; for (int k = 0; k < 3; k++) { RunResult q = runForked(sub, r.rec); if (bad(q.o)) { ok++; if (q.desc.size()) r.desc = q.desc; r.msg = q.msg; } } if (ok == 3) fr = r; }
        if (!confirmed) fprintf(stderr, "note: a failure of %s (case %ld) did not reproduce in %d replays: %s\n", sub.name.c_str(), fidx, tries, fr.msg.c_str());
        if (confirmed && !replayOut.empty()) {
            FILE* f = fopen(replayOut.c_str(), "w");
            if (f) {
                fprintf(f, "{\n \"property\": \"%s\",\n \"sub\": \"%s\",\n \"seed\": \"%llu\",\n \"case\": \"%ld\",\n \"kind\": \"%s\",\n \"message\": \"%s\",\n \"description\": \"%s\",\n \"choices\": [", prop.c_str(), sub.name.c_str(), (unsigned long long)seed, fidx, fr.o == FAIL ? "fail" : fr.o == CRASH ? "crash" : "hang", jesc(fr.msg).c_str(), jesc(fr.desc).c_str());
                for (size_t k = 0; k < fr.rec.size(); k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)fr.rec[k]);
                fprintf(f, "]\n}\n"); fclose(f);
            }
        }
    }
    // known findings
    std::string kf;
    for (auto& k : knowns()) {
        int fds[2]; if (pipe(fds)) return 3; pid_t p = fork();
        if (p == 0) { quietStderr(); alarm(120); bool b = k.stillFails(); char c = b ? 'y' : 'n'; if (write(fds[1], &c, 1)) {} _exit(0); }
        close(fds[1]); char c = 'y'; ssize_t g = read(fds[0], &c, 1); (void)g; int st; waitpid(p, &st, 0); close(fds[0]);
        bool crash = WIFSIGNALED(st);
        kf += (kf.empty() ? "" : ",") + std::string("{\"id\":\"") + jesc(k.id) + "\",\"what\":\"" + jesc(k.what) + "\",\"present\":" + ((crash || c == 'y') ? "true" : "false") + "}";
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"wall_s\":%.2f,", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)tot, (unsigned long long)totd, (unsigned long long)totn, hashes.size(), jesc(RULE).c_str(), now() - t0);
    fprintf(f, "\"subs\":{"); for (size_t s = 0; s < active.size(); s++) fprintf(f, "%s\"%s\":{\"runs\":%llu,\"discarded\":%llu,\"nontrivial\":%llu}", s ? "," : "", jesc(active[s].name).c_str(), (unsigned long long)runs[s], (unsigned long long)disc[s], (unsigned long long)nt[s]);
    fprintf(f, "},\"labels\":{"); bool first = true; for (auto& l : labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "},\"samples\":["); for (size_t k = 0; k < samples.size() && k < 24; k++) fprintf(f, "%s\"%s\"", k ? "," : "", jesc(samples[k]).c_str());
    fprintf(f, "],\"known\":[%s],\"failed\":%s,\"flaky\":%s,\"sub\":\"%s\",\"message\":\"%s\",\"description\":\"%s\"}\n", kf.c_str(), confirmed ? "true" : "false", flaky ? "true" : "false", fs >= 0 ? jesc(active[fs].name).c_str() : "", jesc(fr.msg).c_str(), jesc(fr.desc).c_str());
    if (f != stdout) fclose(f);
    return confirmed ? 1 : 0;
}

} // namespace pbt
