// Shared runtime-monitoring harness: seeded cases, guarded execution, verdict recording.
// A driver is one program made of named scenarios.  Every case is derived from
// (seed, scenario, index) only, so any reported case can be replayed alone.
#ifndef VH_HPP
#define VH_HPP
#ifndef NO_REFLECTION
#define NO_REFLECTION
#endif
#include <vif.hpp>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <cstdarg>
#include <limits>
#include <cmath>
#include <algorithm>
#include <numeric>

// Scheduling noise: in the "noise" build every function of the program, down to the accessors of std::atomic and the
// lock functions, calls these hooks (-finstrument-functions), which delay the calling thread at random.
#ifdef VH_NOISE
#include <atomic>
#include <sched.h>
#include <time.h>
namespace vh { namespace noise_ {
    volatile unsigned level_ = 0; volatile unsigned long seed_ = 1; unsigned long count_ = 0, thr_ = 0;
    static __thread unsigned long x_ = 0;
    __attribute__((no_instrument_function)) inline void hit() {
        unsigned l = level_; if (!l) return;
        if (!x_) x_ = (seed_ + 0x9E3779B97F4A7C15ul*__sync_add_and_fetch(&thr_, 1)) | 1;
        x_ ^= x_ << 13; x_ ^= x_ >> 7; x_ ^= x_ << 17; unsigned r = (unsigned)(x_ >> 20);
        if ((r & 0xffff) >= l) return;
        __sync_add_and_fetch(&count_, 1); r >>= 16; unsigned k = r & 15;
        if (k < 9) sched_yield(); else if (k < 14) { for (volatile unsigned i = 0; i < (r >> 4)*4; ++i) {} } else { timespec t; t.tv_sec = 0; t.tv_nsec = 1000*(20 + (r >> 4)%200); nanosleep(&t, 0); }
    }
}}
extern "C" { __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) { vh::noise_::hit(); } __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) { vh::noise_::hit(); } }
namespace vh { inline void noise(unsigned level, uint64_t seed) { noise_::seed_ = seed; noise_::level_ = level; } inline unsigned long noise_count() { return noise_::count_; } }
#else
namespace vh { inline void noise(unsigned, uint64_t) {} inline unsigned long noise_count() { return 0; } }
#endif

namespace vh {

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // integer in [a,b]
    long long i(long long a, long long b) {
        return a + (long long)(next() % (uint64_t)(b - a + 1));
    }
    size_t u(size_t a, size_t b) { return a + (size_t)(next() % (uint64_t)(b - a + 1)); }
    double d() { return (next() >> 11) * (1.0/9007199254740992.0); }
    double d(double a, double b) { return a + (b - a)*d(); }
    bool b(double p = 0.5) { return d() < p; }
    double gauss() {
        double u1 = d(), u2 = d();
        if (u1 < 1e-300) u1 = 1e-300;
        return std::sqrt(-2*std::log(u1))*std::cos(2*3.14159265358979323846*u2);
    }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[u(0, v.size()-1)]; }
    template<typename T> void shuffle(std::vector<T>& v) {
        for (size_t k = v.size(); k > 1; --k) std::swap(v[k-1], v[u(0, k-1)]);
    }
};

inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// ---------------------------------------------------------------- state
struct Shared { volatile uint64_t cur_case; volatile int scen; char note[4096]; };

struct State {
    uint64_t seed = 1;
    std::string outdir = ".";
    std::string scratch = ".";
    bool thorough = false;
    bool replaying = false;
    // per case
    std::string scen; uint64_t index = 0; bool failed = false;
    uint64_t evals = 0;      // oracle evaluations
    uint64_t cases = 0;
    std::map<std::string, uint64_t> scen_cases, scen_evals, events;
    std::unordered_set<uint64_t> sigs;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, int> nviol;
    std::string desc;
    FILE* viol = nullptr;
    Shared* sh = nullptr;
    int stdout_fd = 1;
};
inline State& st() { static State s; return s; }

inline std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f); char b[2048]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// Describe the current case (shown in samples, violations and crash reports)
inline void note(const std::string& s) {
    st().desc = s;
    if (st().sh) { strncpy(st().sh->note, s.c_str(), sizeof(st().sh->note)-1); }
}
// Case signature: what makes this case distinct / non-trivial
inline void sig(const std::string& s) { st().sigs.insert(hstr(st().scen + "|" + s)); }
// Count of an observed event kind
inline void ev(const std::string& k, uint64_t n = 1) { st().events[k] += n; }

inline void fail(const std::string& what, const std::string& detail) {
    State& s = st();
    s.failed = true;
    std::string key = s.scen + ":" + what;
    if (++s.nviol[key] > 3) return;
    fprintf(s.viol, "{\"key\":\"%s\",\"scen\":\"%s\",\"index\":%llu,\"seed\":%llu,\"detail\":\"%s\",\"case\":\"%s\"}\n",
        esc(key).c_str(), esc(s.scen).c_str(), (unsigned long long)s.index,
        (unsigned long long)s.seed, esc(detail.substr(0, 1500)).c_str(), esc(s.desc.substr(0, 1500)).c_str());
    fflush(s.viol);
}
inline bool check(bool ok, const std::string& what, const std::string& detail = "") {
    ++st().evals;
    if (!ok) fail(what, detail);
    return ok;
}
template<typename F>
bool checkf(bool ok, const std::string& what, F&& detail) {
    ++st().evals;
    if (!ok) fail(what, detail());
    return ok;
}

// ---------------------------------------------------------------- guarded execution
// The library reports misuse with a message and exit(): the linker redirects exit()
// (-Wl,--wrap=exit) so that a rejected call returns to the monitor instead.
struct Guard { sigjmp_buf jb; volatile int code = 0; Guard* prev = nullptr; pthread_t owner; };
inline Guard*& guard() { static Guard* g = nullptr; return g; }

enum Kind { returned, exited, threw };
struct Outcome { Kind kind; int code; std::string what;
    bool ok() const { return kind == returned; }
    bool rejected() const { return kind == exited; }   // clean diagnostic + exit
    bool refused() const { return kind != returned; }  // diagnostic or exception
    std::string str() const {
        return kind == returned ? "returned" : kind == exited ? fmt("exit(%d)", code) : "threw " + what;
    }
};

template<typename F>
__attribute__((noinline)) Outcome guarded(F&& f) {
    Guard g; g.prev = guard(); g.owner = pthread_self();
    Outcome o; o.kind = returned; o.code = 0;
    guard() = &g;
    if (sigsetjmp(g.jb, 0) == 0) {
        try { f(); } catch (std::exception& e) {
            o.kind = threw; o.what = e.what();
        } catch (...) { o.kind = threw; o.what = "non-std exception"; }
    } else {
        o.kind = exited; o.code = g.code;
    }
    guard() = g.prev;
    return o;
}

// ---------------------------------------------------------------- scenarios
struct Scen { std::string name; std::function<void(Rng&)> fn; uint64_t quick, thorough; };
inline std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Rng&)> f) { scens().push_back({n, f, q, t}); } };
#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
// SCEN(name, quick_cases, thorough_cases) { body using `rng` }
#define SCEN(name, q, t) \
    static void VH_CAT(vh_scen_, name)(vh::Rng& rng); \
    static vh::Reg VH_CAT(vh_reg_, name)(#name, q, t, VH_CAT(vh_scen_, name)); \
    static void VH_CAT(vh_scen_, name)(vh::Rng& rng)

inline void run_case(const Scen& sc, int si, uint64_t idx) {
    State& s = st();
    s.scen = sc.name; s.index = idx; s.failed = false; s.desc.clear();
    s.sh->scen = si; s.sh->cur_case = idx; s.sh->note[0] = 0;
    Rng rng(hstr(sc.name, s.seed*0x9E3779B97F4A7C15ull + 77) ^ (idx*0xD6E8FEB86659FD93ull));
    alarm(st().replaying ? 150 : 75);
    Outcome o = guarded([&]() { sc.fn(rng); });
    alarm(0);
    if (o.kind != returned) {
        fail("unexpected-" + std::string(o.kind == exited ? "rejection" : "exception"),
            "a legal operation did not return: " + o.str());
    }
    ++s.cases; ++s.scen_cases[sc.name];
    auto& sm = s.samples[sc.name];
    if (!s.desc.empty() && sm.size() < 2) sm.push_back(s.desc.substr(0, 400));
}

inline void write_stats() {
    State& s = st();
    FILE* f = fopen((s.outdir + "/stats.json").c_str(), "w");
    fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"scen\":{", (unsigned long long)s.cases, (unsigned long long)s.evals);
    const char* c = "";
    for (auto& p : s.scen_cases) { fprintf(f, "%s\"%s\":%llu", c, esc(p.first).c_str(), (unsigned long long)p.second); c = ","; }
    fprintf(f, "},\"events\":{"); c = "";
    for (auto& p : s.events) { fprintf(f, "%s\"%s\":%llu", c, esc(p.first).c_str(), (unsigned long long)p.second); c = ","; }
    fprintf(f, "},\"samples\":{"); c = "";
    for (auto& p : s.samples) {
        fprintf(f, "%s\"%s\":[", c, esc(p.first).c_str()); c = ",";
        const char* c2 = "";
        for (auto& x : p.second) { fprintf(f, "%s\"%s\"", c2, esc(x).c_str()); c2 = ","; }
        fprintf(f, "]");
    }
    fprintf(f, "},\"sigs\":["); c = "";
    for (auto h : s.sigs) { fprintf(f, "%s\"%llx\"", c, (unsigned long long)h); c = ","; }
    fprintf(f, "],\"done\":true}\n");
    fclose(f);
}

inline int driver_main(int argc, char* argv[]) {
    State& s = st();
    uint64_t shard = 0, nshard = 1; std::string only; long long oneidx = -1; double scale = 1;
    std::set<std::string> skip; std::string start_scen; uint64_t start_idx = 0; bool list = false;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k]; auto val = [&]() { return std::string(argv[++k]); };
        if (a == "--seed") s.seed = std::stoull(val());
        else if (a == "--out") s.outdir = val();
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--shard") { shard = std::stoull(val()); nshard = std::stoull(val()); }
        else if (a == "--only") only = val();
        else if (a == "--index") { oneidx = std::stoll(val()); s.replaying = true; }
        else if (a == "--skip") skip.insert(val());
        else if (a == "--start") { start_scen = val(); start_idx = std::stoull(val()); }
        else if (a == "--scale") scale = std::stod(val());
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& sc : scens()) printf("%s %llu %llu\n", sc.name.c_str(), (unsigned long long)sc.quick, (unsigned long long)sc.thorough); return 0; }
    s.viol = fopen((s.outdir + "/viol.jsonl").c_str(), "a");
    s.scratch = s.outdir + "/scratch"; mkdir(s.scratch.c_str(), 0755);
    int fd = open((s.outdir + "/cur").c_str(), O_RDWR|O_CREAT, 0644);
    if (ftruncate(fd, sizeof(Shared)) != 0) return 3;
    s.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    bool started = start_scen.empty();
    int si = 0;
    for (auto& sc : scens()) {
        ++si;
        if (!only.empty() && sc.name != only) continue;
        if (skip.count(sc.name)) continue;
        uint64_t n = (uint64_t)((s.thorough ? sc.thorough : sc.quick)*scale);
        if (n < 1) n = 1;
        if (oneidx >= 0) { run_case(sc, si - 1, (uint64_t)oneidx); continue; }
        if (!started && sc.name != start_scen) continue;
        for (uint64_t i = shard; i < n; i += nshard) {
            if (!started && i < start_idx) continue;
            started = true;
            run_case(sc, si - 1, i);
        }
        started = true;
    }
    write_stats();
    fclose(s.viol);
    return 0;
}

} // namespace vh

extern "C" {
    void __real_exit(int) __attribute__((noreturn));
    void __wrap_exit(int) __attribute__((noreturn));
    void __wrap_exit(int c) {
        if (vh::guard() && pthread_equal(vh::guard()->owner, pthread_self())) {
            vh::guard()->code = c; siglongjmp(vh::guard()->jb, 1);
        }
        __real_exit(c);
    }
}

#ifndef VH_NO_MAIN
int vif_main(int argc, char* argv[]) { return vh::driver_main(argc, argv); }
#endif

// ---------------------------------------------------------------- small helpers
namespace vh {
template<typename T> std::string s1(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string s1(const std::string& v) { return "'" + v + "'"; }
inline std::string s1(char v) { return s1((int)v); }
inline std::string s1(bool v) { return v ? "1" : "0"; }
template<typename T> std::string sv(const std::vector<T>& v, size_t mx = 40) {
    std::string r = "{"; for (size_t k = 0; k < v.size() && k < mx; ++k) { if (k) r += ","; r += s1(v[k]); }
    return r + (v.size() > mx ? fmt(",..(%zu)}", v.size()) : "}");
}
// read a vif vector's content through its public flat safe access
template<std::size_t D, typename T> auto flat(const vif::vec<D,T>& v) -> std::vector<typename vif::vec<D,T>::rtype> {
    std::vector<typename vif::vec<D,T>::rtype> r; r.reserve(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v.safe[i]);
    return r;
}
template<std::size_t D, typename T> std::string svv(const vif::vec<D,T>& v, size_t mx = 40) {
    std::string r = "[";
    for (size_t k = 0; k < D; ++k) { if (k) r += "x"; r += s1(v.dims[k]); }
    return r + "]" + sv(flat(v), mx);
}
template<typename T> bool eqv(const T& a, const T& b) { return a == b; }
inline bool eqv(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool eqv(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
template<typename T> bool eqvec(const std::vector<T>& a, const std::vector<T>& b) {
    if (a.size() != b.size()) return false;
    for (size_t k = 0; k < a.size(); ++k) if (!eqv(a[k], b[k])) return false;
    return true;
}
template<std::size_t D, typename T> bool consistent(const vif::vec<D,T>& v) {
    size_t n = 1; for (size_t k = 0; k < D; ++k) n *= v.dims[k];
    return n == v.size();
}
template<std::size_t D> std::string sd(const std::array<std::size_t,D>& d) {
    std::string r; for (size_t k = 0; k < D; ++k) { if (k) r += "x"; r += s1(d[k]); } return r;
}
inline bool close(double a, double b, double rel, double abs = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= abs + rel*std::max(std::fabs(a), std::fabs(b));
}
}
#endif
