// Concurrency: work is done exactly once, inside the range, and visible afterwards. Built with TSan and, separately, ASan.
#include "model.hpp"
#include <thread>
#include <memory>
#include <mutex>
using namespace vif;
using namespace vh;

inline void jitter(uint64_t h, double p) { // injected delays, a function of the case only
    uint64_t z = h*0x9E3779B97F4A7C15ull; z ^= z >> 29; double u = (z >> 11)*(1.0/9007199254740992.0);
    if (u < p*0.1) std::this_thread::sleep_for(std::chrono::microseconds(50 + z%300)); else if (u < p) std::this_thread::yield();
}
struct Noise { unsigned long c0; explicit Noise(Rng& r) : c0(vh::noise_count()) { vh::noise(r.pick(std::vector<unsigned>{0, 100, 1500}), r.next()); } ~Noise() { vh::noise(0, 0); if (vh::noise_count() > c0) ev("noise-delays", vh::noise_count() - c0); } };
#if PART == 0
SCEN(pfor, 400, 12000) {
    Noise nz_(rng);
    size_t nt = rng.pick(std::vector<size_t>{0, 1, 2, 3, 4, 6}); thread::parallel_for pf(nt); vh::check(pf.size() == nt, "size", ""); size_t rounds = rng.u(1, 4);
    for (size_t r = 0; r < rounds; ++r) {
        size_t n = rng.b(0.1) ? rng.u(0, 1) : rng.b(0.7) ? rng.u(0, 20) : rng.u(20, 300), first = rng.b(0.5) ? 0 : rng.u(0, 50); bool two = first != 0 || rng.b(); pf.chunk_size = rng.b(0.4) ? 0 : rng.b(0.5) ? rng.u(1, 5) : rng.u(1, n + 5); pf.verbose = rng.b(0.08); pf.update_rate = 0.001; double pj = rng.pick(std::vector<double>{0, 0.3, 1}); uint64_t salt = rng.next();
        vh::note(fmt("parallel_for %zu threads, round %zu, range [%zu,%zu), chunk %zu, verbose %d, delays %g", nt, r, first, first + n, (size_t)pf.chunk_size, (int)pf.verbose, pj));
        std::vector<std::atomic<int>> cnt(n + 100); for (auto& c : cnt) c = 0; std::vector<uint64_t> out(n + 1, 0); std::atomic<size_t> stray(0); std::vector<std::thread::id> who(n + 1); std::atomic<bool> done(false); std::atomic<size_t> late(0);
        auto f = [&](uint_t i) { if (done) ++late; if (i < first || i >= first + n) { ++stray; return; } size_t k = i - first; jitter(salt + i, pj); ++cnt[k]; out[k] = i*i + 7; who[k] = std::this_thread::get_id(); };
        std::ostringstream shown; std::streambuf* cb = std::cout.rdbuf(); if (pf.verbose) std::cout.rdbuf(shown.rdbuf()); if (two) pf.execute(f, first, first + n); else pf.execute(f, n); done = true; std::cout.rdbuf(cb);
        if (pf.verbose && n) { std::string o = shown.str(); size_t nl = std::count(o.begin(), o.end(), '\n'), a = o.rfind(']'); vh::check(nl == 1 && o.back() == '\n' && a != std::string::npos && std::strtoul(o.c_str() + a + 1, nullptr, 10) == n, "progress-shown", o.substr(o.size() - std::min<size_t>(o.size(), 90))); ev("progress-shown"); } else vh::check(shown.str().empty() || n == 0, "printed", shown.str());
        vh::check(stray == 0, "outside-range", fmt("%zu calls", (size_t)stray)); bool once = true, val = true; for (size_t k = 0; k < n; ++k) { once = once && cnt[k] == 1; val = val && out[k] == (first + k)*(first + k) + 7; } vh::check(once, "not-exactly-once", ""); vh::check(val, "result-not-visible", "");
        std::map<std::thread::id,int> ids; std::string inter; for (size_t k = 0; k < n; ++k) { auto it = ids.insert({who[k], (int)ids.size()}).first; inter += (char)('a' + it->second%26); } vh::check(ids.size() <= std::max<size_t>(nt, 1), "too-many-threads", s1(ids.size())); if (nt == 0 && n) vh::check(ids.begin()->first == std::this_thread::get_id(), "not-on-caller", "");
        vh::check(late == 0, "ran-after-return", ""); ev("iterations", n); ev("executions"); if (ids.size() > 1) ev("really-parallel"); vh::sig(fmt("%zu ", nt) + inter);
    }
}
// values computed in parallel do not depend on the number of threads
SCEN(pfor_determinism, 60, 2000) {
    Noise nz_(rng);
    size_t n = rng.u(1, 400); vec1d in(n); for (auto& x : in) x = rng.d(-9, 9); vec1d ref; vh::note(fmt("%zu elements, 0 to 6 threads", n));
    for (size_t nt : {0, 1, 2, 5, 6}) { thread::parallel_for pf(nt); pf.chunk_size = rng.u(0, 40); vec1d out(n); pf.execute([&](uint_t i) { jitter(i + nt*7919, 0.2); out.safe[i] = std::sin(in.safe[i])*in.safe[i]; }, n); if (ref.empty()) ref = out; vh::check(eqvec(flat(out), flat(ref)), "thread-dependent", s1(nt)); }
    ev("determinism"); vh::sig(s1(n));
}
#elif PART == 1
struct Item { static std::atomic<long>& live() { static std::atomic<long> l(0); return l; } uint64_t id = 0; std::string pad; Item() { ++live(); } explicit Item(uint64_t i) : id(i), pad(i%3 ? "" : std::string(40, 'p')) { ++live(); } Item(const Item& o) : id(o.id), pad(o.pad) { ++live(); } Item(Item&& o) : id(o.id), pad(std::move(o.pad)) { o.id = 0; ++live(); } Item& operator=(const Item&) = default; Item& operator=(Item&& o) { id = o.id; pad = std::move(o.pad); o.id = 0; return *this; } ~Item() { --live(); } };
SCEN(spsc, 500, 20000) {
    Noise nz_(rng);
    size_t n = rng.b(0.1) ? rng.u(0, 2) : rng.u(3, 400); double pp = rng.pick(std::vector<double>{0, 0.2, 1}), pc = rng.pick(std::vector<double>{0, 0.2, 1}); uint64_t salt = rng.next(); bool prodsize = rng.b(0.3); size_t burst = rng.b() ? 0 : rng.u(1, 30); vh::note(fmt("queue: %zu items, delays %g/%g, burst %zu", n, pp, pc, burst));
    long before = Item::live(); size_t got = 0, empties = 0, switches = 0; std::string trace; bool order = true, sizes = true, pad = true, psize = true; {
        thread::lock_free_queue<Item> q; vh::check(q.empty() && q.size() == 0, "fresh-not-empty", ""); { Item t; vh::check(!q.pop(t), "pop-on-fresh", ""); }
        std::atomic<uint64_t> pushed(0), popped(0);
        std::thread prod([&]() { for (size_t i = 1; i <= n; ++i) { jitter(salt + i, pp); if (burst && i%burst == 0) std::this_thread::sleep_for(std::chrono::microseconds(100)); if (i%2) q.push(Item(i)); else { Item t(i); q.push(t); } pushed.store(i); if (prodsize && i%7 == 0) { uint64_t c0 = popped.load(); size_t s = q.size(); if (s > i - c0) psize = false; } } });
        bool lastempty = false; uint64_t spins = 0; while (got < n && spins < 400000000ull) { jitter(salt ^ (got*31 + empties), pc); uint64_t p0 = pushed.load(); size_t s = q.size(); if (s < p0 - std::min<uint64_t>(p0, got)) sizes = false; if (s > n - got) sizes = false; bool em = q.empty(); if (em && p0 > got) sizes = false; Item t; if (q.pop(t)) { ++got; popped.store(got); if (t.id != got) order = false; if (t.pad.size() != (t.id%3 ? 0u : 40u)) pad = false; if (lastempty) ++switches; lastempty = false; } else { ++empties; if (!lastempty) trace += (char)('a' + got%26); lastempty = true; if (pushed.load() == n && p0 == n) break; } ++spins; }
        prod.join(); vh::check(got == n, "lost", fmt("%zu of %zu", got, n)); vh::check(order, "order", ""); vh::check(pad, "content", ""); vh::check(sizes, "size", ""); vh::check(psize, "producer-size", ""); vh::check(q.empty() && q.size() == 0, "not-empty-at-end", ""); { Item t; vh::check(!q.pop(t), "pop-past-end", ""); }
        // single-threaded phase: leftovers, clear, reuse
        size_t left = rng.u(0, 10); for (size_t i = 0; i < left; ++i) q.push(Item(1000 + i)); vh::check(q.size() == left && q.empty() == (left == 0), "leftover-size", ""); if (rng.b()) { q.clear(); vh::check(q.empty() && q.size() == 0, "clear", ""); { Item t; vh::check(!q.pop(t), "pop-after-clear", ""); } size_t again = rng.u(0, 6); for (size_t i = 0; i < again; ++i) q.push(Item(2000 + i)); bool ok = true; for (size_t i = 0; i < again; ++i) { Item t; ok = ok && q.pop(t) && t.id == 2000 + i; } vh::check(ok && q.empty(), "reuse-after-clear", ""); for (size_t i = 0; i < rng.u(0, 4); ++i) q.push(Item(3000 + i)); ev("cleared"); }
    }
    vh::check(Item::live() == before, "leak-or-double-free", fmt("%ld objects", (long)Item::live() - before)); ev("items", n); ev("consumer-found-empty", empties); ev("handovers", switches); vh::sig(fmt("%zu", n) + trace);
}
#elif PART == 2
SCEN(worker_jobs, 40, 1200) {
    Noise nz_(rng);
    size_t phases = rng.u(1, 2); std::vector<uint64_t> done; std::vector<uint64_t> exp; double pj = rng.pick(std::vector<double>{0, 0.5}); uint64_t salt = rng.next(), id = 0; size_t lastn = 0; {
        thread::worker w; for (size_t p = 0; p < phases; ++p) { size_t n = rng.b(0.15) ? 0 : rng.u(1, 60); vh::note(fmt("worker: phase %zu, %zu jobs, delays %g", p, n, pj)); for (size_t k = 0; k < n; ++k) { uint64_t me = ++id; exp.push_back(me); w.push([&done, me, salt, pj]() { jitter(salt + me, pj); done.push_back(me); }); jitter(salt ^ me, pj); if (rng.b(0.02)) thread::sleep_for(0.06); } w.wait(); vh::check(eqvec(done, exp), "wait-incomplete-or-reordered", fmt("%zu of %zu", done.size(), exp.size())); ev("worker-jobs", n); }
        if (rng.b()) { lastn = rng.u(1, 20); for (size_t k = 0; k < lastn; ++k) { uint64_t me = ++id; exp.push_back(me); w.push([&done, me]() { done.push_back(me); }); } ev("destructor-waits"); }
    }
    vh::check(eqvec(done, exp), "destructor-incomplete", fmt("%zu of %zu", done.size(), exp.size())); vh::sig(fmt("%zu %zu %zu", phases, exp.size(), lastn));
}
// many workers at once, jobs pushed right before wait(): nothing may be left behind
SCEN(worker_wait_race, 40, 1500) {
    size_t nw = 24; unsigned lv = rng.pick(std::vector<unsigned>{0, 600, 4000, 12000}); uint64_t salt = rng.next(); vh::note(fmt("%zu workers, short bursts followed by wait(), noise %u", nw, lv)); vh::noise(lv, salt); std::vector<std::vector<uint64_t>> done(nw), exp(nw); std::vector<std::string> bad(nw); std::vector<std::thread> th;
    for (size_t k = 0; k < nw; ++k) th.emplace_back([&, k]() { Rng r(salt + k*977); thread::worker w; uint64_t id = 0; for (int rep = 0; rep < 2; ++rep) { size_t n = r.u(1, 5); for (size_t i = 0; i < n; ++i) { uint64_t me = ++id; exp[k].push_back(me); w.push([&done, k, me]() { done[k].push_back(me); }); if (r.b(0.5)) { size_t spin = r.u(0, 20000); for (volatile size_t q = 0; q < spin; ++q) {} } } w.wait(); if (!eqvec(done[k], exp[k])) bad[k] = fmt("worker %zu: %zu of %zu jobs done after wait()", k, done[k].size(), exp[k].size()); } });
    for (auto& t : th) t.join(); vh::noise(0, 0); for (auto& b : bad) vh::check(b.empty(), "wait-incomplete", b); ev("worker-bursts", 2*nw); if (vh::noise_count()) ev("noise-delays", vh::noise_count()); vh::sig(fmt("%u", lv));
}
struct Wsp { uint64_t tag = 0; std::vector<uint64_t>* sink = nullptr; std::thread::id owner; std::vector<uint64_t> seen; bool foreign = false; std::shared_ptr<std::vector<std::vector<uint64_t>>> all; std::shared_ptr<std::mutex> mtx; std::shared_ptr<std::atomic<int>> next; int me = -1; };
SCEN(pool_jobs, 150, 5000) {
    Noise nz_(rng);
    size_t nt = rng.u(1, 5), n = rng.b(0.1) ? 0 : rng.u(1, 200); double pj = rng.pick(std::vector<double>{0, 0.3, 1}); uint64_t salt = rng.next(); bool direct = rng.b(0.4), early = rng.b(0.2), restart = rng.b(0.3); vh::note(fmt("worker_pool: %zu threads, %zu jobs, %s, %s", nt, n, direct ? "chosen workers" : "round robin", early ? "join without waiting" : "consume_all + join"));
    std::vector<std::atomic<int>> cnt(n + 1); for (auto& c : cnt) c = 0; std::vector<uint64_t> out(n + 1, 0); std::mutex m; std::map<std::thread::id, std::vector<uint64_t>> per; std::vector<size_t> target(n + 1, 0);
    std::atomic<int> running(0), late(0); std::atomic<bool> joined(false);
    { struct In { std::atomic<int>& r; In(std::atomic<int>& x) : r(x) { ++r; } ~In() { --r; } }; auto f = [&](uint64_t& t) { In in_(running); if (joined) ++late; jitter(salt + t, pj); ++cnt[t]; out[t] = t*3 + 1; std::unique_lock<std::mutex> l(m); per[std::this_thread::get_id()].push_back(t); };
      thread::worker_pool<uint64_t> p; if (restart) { p.start(rng.u(1, 3), f); ev("restarted"); } p.start(nt, f); vh::check(p.size() == nt, "size", ""); for (size_t i = 1; i <= n; ++i) { if (direct) { size_t w = rng.u(0, nt-1); target[i] = w; p.process(w, i); } else p.process(i); jitter(salt ^ i, pj*0.5); if (i%16 == 0) vh::check(p.remaining() <= i, "remaining", ""); }
      if (!early) { p.consume_all(); vh::check(p.remaining() == 0, "remaining-after-consume", ""); } p.join(); joined = true; vh::check(running == 0, "still-running-after-join", ""); if (early) { thread::sleep_for(0.0005); ev("joined-early"); } vh::check(late == 0, "started-after-join", s1((int)late)); }
    bool once = true, most = true, val = true; size_t done = 0; for (size_t i = 1; i <= n; ++i) { once = once && cnt[i] == 1; most = most && cnt[i] <= 1; if (cnt[i]) { ++done; val = val && out[i] == i*3 + 1; } } if (!early) vh::check(once, "not-exactly-once", fmt("%zu of %zu done", done, n)); vh::check(most, "more-than-once", ""); vh::check(val, "result-not-visible", ""); vh::check(per.size() <= nt, "too-many-threads", ""); bool fifo = true; for (auto& p : per) for (size_t k = 1; k < p.second.size(); ++k) fifo = fifo && p.second[k] > p.second[k-1]; vh::check(fifo, "worker-order", "");
    if (direct && !early) { bool same = true; for (auto& p : per) for (auto t : p.second) same = same && target[t] == target[p.second[0]]; vh::check(same, "wrong-worker", ""); } else if (!early && n >= nt) vh::check(per.size() == nt, "idle-worker", fmt("%zu of %zu workers used", per.size(), nt));
    ev("pool-jobs", done); std::string tr; { std::map<uint64_t,char> o; char c = 'a'; for (auto& p : per) { for (auto t : p.second) o[t] = c; ++c; } for (auto& x : o) tr += x.second; } vh::sig(fmt("%zu ", nt) + tr.substr(0, 60));
}
// every worker has a workspace of its own
SCEN(pool_workspace, 100, 3000) {
    Noise nz_(rng);
    size_t nt = rng.u(1, 5), n = rng.u(1, 120); double pj = rng.pick(std::vector<double>{0, 0.5}); uint64_t salt = rng.next(); vh::note(fmt("worker_pool with workspaces: %zu threads, %zu jobs", nt, n)); auto all = std::make_shared<std::vector<std::vector<uint64_t>>>(nt + 1); auto next = std::make_shared<std::atomic<int>>(0); Wsp proto; proto.all = all; proto.next = next; std::atomic<int> foreign(0), over(0);
    { thread::worker_pool<uint64_t, Wsp> p(nt, [&](Wsp& w, uint64_t& t) { jitter(salt + t, pj); if (w.me < 0) { w.me = (*w.next)++; w.owner = std::this_thread::get_id(); } if (w.owner != std::this_thread::get_id()) ++foreign; if (w.me < (int)w.all->size()) (*w.all)[w.me].push_back(t); else ++over; }, proto); for (size_t i = 1; i <= n; ++i) p.process(i); p.consume_all(); p.join(); }
    std::vector<uint64_t> g; for (auto& v : *all) g.insert(g.end(), v.begin(), v.end()); std::sort(g.begin(), g.end()); bool ok = g.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = g[k] == k + 1; vh::check(ok, "lost-or-repeated", fmt("%zu of %zu", g.size(), n)); vh::check(foreign == 0 && over == 0, "workspace-shared", ""); ev("workspace-jobs", n); vh::sig(fmt("%zu %zu", nt, n));
}
SCEN(plain_threads, 100, 2000) {
    Noise nz_(rng);
    size_t nt = rng.u(0, 8); auto pool = thread::pool(nt); vh::note(fmt("%zu plain threads", nt)); std::vector<int> out(nt, 0); vh::check(pool.size() == nt, "size", ""); for (size_t k = 0; k < nt; ++k) pool[k].start([&out, k](int a) { out[k] = a + (int)k; }, 10); for (auto& t : pool) t.join(); bool ok = true; for (size_t k = 0; k < nt; ++k) ok = ok && out[k] == 10 + (int)k; vh::check(ok, "result", ""); ev("threads", nt); vh::sig(s1(nt));
}
#endif
