// Astronomy support library against independent models.  PART selects the property.
#include "model.hpp"
#include <vif.hpp>
#include <vif/astro/astro.hpp>
#include <vif/astro/qxmatch.hpp>
#include <vif/astro/image.hpp>
#include <fstream>
#include <sstream>
#include <cstring>
#include <set>
#include <map>
using namespace vif;
using namespace vif::astro;
using namespace vh;
using S = std::string;
template<typename T> using V = std::vector<T>;
typedef long double L;
static const L PI = 3.141592653589793238462643383279502884L;
static S newname(const S& ext) { static long n = 0; static V<S> old; for (auto& o : old) ::unlink(o.c_str()); old.clear(); S f = st().scratch + fmt("/a%ld", n++) + ext; old.push_back(f); ::unlink(f.c_str()); return f; }
template<typename T> vec<1,T> tov(const V<T>& v) { vec<1,T> r; for (auto& x : v) r.push_back(x); return r; }
// angular distance in arcsec of two positions in degrees, from the vectors (well conditioned everywhere)
static L angd(double r1, double d1, double r2, double d2) {
    L a = r1*PI/180, b = d1*PI/180, c = r2*PI/180, d = d2*PI/180;
    L x1 = cosl(b)*cosl(a), y1 = cosl(b)*sinl(a), z1 = sinl(b), x2 = cosl(d)*cosl(c), y2 = cosl(d)*sinl(c), z2 = sinl(d);
    L cx = y1*z2 - z1*y2, cy = z1*x2 - x1*z2, cz = x1*y2 - y1*x2;
    return atan2l(sqrtl(cx*cx + cy*cy + cz*cz), x1*x2 + y1*y2 + z1*z2)*180/PI*3600;
}

#if PART == 0
// ================================================================ cross-matching
// absolute accuracy of the haversine formula in double precision
static double dtol(L d, double mag = 0) { L x = d/3600*PI/180; L c = std::max<L>(cosl(x/2), 1e-8L); return double(1e-9*d + 1e-7 + 3e-16L*tanl(x/2)/1*206265*4 + 4e-16L/c*206265*2) + mag; }
struct Cfg { bool linear, self; };
static double mdist(const Cfg& c, double a, double b, double x, double y) { return c.linear ? double(hypotl((L)x - a, (L)y - b)) : double(angd(a, b, x, y)); }
struct Cat { vec1d ra, dec; S kind; };
static void gen(Rng& r, bool linear, size_t n1, size_t n2, Cat& a, Cat& b) {
    double scale = std::pow(10.0, r.d(-4, linear ? 3 : 1.2)); // degrees
    int geo = linear ? 0 : r.i(0, 9);
    double r0, d0;
    if (geo == 0) { r0 = r.d(0, 360); d0 = r.d(-89, 89); } else if (geo == 1) { r0 = r.b() ? 0 : 360; d0 = r.d(-60, 60); } else if (geo == 2) { r0 = r.d(0, 360); d0 = r.b() ? 90 : -90; } else { r0 = r.d(20, 340); d0 = r.d(-70, 70); }
    if (linear) { r0 = r.d(-1000, 1000)*scale; d0 = r.d(-1000, 1000)*scale; if (r.b(0.3)) r0 = d0 = 0; }
    bool allsky = !linear && r.b(0.06), norm = geo == 1 && r.b();
    double ws = r.b(0.25) ? std::pow(10.0, r.d(-3, 0)) : 1, hs = r.b(0.25) ? std::pow(10.0, r.d(-3, 0)) : 1;
    int shape = r.i(0, 8); double ox = 0, oy = 0; if (r.b(0.2)) { ox = r.d(-3, 3); oy = r.d(-3, 3); }
    double subf = r.b(0.2) ? std::pow(10.0, r.d(-3, 0)) : 1;
    V<std::pair<double,double>> pos;
    auto put = [&](bool second, vec1d& x, vec1d& y) {
        double u = r.d(-0.5, 0.5), v = r.d(-0.5, 0.5);
        switch (shape) { case 0: v = 0; break; case 1: u = 0; break; case 2: u = v = 0; break; case 3: u = r.i(-5, 5)/10.0; v = r.i(-5, 5)/10.0; break; case 4: u = r.gauss()*0.05 + (r.b() ? 0.4 : -0.4); v = r.gauss()*0.05 + (r.b() ? 0.4 : -0.4); break; case 5: if (second) { u = 0.5 - r.d()*0.05; v = 0.5 - r.d()*0.05; } else { u = -0.5 + r.d()*0.05; v = -0.5 + r.d()*0.05; } break; case 6: v = u; break; }
        if (second) { u = u*subf + ox; v = v*subf + oy; }
        if (allsky) { x.push_back(r.d(0, 360)); y.push_back(std::asin(r.d(-1, 1))*180/dpi); return; }
        double dd = d0 + v*scale*hs; if (!linear) { while (dd > 90 || dd < -90) dd = dd > 90 ? 180 - dd : -180 - dd; }
        double rr = r0 + u*scale*ws/(linear || geo == 2 ? 1 : std::max(0.02, std::cos(d0*dpi/180))); if (!linear) { if (geo == 2) rr = r.d(0, 360); while (rr > 720) rr -= 360; if (norm) { while (rr < 0) rr += 360; while (rr >= 360) rr -= 360; } }
        if (second && !pos.empty() && r.b(0.3)) { auto p = r.pick(pos); rr = p.first + r.gauss()*scale*1e-3*(r.b(0.3) ? 0 : 1); dd = p.second + r.gauss()*scale*1e-3*(r.b(0.3) ? 0 : 1); if (!linear) dd = std::max(-90.0, std::min(90.0, dd)); }
        if (!second) pos.push_back({rr, dd}); x.push_back(rr); y.push_back(dd);
    };
    for (size_t k = 0; k < n1; ++k) put(false, a.ra, a.dec);
    for (size_t k = 0; k < n2; ++k) put(true, b.ra, b.dec);
    a.kind = fmt("geo%d shape%d%s%s", geo, shape, allsky ? " allsky" : "", norm ? " norm" : "");
}
// the k-th nearest distances of every object, checked against an exhaustive search
static void verify(const S& who, const Cfg& c, const Cat& a, const Cat& b, const qxmatch_res& q, size_t nth, bool mirror) {
    size_t n1 = a.ra.size(), n2 = b.ra.size();
    if (!check(q.id.dims[0] == nth && q.id.dims[1] == n1 && q.d.dims == q.id.dims && consistent(q.id) && consistent(q.d), who + "-shape", fmt("%zu %zu", q.id.dims[0], q.id.dims[1]))) return;
    double mag = 0; if (c.linear) { for (auto x : a.ra) mag = std::max(mag, std::fabs(x)); for (auto x : b.ra) mag = std::max(mag, std::fabs(x)); for (auto x : a.dec) mag = std::max(mag, std::fabs(x)); mag *= 4e-16; }
    auto tol = [&](double d) { return c.linear ? 1e-12*d + mag : dtol(d); };
    for (size_t i = 0; i < n1; ++i) {
        V<double> ds; for (size_t j = 0; j < n2; ++j) if (!(c.self && i == j)) ds.push_back(mdist(c, a.ra.safe[i], a.dec.safe[i], b.ra.safe[j], b.dec.safe[j]));
        std::sort(ds.begin(), ds.end()); std::set<uint_t> seen;
        for (size_t k = 0; k < nth; ++k) {
            uint_t id = q.id.safe(k, i); double d = q.d.safe(k, i);
            if (k >= ds.size()) { checkf(id == npos && !(d < dinf), who + "-no-neighbour", [&]{ return fmt("object %zu rank %zu of %zu: id %zu d %.17g", i, k, ds.size(), id, d); }); ev("no-neighbour"); continue; }
            if (!checkf(id < n2, who + "-lost-neighbour", [&]{ return fmt("n1=%zu n2=%zu nth=%zu object %zu (%.12g,%.12g) rank %zu: no neighbour, but one at %.12g [", n1, n2, nth, i, a.ra.safe[i], a.dec.safe[i], k, ds[k]) + a.kind + "]"; })) return;
            if (!checkf(std::fabs(d - ds[k]) <= tol(ds[k]), who + "-not-nearest", [&]{ return fmt("n1=%zu n2=%zu nth=%zu object %zu (%.12g,%.12g) rank %zu: found %.17g, expected %.17g [", n1, n2, nth, i, a.ra.safe[i], a.dec.safe[i], k, d, ds[k]) + a.kind + "]"; })) return;
            double t = mdist(c, a.ra.safe[i], a.dec.safe[i], b.ra.safe[id], b.dec.safe[id]);
            checkf(std::fabs(d - t) <= tol(t), who + "-distance-of-id", [&]{ return fmt("object %zu rank %zu id %zu: %.17g vs %.17g", i, k, id, d, t); });
            checkf(seen.insert(id).second && !(c.self && id == i), who + "-repeated", [&]{ return fmt("object %zu: id %zu given twice or is itself", i, id); }); ev("neighbour");
        }
    }
    if (!mirror) { check(q.rid.empty() && q.rd.empty(), who + "-no-mirror", ""); return; }
    if (!check(q.rid.dims[0] == n2 && q.rd.dims[0] == n2 && consistent(q.rid) && consistent(q.rd), who + "-mirror-shape", "")) return;
    for (size_t j = 0; j < n2; ++j) {
        double best = dinf; for (size_t i = 0; i < n1; ++i) if (!(c.self && i == j)) best = std::min(best, mdist(c, a.ra.safe[i], a.dec.safe[i], b.ra.safe[j], b.dec.safe[j]));
        uint_t id = q.rid.safe[j]; double d = q.rd.safe[j];
        if (best == dinf) { check(id == npos && !(d < dinf), who + "-mirror-none", ""); continue; }
        if (!checkf(id < n1 && std::fabs(d - best) <= tol(best), who + "-mirror-not-nearest", [&]{ return fmt("n1=%zu n2=%zu object %zu: id %zu d %.17g expected %.17g [", n1, n2, j, id, d, best) + a.kind + "]"; })) return;
        double t = mdist(c, a.ra.safe[id], a.dec.safe[id], b.ra.safe[j], b.dec.safe[j]); checkf(std::fabs(d - t) <= tol(t), who + "-mirror-distance-of-id", [&]{ return fmt("%.17g vs %.17g", d, t); }); ev("mirror");
    }
}
static void clean(const qxmatch_res& q, size_t n1) {
    id_pair p = xmatch_clean_best(q); V<int> got(n1, 0); bool ok = p.id1.size() == p.id2.size() && consistent(p.id1) && consistent(p.id2) && consistent(p.lost);
    for (size_t k = 0; ok && k < p.id1.size(); ++k) { uint_t i = p.id1.safe[k], j = p.id2.safe[k]; ok = i < n1 && q.id.safe(0, i) == j && j < q.rid.size() && q.rid.safe[j] == i; if (ok) ++got[i]; }
    check(ok, "clean-pair", "a kept pair is not a mutual nearest match");
    for (size_t k = 0; ok && k < p.lost.size(); ++k) { uint_t i = p.lost.safe[k]; ok = i < n1; if (ok) { ++got[i]; uint_t j = q.id.safe(0, i); check(j == npos || q.rid.safe[j] != i, "clean-lost", "a mutual match is listed as lost"); } }
    for (int g : got) ok = ok && g == 1; check(ok, "clean-partition", fmt("%zu kept, %zu lost of %zu", p.id1.size(), p.lost.size(), n1)); ev("clean");
}
static void one(Rng& r, unsigned thread, size_t mx) {
    Cfg c; c.linear = r.b(0.3); c.self = r.b(0.2); size_t n1 = r.b(0.1) ? r.u(0, 3) : r.u(1, mx), n2 = c.self ? n1 : r.b(0.15) ? r.u(0, 9) : r.u(1, mx);
    if (r.b(0.15)) n2 = r.u(8, 12); Cat a, b; gen(r, c.linear, n1, n2, a, b); if (c.self) { b.ra = a.ra; b.dec = a.dec; n2 = n1; }
    size_t nth = r.b() ? 1 : r.u(1, 6); bool mirror = !r.b(0.25); qxmatch_params p; p.thread = thread; p.nth = nth; p.linear = c.linear; p.no_mirror = !mirror; p.brute_force = r.b(0.3);
    vh::note(fmt("n1=%zu n2=%zu nth=%zu thread=%u linear=%d self=%d brute=%d mirror=%d [", n1, n2, nth, thread, c.linear, c.self, p.brute_force, mirror) + a.kind + "] " + svv(a.ra) + svv(a.dec) + svv(b.ra) + svv(b.dec));
    S who = p.brute_force ? "exhaustive" : "bucket"; qxmatch_res q; Outcome o = guarded([&] { q = c.self ? qxmatch(a.ra, a.dec, p) : qxmatch(a.ra, a.dec, b.ra, b.dec, p); });
    if (!check(o.ok(), who + "-refused", o.str())) return;
    verify(who, c, a, b, q, nth, mirror); sig(a.kind + fmt("%d%d%d%zu", c.linear, c.self, p.brute_force, nth));
    if (mirror) clean(q, n1);
    if (p.brute_force) ev("exhaustive"); else ev("bucket"); if (c.self) ev("self"); if (thread > 1) ev("threads");
}
SCEN(xmatch, 400, 20000) { Rng& r = rng; one(r, 1, r.b(0.1) ? 300 : 60); }
SCEN(xmatch_threads, 6, 400) { Rng& r = rng; one(r, r.u(2, 6), 50); }
SCEN(xmatch_bad, 60, 2000) { Rng& r = rng;
    size_t n = r.u(1, 8); vec1d a(n), b(n), x(n), y(n); for (auto v : {&a, &b, &x, &y}) for (auto& t : *v) t = r.d(0, 10);
    int k = r.i(0, 5); if (k == 0) a.push_back(1); else if (k == 1) y.push_back(1); else { (k == 2 ? a : k == 3 ? b : k == 4 ? x : y)[r.u(0, n-1)] = r.b() ? dnan : r.b() ? dinf : -dinf; }
    Outcome o = guarded([&] { qxmatch(a, b, x, y); }); check(o.rejected(), "bad-input-accepted", fmt("kind %d: ", k) + o.str()); ev("rejected"); sig(fmt("%d", k));
}
SCEN(xmatch_wrappers, 60, 2000) { Rng& r = rng;
    struct { vec1d ra, dec; } c1, c2; size_t n1 = r.u(1, 20), n2 = r.u(1, 20); for (size_t k = 0; k < n1; ++k) { c1.ra.push_back(r.d(10, 11)); c1.dec.push_back(r.d(10, 11)); } for (size_t k = 0; k < n2; ++k) { c2.ra.push_back(r.d(10, 11)); c2.dec.push_back(r.d(10, 11)); }
    qxmatch_params p; p.nth = r.u(1, 3); auto q = qxmatch(c1, c2, p); auto q2 = qxmatch(c1.ra, c1.dec, c2.ra, c2.dec, p); check(flat(q.id) == flat(q2.id) && flat(q.d) == flat(q2.d) && flat(q.rid) == flat(q2.rid), "catalogue-form", "");
    auto s1_ = qxmatch(c1, p); auto s2_ = qxmatch(c1.ra, c1.dec, p); check(flat(s1_.id) == flat(s2_.id), "catalogue-self-form", "");
    { id_pair ip = xmatch_clean_best(q); S fl = newname(".fits"); { std::ofstream quiet("/dev/null"); auto* ob = std::cerr.rdbuf(quiet.rdbuf()); auto* oo = std::cout.rdbuf(quiet.rdbuf()); xmatch_save_lost(ip, fl); std::cerr.rdbuf(ob); std::cout.rdbuf(oo); } if (ip.lost.empty()) check(!file::exists(fl), "lost-file-without-lost", ""); else { vec1u lost; fits::read_table(fl, "lost", lost); check(flat(lost) == flat(ip.lost), "lost-saved", ""); ev("lost-saved"); } }
    S f = newname(".fits"); qxmatch_save(f, q); auto q3 = qxmatch_restore(f); check(flat(q.id) == flat(q3.id) && q.id.dims == q3.id.dims && eqvec(flat(q.d), flat(q3.d)) && flat(q.rid) == flat(q3.rid) && eqvec(flat(q.rd), flat(q3.rd)), "save-restore", ""); ev("saved");
    vec2d d = qdist(c1.ra, c1.dec); bool ok = d.dims[0] == n1 && d.dims[1] == n1; for (size_t i = 0; ok && i < n1; ++i) for (size_t j = 0; j < n1; ++j) ok = ok && close(d.safe(i, j), angd(c1.ra.safe[i], c1.dec.safe[i], c1.ra.safe[j], c1.dec.safe[j]), 1e-9, 1e-6); check(ok, "qdist", fmt("n=%zu", n1)); ev("qdist");
    float fr = r.d(0, 5); (void)fr; vec1f fa = c1.ra, fd = c1.dec; auto qf = qxmatch(fa, fd, c2.ra, c2.dec); vec1d da = fa, dd = fd; auto qd = qxmatch(da, dd, c2.ra, c2.dec); check(flat(qf.id) == flat(qd.id), "float-input", "");
}
#endif
#if PART == 1 || PART == 2
template<typename T> static vec<2,T> rndimg(Rng& r, size_t nx, size_t ny) { vec<2,T> v(nx, ny); bool integer = r.b(0.3); for (auto& x : v) x = integer ? T(r.i(-20, 20)) : T(r.d(-10, 10)); return v; }
template<typename T> static bool same(const vec<2,T>& a, const vec<2,T>& b, double tol = 0) { if (a.dims != b.dims || !consistent(a)) return false; for (size_t k = 0; k < a.size(); ++k) if (!(a.safe[k] == b.safe[k] || std::fabs(double(a.safe[k]) - double(b.safe[k])) <= tol || (a.safe[k] != a.safe[k] && b.safe[k] != b.safe[k]))) return false; return true; }
template<typename T> static S simg(const vec<2,T>& a) { S s = fmt("%zux%zu[", a.dims[0], a.dims[1]); for (size_t k = 0; k < a.size() && k < 60; ++k) s += fmt("%.6g ", double(a.safe[k])); return s + "]"; }
#endif
#if PART == 1
// ================================================================ image geometry
template<typename T> static T at(const vec<2,T>& v, long x, long y, T def) { return x < 0 || y < 0 || x >= (long)v.dims[0] || y >= (long)v.dims[1] ? def : v.safe(x, y); }
template<typename T, typename F> static vec<2,T> build(size_t nx, size_t ny, F f) { vec<2,T> o(nx, ny); for (size_t x = 0; x < nx; ++x) for (size_t y = 0; y < ny; ++y) o.safe(x, y) = f((long)x, (long)y); return o; }
#define EQ(key, got, want) do { auto g_ = (got); auto w_ = (want); checkf(same(g_, w_), key, [&]{ return what + " -> " + simg(g_) + " expected " + simg(w_) + " from " + simg(v); }); ev("images"); } while (0)
template<typename T> static void cut(Rng& r) {
    size_t nx = r.u(1, 9), ny = r.u(1, 9); vec<2,T> v = rndimg<T>(r, nx, ny); T def = r.b() ? T(0) : T(r.i(-99, 99)); S what;
    std::array<uint_t,4> p; for (auto& x : p) x = r.u(0, r.b(0.1) ? 12 : 4); what = fmt("pad %zu %zu %zu %zu", p[0], p[1], p[2], p[3]); vh::note(what + simg(v));
    EQ("enlarge", enlarge(v, p, def), build<T>(nx + p[0] + p[2], ny + p[1] + p[3], [&](long x, long y) { return at(v, x - (long)p[0], y - (long)p[1], def); }));
    EQ("enlarge-same", enlarge(v, p[0], def), enlarge(v, std::array<uint_t,4>{{p[0], p[0], p[0], p[0]}}, def));
    if (p[0] + p[2] < nx && p[1] + p[3] < ny) EQ("shrink", shrink(v, p), build<T>(nx - p[0] - p[2], ny - p[1] - p[3], [&](long x, long y) { return v.safe(x + p[0], y + p[1]); })); else { check(shrink(v, p).empty(), "shrink-empty", what); ev("shrunk-away"); }
    EQ("shrink-enlarge", shrink(enlarge(v, p, def), p), v);
    { vec<2,T> big = rndimg<T>(r, nx + 2, ny + 2); auto vw = big(1-_-nx, 1-_-ny); vec<2,T> cv = vw; EQ("enlarge-view", enlarge(vw, p, def), enlarge(cv, p, def)); EQ("shrink-view", shrink(vw, p), shrink(cv, p)); EQ("flip-view", flip_x(vw), flip_x(cv)); }
    // regions
    long x0 = r.b(0.3) ? r.i(-6, (long)nx + 5) : r.i(0, (long)nx - 1), y0 = r.b(0.3) ? r.i(-6, (long)ny + 5) : r.i(0, (long)ny - 1), w = r.i(1, r.b() ? 3 : 12), h = r.i(1, r.b() ? 3 : 12); if (r.b(0.1)) { x0 = 0; y0 = 0; w = nx; h = ny; } vec1i reg = {x0, y0, x0 + w - 1, y0 + h - 1}; what = fmt("region %ld %ld %ld %ld", x0, y0, x0 + w - 1, y0 + h - 1);
    EQ("subregion", subregion(v, reg, def), build<T>(w, h, [&](long x, long y) { return at(v, x0 + x, y0 + y, def); }));
    vec1u iv = {5, 6, 7}, ir = {1}; subregion(v, reg, iv, ir); std::set<std::pair<uint_t,uint_t>> got, want; for (size_t k = 0; k < std::min(iv.size(), ir.size()); ++k) got.insert({iv.safe[k], ir.safe[k]});
    for (long x = 0; x < w; ++x) for (long y = 0; y < h; ++y) if (x0 + x >= 0 && x0 + x < (long)nx && y0 + y >= 0 && y0 + y < (long)ny) want.insert({(x0 + x)*ny + y0 + y, x*h + y});
    check(iv.size() == ir.size() && iv.size() == want.size() && got == want && consistent(iv) && consistent(ir), "subregion-indices", what + " " + simg(v)); ev(want.empty() ? "region-outside" : want.size() == size_t(w*h) ? "region-inside" : "region-partial");
    { vec1i bad = reg; bad.push_back(1); Outcome o = guarded([&] { subregion(v, bad, iv, ir); }); check(o.rejected(), "bad-region-accepted", ""); }
    if (r.b(0.2)) { vec1i e = {x0, y0, x0 - 1 - (long)r.u(0, 3), y0 + h - 1}; subregion(v, e, iv, ir); check(iv.empty() && ir.empty(), "inverted-region", ""); }
    // flips
    EQ("flip_x", flip_x(v), build<T>(nx, ny, [&](long x, long y) { return v.safe(x, ny - 1 - y); })); EQ("flip_y", flip_y(v), build<T>(nx, ny, [&](long x, long y) { return v.safe(nx - 1 - x, y); }));
    // integer shifts, cyclic or not
    long bx = r.b() ? 0 : 2, sx = r.b(0.1) ? r.i(-40, 40) : r.i(-(long)nx + 1 - bx, (long)nx - 1 + bx), sy = r.b(0.1) ? r.i(-40, 40) : r.i(-(long)ny + 1 - bx, (long)ny - 1 + bx); if (r.b(0.1)) sx = 0; if (r.b(0.1)) sy = 0; what = fmt("by %ld %ld", sx, sy);
    auto md = [](long a, long n) { return ((a % n) + n) % n; };
    EQ("shift", shift(v, sx, sy), build<T>(nx, ny, [&](long x, long y) { return v.safe(md(x - sx, nx), md(y - sy, ny)); })); { auto w2 = v; inplace_shift(w2, sx, sy); EQ("inplace-shift", w2, shift(v, sx, sy)); }
    EQ("translate-integer", translate_integer(v, sx, sy, def), build<T>(nx, ny, [&](long x, long y) { return at(v, x - sx, y - sy, def); })); ev(std::labs(sx) >= (long)nx || std::labs(sy) >= (long)ny ? "moved-out" : "moved");
    { auto w2 = v; inplace_translate_integer(w2, sx, sy, def); EQ("inplace-translate", w2, translate_integer(v, sx, sy, def)); EQ("translate-view", translate_integer(v(_,_), sx, sy, def), w2); }
    // recentering
    long cx = r.i(-8, nx + 8), cy = r.i(-8, ny + 8); size_t ox = r.u(1, 12), oy = r.u(1, 12); what = fmt("centre %ld %ld size %zu %zu", cx, cy, ox, oy);
    EQ("recenter", recenter(v, cx, cy, std::array<uint_t,2>{{ox, oy}}, def), build<T>(ox, oy, [&](long x, long y) { return at(v, x - (long)(ox/2) + cx, y - (long)(oy/2) + cy, def); }));
    EQ("recenter-same", recenter(v, cx, cy, def), build<T>(nx, ny, [&](long x, long y) { return at(v, x - (long)(nx/2) + cx, y - (long)(ny/2) + cy, def); }));
    { vec<2,T> e(0, nx); Outcome o = guarded([&] { inplace_shift(e, sx, sy); auto e2 = translate_integer(e, sx, sy); check(e.empty() && e2.empty(), "empty-image", ""); enlarge(e, p, def); }); check(o.ok(), "empty-image-refused", o.str()); }
    sig(fmt("%zu%zu %ld %ld", nx, ny, sx, sy));
}
SCEN(cut_double, 150, 8000) { cut<double>(rng); }
SCEN(cut_float, 50, 3000) { cut<float>(rng); }
SCEN(cut_int, 80, 4000) { cut<int_t>(rng); }
// bilinear value at a real position; 'edge' when the position is so close to the border that rounding decides
static bool blin(const vec2d& v, L x, L y, double def, double& out) {
    const L e = 1e-9L; bool edge = false; auto chk = [&](L t, size_t n) { if (fabsl(t) < e || fabsl(t - (L)(n - 1)) < e) edge = true; }; chk(x, v.dims[0]); chk(y, v.dims[1]);
    if (x < 0 || y < 0 || x > (L)v.dims[0] - 1 || y > (L)v.dims[1] - 1) { out = def; return edge; }
    long ix = std::min<long>((long)floorl(x), (long)v.dims[0] - 2), iy = std::min<long>((long)floorl(y), (long)v.dims[1] - 2); L fx = x - ix, fy = y - iy;
    out = v.safe(ix, iy)*(1 - fx)*(1 - fy) + v.safe(ix, iy + 1)*(1 - fx)*fy + v.safe(ix + 1, iy)*fx*(1 - fy) + v.safe(ix + 1, iy + 1)*fx*fy; return edge;
}
template<typename F> static void resample(const S& key, const S& what, const vec2d& v, const vec2d& got, double def, F pos) {
    if (!check(got.dims == v.dims && consistent(got), key + "-shape", what)) return;
    for (size_t x = 0; x < v.dims[0]; ++x) for (size_t y = 0; y < v.dims[1]; ++y) {
        L px, py; pos(x, y, px, py); double w = 0; bool edge = blin(v, px, py, def, w); double g = got.safe(x, y); bool ok = std::fabs(g - w) <= 1e-7;
        if (!ok && edge) { double wi = 0; blin(v, std::min<L>(std::max<L>(px, 0), v.dims[0] - 1), std::min<L>(std::max<L>(py, 0), v.dims[1] - 1), def, wi); ok = std::fabs(g - wi) <= 1e-7 || g == def; }
        checkf(ok, key, [&]{ return what + fmt(" pixel %zu,%zu from (%.12Lg,%.12Lg): %.17g expected %.17g ", x, y, px, py, g, w) + simg(v); }); ev(w == def ? "outside" : "interpolated");
    }
}
// bicubic versions: the value that the bicubic interpolation gives at the transformed position (either side is accepted on the border of the domain)
template<typename F> static void cubic(const S& key, const S& what, const vec2d& v, const vec2d& got, double def, F pos) {
    if (!check(got.dims == v.dims && consistent(got), key + "-shape", what)) return;
    for (size_t x = 0; x < v.dims[0]; ++x) for (size_t y = 0; y < v.dims[1]; ++y) {
        double a, b; pos(x, y, a, b); auto nearb = [](double t, size_t n) { return std::fabs(t - 1) < 1e-9 || std::fabs(t - ((double)n - 2)) < 1e-9; }; bool edge = nearb(a, v.dims[0]) || nearb(b, v.dims[1]); double g = got.safe(x, y), w = bicubic_strict(v, a, b, def);
        bool ok = std::fabs(g - w) <= 1e-6 || (edge && (g == def || std::fabs(g - bicubic_strict(v, std::min(a, v.dims[0] - 2 - 1e-9) + (std::fabs(a - 1) < 1e-9 ? 1e-9 : 0), std::min(b, v.dims[1] - 2 - 1e-9) + (std::fabs(b - 1) < 1e-9 ? 1e-9 : 0), def)) <= 1e-4));
        checkf(ok, key, [&]{ return what + fmt(" pixel %zu,%zu from (%.12g,%.12g): %.17g expected %.17g ", x, y, a, b, g, w) + simg(v); }); if (w != def) ev("bicubic");
    }
}
SCEN(resample, 200, 12000) { Rng& r = rng;
    size_t nx = r.u(2, 9), ny = r.u(2, 9); vec2d v = rndimg<double>(r, nx, ny); double def = r.b() ? 0 : r.d(-50, 50); long hx = nx/2, hy = ny/2;
    double dx = r.b(0.4) ? r.i(-4, 4) : r.d(-5, 5), dy = r.b(0.4) ? r.i(-4, 4) : r.d(-5, 5); resample("translate", fmt("by %.17g %.17g def %g", dx, dy, def), v, translate(v, dx, dy, def), def, [&](size_t x, size_t y, L& a, L& b) { a = (L)x - dx; b = (L)y - dy; });
    double f = r.b(0.3) ? r.pick(V<double>{1, 2, 0.5, 3}) : r.d(0.2, 4); resample("scale", fmt("factor %.17g", f), v, scale(v, f, def), def, [&](size_t x, size_t y, L& a, L& b) { a = ((L)x - hx)/f + hx; b = ((L)y - hy)/f + hy; });
    double an = r.b(0.4) ? 90.0*r.i(-5, 5) : r.d(-400, 400); L c = cosl((L)an*PI/180), s = sinl((L)an*PI/180); resample("rotate", fmt("angle %.17g", an), v, rotate(v, an, def), def, [&](size_t x, size_t y, L& a, L& b) { L u = (L)x - hx, w = (L)y - hy; a = u*c - w*s + hx; b = w*c + u*s + hy; });
    S what = "identity"; checkf(same(scale(v, 1.0, def), v), "scale-1", [&]{ return simg(v); }); checkf(same(rotate(v, 0.0, def), v), "rotate-0", [&]{ return simg(v); });
    { vec2d g = translate_bicubic(v, dx, dy, def); V<vec1d> col(ny); bool shape = check(g.dims == v.dims && consistent(g), "translate-bicubic-shape", "");
      for (size_t y = 0; shape && y < ny; ++y) { col[y].resize(nx); for (size_t x = 0; x < nx; ++x) { vec1d row; for (size_t q = 0; q < ny; ++q) row.push_back(v.safe(x, q)); col[y].safe[x] = interpolate_3spline(row, (double)y - dy); } }
      for (size_t x = 0; shape && x < nx; ++x) for (size_t y = 0; y < ny; ++y) { double a = (double)x - dx, b = (double)y - dy; bool in = a >= 0 && b >= 0 && a <= nx - 1.0 && b <= ny - 1.0; double w = in ? (double)interpolate_3spline(col[y], a) : def, t = g.safe(x, y); bool edge = std::fabs(a) < 1e-9 || std::fabs(b) < 1e-9 || std::fabs(a - (nx - 1.0)) < 1e-9 || std::fabs(b - (ny - 1.0)) < 1e-9;
        if (in && edge) ev("bicubic-edge"); checkf(std::fabs(t - w) <= 1e-6, "translate-bicubic", [&]{ return fmt("by %.17g %.17g pixel %zu,%zu: %.17g expected %.17g ", dx, dy, x, y, t, w) + simg(v); }); if (in) ev("bicubic-moved"); } }
    cubic("scale-bicubic", fmt("factor %.17g", f), v, scale_bicubic(v, f, def), def, [&](size_t x, size_t y, double& a, double& b) { a = ((double)x - hx)/f + hx; b = ((double)y - hy)/f + hy; });
    cubic("rotate-bicubic", fmt("angle %.17g", an), v, rotate_bicubic(v, an, def), def, [&](size_t x, size_t y, double& a, double& b) { double u = (double)x - hx, w = (double)y - hy; a = u*c - w*s + hx; b = w*c + u*s + hy; });
    size_t k = r.u(2, 6); vec2d t = translate_bicubic(rndimg<double>(r, k, k), 0.0, 0.0); check(t.dims[0] == k && consistent(t), "translate-bicubic-shape", ""); sig(fmt("%zu%zu %g %g %g", nx, ny, dx, f, an));
}
SCEN(masks, 200, 12000) { Rng& r = rng;
    std::array<uint_t,2> d = {{r.u(r.b(0.05) ? 0 : 1, 12), r.u(r.b(0.05) ? 0 : 1, 12)}}; bool grid = r.b(0.4); double x = r.b(0.2) ? r.d(-30, 30) : r.d(-3, 14), y = r.b(0.2) ? r.d(-30, 30) : r.d(-3, 14), rad = r.b(0.1) ? 0 : r.b(0.1) ? r.d(0, 60) : r.d(0, 6); if (grid) { x = r.i(-4, 24)/2.0; y = r.i(-4, 24)/2.0; rad = r.i(0, 12)/2.0; }
    vh::note(fmt("%zux%zu r=%.17g at %.17g,%.17g", d[0], d[1], rad, x, y)); vec2d m = circular_mask(d, rad, x, y); if (!check(m.dims == d && consistent(m), "circular-mask-shape", "")) return;
    auto corner = [&](double a, double b) { L q = ((L)a - x)*((L)a - x) + ((L)b - y)*((L)b - y), R = (L)rad*rad; return fabsl(q - R) <= 1e-12L*(R + 1) && !grid ? 2 : q <= R ? 1 : 0; };
    for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) { int lo = 0, hi = 0; for (double a : {-0.5, 0.5}) for (double b : {-0.5, 0.5}) { int c = corner(i + a, j + b); lo += c == 1; hi += c != 0; }
        checkf(m.safe(i, j)*4 >= lo - 1e-9 && m.safe(i, j)*4 <= hi + 1e-9, "circular-mask", [&]{ return fmt("pixel %zu,%zu: %.17g expected %g..%g", i, j, m.safe(i, j), lo/4.0, hi/4.0); }); ev(lo == 4 ? "inside" : hi == 0 ? "outside-mask" : "border"); }
    check(same(circular_mask(d, rad), circular_mask(d, rad, d[0]/2.0, d[1]/2.0)), "circular-mask-centre", "");
    { Outcome o = guarded([&] { circular_mask(d, -0.1 - r.d(0, 5), x, y); }); check(o.rejected(), "negative-radius-accepted", o.str()); }
    if (d[0] && d[1]) {
        vec2d v = rndimg<double>(r, d[0], d[1]); size_t n = r.u(0, 6); vec1d p; Outcome o = guarded([&] { p = radial_profile(v, n); }); long hx = d[0]/2, hy = d[1]/2;
        if (check(o.ok() && p.size() == n && consistent(p), "radial-profile-shape", o.str())) for (size_t k = 0; k < n; ++k) {
            L w = 0, s = 0; for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) { auto fr = [&](double R) { int c = 0; for (double a : {-0.5, 0.5}) for (double b : {-0.5, 0.5}) c += (i + a - hx)*(i + a - hx) + (j + b - hy)*(j + b - hy) <= R*R; return c/4.0L; }; L g = k == 0 ? L((long)i == hx && (long)j == hy) : fr(k)*(1 - fr(k - 1)); w += g; s += g*v.safe(i, j); }
            if (w > 0) { checkf(close(p.safe[k], double(s/w), 1e-10, 1e-10), "radial-profile", [&]{ return fmt("radius %zu: %.17g expected %.17g ", k, p.safe[k], double(s/w)) + simg(v); }); ev("profile"); } }
        double sg = r.d(0.2, 3); vec2d g = gaussian_profile(d, sg, x, y); auto F = [&](L a, L m0) { return 0.5L*erfcl(-(a - m0)/(sqrtl(2.0L)*sg)); };
        for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) { L w = (F(i + 0.5L, x) - F(i - 0.5L, x))*(F(j + 0.5L, y) - F(j - 0.5L, y)); checkf(close(g.safe(i, j), double(w), 1e-6, 1e-12), "gaussian-profile", [&]{ return fmt("sigma %.17g at %.17g,%.17g pixel %zu,%zu: %.17g expected %.17g", sg, x, y, i, j, g.safe(i, j), double(w)); }); } ev("gaussian");
        check(same(gaussian_profile(d, sg), gaussian_profile(d, sg, d[0]/2, d[1]/2)), "gaussian-centre", "");
        auto gi = generate_img(d, [](int_t a, int_t b) { return 100*a + b; }); bool ok = gi.dims == d; for (size_t i = 0; ok && i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) ok = ok && gi.safe(i, j) == int_t(100*i + j); check(ok, "generate", "");
    }
    sig(fmt("%zu%zu%g", d[0], d[1], std::round(rad*4)));
}
#endif
#if PART == 2
// ================================================================ image processing
static vec2d conv_model(const vec2d& m, const vec2d& k) { vec2d o(m.dims); long hx = k.dims[0]/2, hy = k.dims[1]/2; for (long x = 0; x < (long)m.dims[0]; ++x) for (long y = 0; y < (long)m.dims[1]; ++y) { L s = 0; for (long a = 0; a < (long)k.dims[0]; ++a) for (long b = 0; b < (long)k.dims[1]; ++b) { long i = x - (a - hx), j = y - (b - hy); if (i >= 0 && j >= 0 && i < (long)m.dims[0] && j < (long)m.dims[1]) s += (L)m.safe(i, j)*k.safe(a, b); } o.safe(x, y) = s; } return o; }
static vec2d conv_cyclic(const vec2d& m, const vec2d& k) { vec2d o(m.dims); long nx = m.dims[0], ny = m.dims[1], hx = k.dims[0]/2, hy = k.dims[1]/2; for (long x = 0; x < nx; ++x) for (long y = 0; y < ny; ++y) { L s = 0; for (long a = 0; a < (long)k.dims[0]; ++a) for (long b = 0; b < (long)k.dims[1]; ++b) { long i = (((x - (a - hx)) % nx) + nx) % nx, j = (((y - (b - hy)) % ny) + ny) % ny; s += (L)m.safe(i, j)*k.safe(a, b); } o.safe(x, y) = s; } return o; }
static double ctol(const vec2d& m, const vec2d& k) { double a = 0, b = 0; for (auto x : m) a += std::fabs(x); for (auto x : k) b = std::max(b, std::fabs(x)); return 1e-12*(a*b + 1); }
#define CMP(key, got, want) do { vec2d g_ = (got), w_ = (want); checkf(same(g_, w_, tol), key, [&]{ return "got " + simg(g_) + " expected " + simg(w_) + " map " + simg(m) + " kernel " + simg(k); }); ev("convolved"); } while (0)
static vec2d oddk(Rng& r, size_t mx, size_t my) { vec2d k = rndimg<double>(r, 2*r.u(0, mx) + 1, 2*r.u(0, my) + 1); if (r.b(0.2)) for (auto& x : k) if (r.b()) x = 0; return k; }
SCEN(convolve, 200, 10000) { Rng& r = rng;
    vec2d m = rndimg<double>(r, r.u(1, 10), r.u(1, 10)), k = oddk(r, r.b(0.15) ? 12 : 3, r.b(0.15) ? 12 : 3); double tol = ctol(m, k); vh::note(simg(m) + simg(k)); vec2d w = conv_model(m, k);
    CMP("convolve2d-naive", convolve2d_naive(m, k), w); CMP("convolve2d", convolve2d(m, k), w); uint_t hx, hy; vec2cd kf = convolve2d_prepare_kernel(m, k, hx, hy); CMP("convolve2d-prepared", convolve2d(m, kf, hx, hy), w);
    vec2d dl(1, 1); dl[0] = 1; { auto k2 = k; k = dl; CMP("convolve2d-identity", convolve2d(m, dl), m); CMP("convolve2d-naive-identity", convolve2d_naive(m, dl), m); k = k2; }
    if (r.b(0.3)) { vec2d e = rndimg<double>(r, 2*r.u(1, 3), 2*r.u(1, 3)); CMP("convolve2d-even", convolve2d(m, e), conv_model(m, e)); Outcome o = guarded([&] { convolve2d_naive(m, e); }); check(o.rejected(), "even-kernel-accepted", o.str()); ev("even"); }
    if (r.b(0.3)) { vec2f mf = m; vec2d md = mf; tol = 1e-4*(1 + ctol(md, k)/1e-12*1e-3); vec2d q = convolve2d(mf, k); checkf(same(q, conv_model(md, k), tol), "convolve2d-float", [&]{ return simg(q); }); }
    sig(fmt("%zu%zu %zu%zu", m.dims[0], m.dims[1], k.dims[0], k.dims[1]));
}
SCEN(convolver, 150, 8000) { Rng& r = rng;
    bool cyc = r.b(0.4); vec2d k = oddk(r, 2, 2); auto c = r.b() ? batch_convolve2d(k) : batch_convolve2d(vec2d(k)); c.cyclic = cyc; size_t nx = r.u(cyc ? k.dims[0] : 1, 11), ny = r.u(cyc ? k.dims[1] : 1, 11); int n = r.i(1, 4); vec2d k0 = k;
    for (int i = 0; i < n; ++i) { if (r.b(0.2)) { nx = r.u(cyc ? k.dims[0] : 1, 11); ny = r.u(cyc ? k.dims[1] : 1, 11); if (i) ev("resized"); } vec2d m = rndimg<double>(r, nx, ny); double tol = ctol(m, k0); vh::note(simg(m) + simg(k0) + (cyc ? " cyclic" : "")); vec2d w = cyc ? conv_cyclic(m, k0) : conv_model(m, k0);
        vec2d g; Outcome o = guarded([&] { if (rng.b()) g = c.convolve(m); else { vec2d t = m; c.inplace_convolve(t); g = t; } }); if (!check(o.ok(), "convolver-refused", o.str())) return; CMP(cyc ? "convolver-cyclic" : "convolver", g, w); ev(cyc ? "cyclic" : "padded");
        if (r.b(0.2)) { auto c2 = std::move(c); vec2d g2 = c2.convolve(m); CMP("convolver-moved", g2, w); ev("moved"); break; } }
    { vec2d e(2*r.u(1, 2), 3); Outcome o = guarded([&] { batch_convolve2d(e); }); check(o.rejected(), "even-kernel-accepted", o.str()); } sig(fmt("%zu%zu%d%d", nx, ny, cyc, n));
}
SCEN(transition, 60, 3000) { Rng& r = rng;
    size_t nx = r.u(2, 9), ny = r.u(2, 9); vec2d from(nx, ny), to = rndimg<double>(r, nx, ny); for (auto& x : from) x = r.d(-1, 1)*0.3/(nx*ny); from(r.u(0, nx-1), r.u(0, ny-1)) += 1; vec2d k = make_transition_kernel(from, to); double tol = 1e-9; vec2d m = from;
    vec2d g(nx, ny); long hx = nx/2, hy = ny/2; for (size_t x = 0; x < nx; ++x) for (size_t y = 0; y < ny; ++y) { L s = 0; for (long a = 0; a < (long)nx; ++a) for (long b = 0; b < (long)ny; ++b) s += (L)from.safe((x + nx + hx - a) % nx, (y + ny + hy - b) % ny)*k.safe(a, b); g.safe(x, y) = s; } CMP("transition", g, to); ev("transition"); sig(fmt("%zu%zu", nx, ny));
}
SCEN(windows, 200, 10000) { Rng& r = rng;
    size_t nx = r.u(1, 10), ny = r.u(1, 10), h = r.b(0.15) ? r.u(0, 14) : r.u(0, 3); vec2d v = rndimg<double>(r, nx, ny); vh::note(simg(v) + fmt("h=%zu", h));
    auto win = [&](size_t x, size_t y) { V<double> w; for (long i = (long)x - (long)h; i <= (long)(x + h); ++i) for (long j = (long)y - (long)h; j <= (long)(y + h); ++j) if (i >= 0 && j >= 0 && i < (long)nx && j < (long)ny) w.push_back(v.safe(i, j)); std::sort(w.begin(), w.end()); return w; };
    vec2d a = boxcar(v, h, [](vec1d t) { return max(t); }), b = boxcar(v, h, [](const vec1d& t) { return total(t); }); vec2u n = boxcar(v, h, [](const vec1d& t) { return t.size(); }); bool ok = a.dims == v.dims && b.dims == v.dims && n.dims == v.dims;
    for (size_t x = 0; ok && x < nx; ++x) for (size_t y = 0; y < ny; ++y) { auto w = win(x, y); L s = 0; for (double t : w) s += t; checkf(n.safe(x, y) == w.size() && a.safe(x, y) == w.back() && close(b.safe(x, y), double(s), 1e-10, 1e-10), "boxcar", [&]{ return fmt("pixel %zu,%zu window %zu of %zu", x, y, n.safe(x, y), w.size()); }); } check(ok, "boxcar-shape", ""); ev("boxcar");
    vec2b m(nx, ny); double f = r.pick(V<double>{0, 0.05, 0.3, 0.9, 1}); for (size_t t = 0; t < m.size(); ++t) m.safe[t] = r.b(f); size_t d = r.b(0.1) ? r.u(0, 15) : r.u(0, 4); vec2b g = mask_inflate(m, d); ok = g.dims == m.dims;
    for (long x = 0; ok && x < (long)nx; ++x) for (long y = 0; y < (long)ny; ++y) { bool w = false; for (long i = 0; i < (long)nx; ++i) for (long j = 0; j < (long)ny; ++j) if (m.safe(i, j) && std::labs(i - x) + std::labs(j - y) <= (long)d) w = true; checkf(g.safe(x, y) == w, "mask-inflate", [&]{ return fmt("d=%zu pixel %ld,%ld: ", d, x, y) + simg(m) + " -> " + simg(g); }); } check(ok, "mask-inflate-shape", ""); ev("inflated"); sig(fmt("%zu%zu%zu%zu", nx, ny, h, d));
}
// connected components (4 neighbours) of the pixels where f(i,j,i2,j2)
static vec2u blobs(Rng& r, size_t nx, size_t ny) { vec2u m(nx, ny); double f = r.pick(V<double>{0.05, 0.3, 0.5, 0.6, 0.8, 1, 0}); for (auto& x : m) x = r.b(f); return m; }
static V<V<size_t>> comps(const vec2u& m, bool by_value) {
    V<V<size_t>> o; V<char> seen(m.size(), 0); size_t nx = m.dims[0], ny = m.dims[1];
    for (size_t s = 0; s < m.size(); ++s) { if (seen[s] || m.safe[s] == 0) continue; V<size_t> q = {s}; seen[s] = 1; for (size_t k = 0; k < q.size(); ++k) { size_t x = q[k]/ny, y = q[k]%ny; auto tr = [&](size_t t) { if (!seen[t] && m.safe[t] != 0 && (!by_value || m.safe[t] == m.safe[s])) { seen[t] = 1; q.push_back(t); } }; if (x) tr(q[k] - ny); if (x + 1 < nx) tr(q[k] + ny); if (y) tr(q[k] - 1); if (y + 1 < ny) tr(q[k] + 1); } std::sort(q.begin(), q.end()); o.push_back(q); }
    return o;
}
SCEN(segments, 250, 12000) { Rng& r = rng;
    size_t nx = r.u(1, 10), ny = r.u(1, 10); vec2u m = blobs(r, nx, ny); segment_params p; p.min_area = r.b(0.4) ? r.u(0, 6) : 0; p.first_id = r.b(0.7) ? 1 : r.u(1, 50); vh::note(simg(m) + fmt("min %zu first %zu", p.min_area, p.first_id));
    segment_output o; if (r.b(0.3)) { vec2u m2 = blobs(r, r.u(1, 5), r.u(1, 5)); segment(m2, o); ev("reused-output"); } vec2u s; Outcome oc = guarded([&] { if (r.b()) s = segment(m, o, p); else { vec2b mb = m != 0; s = segment(mb, o, p); } }); if (!check(oc.ok(), "segment-refused", oc.str())) return;
    auto cs = comps(m, false); vec2u want(nx, ny); struct E { size_t id, area, origin; L px, py; }; V<E> es; for (size_t k = 0; k < cs.size(); ++k) { if (cs[k].size() < p.min_area) { ev("too-small"); continue; } E e{p.first_id + k, cs[k].size(), cs[k][0], 0, 0}; for (size_t t : cs[k]) { want.safe[t] = e.id; e.px += t%ny; e.py += t/ny; } e.px /= e.area; e.py /= e.area; es.push_back(e); ev("segment"); }
    checkf(same(s, want), "segmentation", [&]{ return simg(m) + " -> " + simg(s) + " expected " + simg(want); }); bool ok = o.id.size() == es.size() && o.area.size() == es.size() && o.px.size() == es.size() && o.py.size() == es.size() && o.origin.size() == es.size(); check(ok, "segment-list", fmt("%zu entries expected %zu", o.id.size(), es.size()));
    for (size_t k = 0; ok && k < es.size(); ++k) checkf(o.id.safe[k] == es[k].id && o.area.safe[k] == es[k].area && o.origin.safe[k] == es[k].origin && close(o.px.safe[k], double(es[k].px), 1e-12, 1e-12) && close(o.py.safe[k], double(es[k].py), 1e-12, 1e-12), "segment-entry", [&]{ return fmt("entry %zu: id %zu area %zu centre %.17g,%.17g; expected id %zu area %zu centre %.17Lg,%.17Lg ", k, o.id.safe[k], o.area.safe[k], o.px.safe[k], o.py.safe[k], es[k].id, es[k].area, es[k].px, es[k].py) + simg(m); });
    if (ok && !es.empty()) { V<size_t> seen; foreach_segment(s, o.origin, [&](uint_t k, const vec1u& ids) { V<size_t> g(ids.begin(), ids.end()); std::sort(g.begin(), g.end()); V<size_t> w; for (size_t t = 0; t < s.size(); ++t) if (s.safe[t] == es[k].id) w.push_back(t); seen.push_back(k); checkf(g == w, "foreach-segment", [&]{ return fmt("segment %zu: %zu pixels given, %zu expected ", k, g.size(), w.size()) + simg(s); }); }); check(seen.size() == es.size(), "foreach-segment-count", ""); ev("foreach"); }
    { segment_params b; b.first_id = 0; segment_output o2; Outcome x = guarded([&] { segment(m, o2, b); }); check(x.rejected(), "first-id-0-accepted", x.str()); } check(same(segment(m), [&] { segment_output o3; return segment(m, o3); }()), "segment-short", ""); sig(fmt("%zu%zu%zu", nx, ny, cs.size()));
}
SCEN(deblend, 250, 12000) { Rng& r = rng;
    size_t nx = r.u(1, 12), ny = r.u(1, 12); vec2d im(nx, ny); V<double> vals(nx*ny); double lo = r.pick(V<double>{0.1, 2.6, 0.1}); for (size_t k = 0; k < vals.size(); ++k) vals[k] = lo + 6.0*k/vals.size() + 1e-3; r.shuffle(vals);
    if (r.b(0.5)) { int n = r.i(1, 4); V<double> sx(n), sy(n), am(n), wd(n); for (int q = 0; q < n; ++q) { sx[q] = r.d(0, nx); sy[q] = r.d(0, ny); am[q] = r.d(3, 20); wd[q] = r.d(0.5, 3); } for (size_t x = 0; x < nx; ++x) for (size_t y = 0; y < ny; ++y) { double f = 0; for (int q = 0; q < n; ++q) f += am[q]*std::exp(-0.5*((x - sx[q])*(x - sx[q]) + (y - sy[q])*(y - sy[q]))/(wd[q]*wd[q])); im.safe(x, y) = f + 1e-7*vals[x*ny + y]; } } else for (size_t k = 0; k < im.size(); ++k) im.safe[k] = vals[k];
    bool nan = r.b(0.15); if (nan) for (auto& x : im) if (r.b(0.1)) x = dnan; segment_deblend_params p; p.detect_threshold = r.b(0.3) ? 0.05 : r.d(0.5, 5); p.deblend_threshold = r.b(0.2) ? r.d(0, 3) : r.i(0, 6); p.min_area = r.b(0.3) ? r.u(1, 6) : 0; p.first_id = r.b(0.7) ? 1 : r.u(1, 30); p.centroid_flim = r.b() ? 0 : r.d(0, 1);
    vh::note(fmt("thr %.6g deb %.6g min %zu first %zu flim %g ", p.detect_threshold, p.deblend_threshold, p.min_area, p.first_id, p.centroid_flim) + simg(im)); segment_deblend_output o; if (r.b(0.3)) { vec2d i2 = rndimg<double>(r, 4, 4); segment_deblend(i2, o); ev("reused-deblend"); }
    vec2u s; Outcome oc = guarded([&] { s = segment_deblend(im, o, p); }); if (!check(oc.ok(), "deblend-refused", oc.str())) return; size_t n = o.id.size(); if (!check(s.dims == im.dims && o.area.size() == n && o.bx.size() == n && o.by.size() == n && o.px.size() == n && o.py.size() == n && o.origin.size() == n && o.flux.size() == n, "deblend-shape", fmt("%zu ids", n))) return;
    // peaks: pixels above the threshold with no brighter pixel within the deblending distance
    long D = (long)std::ceil(p.deblend_threshold) - 1; auto L1 = [&](size_t a, size_t b) { return std::labs((long)(a/ny) - (long)(b/ny)) + std::labs((long)(a%ny) - (long)(b%ny)); }; V<size_t> peaks; V<size_t> ord; for (size_t k = 0; k < im.size(); ++k) if (im.safe[k] >= p.detect_threshold) ord.push_back(k); std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return im.safe[a] > im.safe[b]; });
    V<V<size_t>> near(im.size()); V<long> nd(im.size(), 1000000); for (size_t a = 0; a < ord.size(); ++a) { for (size_t b = 0; b < a; ++b) { long d = L1(ord[a], ord[b]); if (d > D) continue; if (d < nd[ord[a]]) { nd[ord[a]] = d; near[ord[a]].clear(); } if (d == nd[ord[a]]) near[ord[a]].push_back(ord[b]); } if (near[ord[a]].empty()) peaks.push_back(ord[a]); }
    std::map<size_t,size_t> idx; bool ok = true; for (size_t k = 0; k < n; ++k) { idx[o.id.safe[k]] = k; size_t q = o.id.safe[k] - p.first_id; ok = ok && q < peaks.size() && peaks[q] == o.origin.safe[k] && o.px.safe[k] == (long)(peaks[q]%ny) && o.py.safe[k] == (long)(peaks[q]/ny); ev("deblended"); } checkf(ok && idx.size() == n && (p.min_area > 0 || n == peaks.size()), "deblend-peaks", [&]{ return fmt("%zu segments, %zu peaks", n, peaks.size()); });
    V<V<size_t>> px(n); for (size_t k = 0; k < s.size(); ++k) if (s.safe[k]) { if (!check(idx.count(s.safe[k]) && im.safe[k] >= p.detect_threshold, "deblend-pixel", fmt("pixel %zu has unknown segment %zu or is too faint", k, s.safe[k]))) return; px[idx[s.safe[k]]].push_back(k); }
    for (size_t k = 0; k < n; ++k) { L fl = 0, cx = 0, cy = 0, cf = 0; double pk = im.safe[o.origin.safe[k]]; bool edge = false; for (size_t t : px[k]) { fl += im.safe[t]; if (std::fabs(im.safe[t] - p.centroid_flim*pk) < 1e-12*pk) edge = true; if (im.safe[t] >= p.centroid_flim*pk) { cx += im.safe[t]*(t%ny); cy += im.safe[t]*(t/ny); cf += im.safe[t]; } }
        checkf(o.area.safe[k] == px[k].size() && o.area.safe[k] >= p.min_area, "deblend-area", [&]{ return fmt("segment %zu: area %zu, %zu pixels on the map", o.id.safe[k], o.area.safe[k], px[k].size()); }); check(s.safe[o.origin.safe[k]] == o.id.safe[k], "deblend-origin", ""); checkf(close(o.flux.safe[k], double(fl), 1e-4, 1e-5), "deblend-flux", [&]{ return fmt("%.9g expected %.9Lg", o.flux.safe[k], fl); });
        if (!edge) checkf(close(o.bx.safe[k], double(cx/cf), 1e-4, 1e-4) && close(o.by.safe[k], double(cy/cf), 1e-4, 1e-4), "deblend-centroid", [&]{ return fmt("%.9g,%.9g expected %.9Lg,%.9Lg", o.bx.safe[k], o.by.safe[k], cx/cf, cy/cf); }); }
    V<V<size_t>> cc = comps(s, true); check(cc.size() == n, "deblend-connected", fmt("%zu components, %zu segments", cc.size(), n));
    if (p.min_area == 0) for (size_t t : ord) { if (near[t].empty()) continue; bool m0 = false, mz = false; for (size_t q : near[t]) { m0 = m0 || s.safe[q] == s.safe[t]; mz = mz || s.safe[q] == 0; } if (s.safe[t]) { checkf(m0 || mz, "deblend-membership", [&]{ return fmt("pixel %zu in segment %zu, but none of the closest brighter pixels are", t, s.safe[t]); }); ev("member"); } else { checkf(mz || nd[t] > 1, "deblend-lost-pixel", [&]{ return fmt("pixel %zu (%.6g) is above the threshold and next to a segmented pixel, but in no segment", t, im.safe[t]); }); ev("island"); } }
    sig(fmt("%zu%zu%zu%g", nx, ny, n, p.deblend_threshold));
}
SCEN(distances, 150, 8000) { Rng& r = rng;
    size_t nx = r.u(1, 14), ny = r.u(1, 14); vec2u m(nx, ny); int n = r.i(0, 5); for (int k = 0; k < n; ++k) { size_t x = r.u(0, nx-1), y = r.u(0, ny-1), w = r.u(1, 4), h = r.u(1, 4); uint_t id = r.u(1, 9); for (size_t i = x; i < std::min(nx, x + w); ++i) for (size_t j = y; j < std::min(ny, y + h); ++j) m.safe(i, j) = id; }
    vh::note(simg(m)); vec2u e = m, im; vec2d d; segment_distance(e, d, im); bool any = false; for (auto t : m) any = any || t; if (!check(e.dims == m.dims && d.dims == m.dims && im.dims == m.dims, "distance-shape", "")) return;
    for (size_t t = 0; t < m.size(); ++t) { if (!any) { check(d.safe[t] == dinf && e.safe[t] == 0, "distance-none", ""); continue; } double best = dinf; for (size_t q = 0; q < m.size(); ++q) if (m.safe[q]) { double a = double(t/ny) - double(q/ny), b = double(t%ny) - double(q%ny); best = std::min(best, a*a + b*b); }
        uint_t q = im.safe[t]; if (!checkf(q < m.size() && m.safe[q] != 0, "distance-nearest-is-segment", [&]{ return fmt("pixel %zu: nearest %zu", t, q); })) return; double a = double(t/ny) - double(q/ny), b = double(t%ny) - double(q%ny);
        checkf(d.safe[t] == a*a + b*b, "distance-value", [&]{ return fmt("pixel %zu: %g, nearest pixel is at %g", t, d.safe[t], a*a + b*b); }); checkf(e.safe[t] == m.safe[q], "distance-owner", [&]{ return fmt("pixel %zu: segment %zu, nearest pixel belongs to %zu", t, e.safe[t], m.safe[q]); });
        checkf(std::sqrt(d.safe[t]) <= std::sqrt(best) + 1.5, "distance-not-nearest", [&]{ return fmt("pixel %zu: %g, but %g exists", t, d.safe[t], best); }); ev(d.safe[t] == best ? "nearest" : "nearly-nearest"); } sig(fmt("%zu%zu%d", nx, ny, n));
}
#endif
#if PART == 3 || PART == 4
static double dtol(L d) { L x = d/3600*PI/180; L c = std::max<L>(cosl(x/2), 1e-8L); return double(1e-9L*d + 1e-7L + 3e-16L*tanl(std::min<L>(x/2, 1.57L))*206265*4 + 4e-16L/c*206265*2); }
#endif
#if PART == 3
// ================================================================ sky coordinates
static void place(Rng& r, double& ra, double& dec) { ra = r.b(0.15) ? r.pick(V<double>{0, 90, 180, 270, 360}) : r.d(0, 360); dec = r.b(0.15) ? r.pick(V<double>{0, 90, -90, 45}) : r.b(0.1) ? (r.b() ? 1 : -1)*(90 - std::pow(10.0, r.d(-8, 0))) : std::asin(r.d(-1, 1))*180/dpi; }
static void nearby(Rng& r, double ra, double dec, double& ra2, double& dec2) { int k = r.i(0, 9); if (k == 0) { ra2 = ra; dec2 = dec; return; } if (k == 1) { ra2 = ra + 180 + r.gauss()*std::pow(10.0, r.d(-10, 0)); dec2 = std::max(-90.0, std::min(90.0, -dec + r.gauss()*std::pow(10.0, r.d(-10, 0)))); return; } if (k < 5) { place(r, ra2, dec2); return; } double s = std::pow(10.0, r.d(-8, 1)); ra2 = ra + r.gauss()*s; dec2 = std::max(-90.0, std::min(90.0, dec + r.gauss()*s)); if (r.b(0.2)) ra2 += 360*r.i(-1, 1); }
SCEN(distance, 400, 30000) { Rng& r = rng;
    size_t n = r.u(1, 6); vec1d a(n), b(n), c(n), d(n); for (size_t k = 0; k < n; ++k) { place(r, a[k], b[k]); nearby(r, a[k], b[k], c[k], d[k]); } vh::note(svv(a) + svv(b) + svv(c) + svv(d));
    vec1d g = angdist(a, b, c, d), h = angdist(a, b, c[0], d[0]); double rad = r.b(0.1) ? 0 : r.b(0.1) ? -r.d(0, 1e5) : r.b(0.1) ? r.d(648000, 1300000) : r.b(0.3) ? double(angd(a[0], b[0], c[0], d[0]))*r.d(0.5, 1.5) : std::pow(10.0, r.d(-3, 5.8)); vec1b ls = angdist_less(a, b, c[0], d[0], rad);
    if (!check(g.size() == n && h.size() == n && ls.size() == n, "angdist-shape", "")) return;
    for (size_t k = 0; k < n; ++k) { L w = angd(a[k], b[k], c[k], d[k]), w0 = angd(a[k], b[k], c[0], d[0]); double s = angdist(a[k], b[k], c[k], d[k]), sr = angdistr(a[k]*dpi/180, b[k]*dpi/180, c[k]*dpi/180, d[k]*dpi/180)*180/dpi*3600;
        checkf(std::fabs(s - w) <= dtol(w) && std::fabs(g[k] - w) <= dtol(w) && std::fabs(h[k] - w0) <= dtol(w0) && std::fabs(sr - w) <= dtol(w), "angdist", [&]{ return fmt("(%.17g,%.17g)-(%.17g,%.17g): %.17g %.17g %.17g expected %.17Lg", a[k], b[k], c[k], d[k], s, g[k], sr, w); }); ev(w < 1 ? "close" : w > 640000 ? "antipodal" : "far");
        if (fabsl(w0 - rad) > 10*dtol(w0)) { checkf(ls[k] == (w0 < rad), "angdist-less", [&]{ return fmt("(%.17g,%.17g)-(%.17g,%.17g) at %.17Lg, radius %.17g: %d", a[k], b[k], c[0], d[0], w0, rad, (int)ls[k]); }); ev(ls[k] ? "within" : "beyond"); } }
    { vec1d bad = b; bad.push_back(0); Outcome o = guarded([&] { angdist(a, bad, c, d); }), o2 = guarded([&] { angdist_less(a, bad, 1.0, 2.0, 3.0); }); check(o.rejected() && o2.rejected(), "mismatch-accepted", o.str() + o2.str()); }
    sig(fmt("%zu %d", n, (int)std::floor(std::log10(g[0] + 1e-9)*4)));
}
SCEN(representation, 300, 20000) { Rng& r = rng;
    size_t n = r.u(1, 4); vec1d a(n), b(n); for (size_t k = 0; k < n; ++k) { a[k] = r.b(0.2) ? 180.0*r.i(-5, 5) : r.d(-1500, 1500); b[k] = r.b(0.2) ? 45.0*r.i(-9, 9) : r.d(-400, 400); if (r.b(0.02)) a[k] = r.b() ? 1e18 : dinf; else if (r.b(0.02)) b[k] = r.b() ? -1e17 : dinf; } vec1d a0 = a, b0 = b; vh::note(svv(a) + svv(b)); normalize_coordinates(a, b);
    for (size_t k = 0; k < n; ++k) { if (!std::isfinite(a0[k]) || !std::isfinite(b0[k])) { ev("not-finite"); continue; } if (std::fabs(a0[k]) > 1e6 || std::fabs(b0[k]) > 1e6) { check(a[k] >= 0 && a[k] <= 360 && b[k] >= -90 && b[k] <= 90, "normalized-range", ""); ev("huge"); continue; }
        checkf(a[k] >= 0 && a[k] <= 360 && b[k] >= -90 && b[k] <= 90, "normalized-range", [&]{ return fmt("%.17g,%.17g -> %.17g,%.17g", a0[k], b0[k], a[k], b[k]); }); checkf(angd(a0[k], b0[k], a[k], b[k]) < 1e-7, "normalized-point", [&]{ return fmt("%.17g,%.17g -> %.17g,%.17g", a0[k], b0[k], a[k], b[k]); }); double x = a0[k], y = b0[k]; normalize_coordinates(x, y); check(x == a[k] && y == b[k], "normalized-scalar", ""); ev("normalized"); }
    // rotation about the origin of coordinates
    vec1d p(n), q(n), p2, q2; for (size_t k = 0; k < n; ++k) place(r, p[k], q[k]); double e = r.b(0.3) ? 90.0*r.i(-4, 4) : r.d(-400, 400); angrot_vernal(p, q, e, p2, q2); if (!check(p2.size() == n && q2.size() == n, "rotation-shape", "")) return;
    L ce = cosl(e*PI/180), se = sinl(e*PI/180); for (size_t k = 0; k < n; ++k) { L x = cosl(q[k]*PI/180)*cosl(p[k]*PI/180), y = cosl(q[k]*PI/180)*sinl(p[k]*PI/180), z = sinl(q[k]*PI/180), y2 = ce*y - se*z, z2 = ce*z + se*y; double wr = double(atan2l(y2, x)*180/PI), wd = double(atan2l(z2, sqrtl(x*x + y2*y2))*180/PI);
        checkf(angd(p2[k], q2[k], wr, wd) < 0.01 && p2[k] >= 0 && p2[k] <= 360, "rotation", [&]{ return fmt("(%.17g,%.17g) by %.17g -> (%.17g,%.17g) expected (%.17g,%.17g)", p[k], q[k], e, p2[k], q2[k], wr, wd); }); ev("rotated");
        L d0 = angd(p[k], q[k], 0, 0)/3600; if (d0 > 0.01 && d0 < 179.99) { double va = vernal_angle(p[k], q[k]); vec1d ra1 = {p[k]}, de1 = {q[k]}, ra2, de2; angrot_vernal(ra1, de1, -va, ra2, de2); checkf(std::fabs(de2[0]) < 1e-3 && va >= -90.000001 && va <= 90.000001, "vernal-angle", [&]{ return fmt("(%.17g,%.17g): angle %.17g brings it to declination %.17g", p[k], q[k], va, de2[0]); }); ev("vernal"); } }
    // small displacements
    double ra, dec; place(r, ra, dec); if (std::fabs(dec) < 80) { double dx = r.d(-30, 30), dy = r.d(-30, 30), r1 = ra, d1 = dec; move_ra_dec(r1, d1, dx, dy); vec1d vr = {ra}, vd = {dec}; move_ra_dec(vr, vd, dx, dy); check(close(vr[0], r1, 1e-13, 1e-12) && close(vd[0], d1, 1e-13, 1e-12), "move-vector", ""); double w = std::hypot(dx, dy); L g = angd(ra, dec, r1, d1); checkf(fabsl(g - w) < 2e-3*w + 1e-6, "move", [&]{ return fmt("(%.17g,%.17g) by %g,%g moved %.17Lg", ra, dec, dx, dy, g); }); ev("moved"); } sig(fmt("%zu %g", n, std::round(e/10)));
}
static bool field(const S& s, bool last) { size_t p = s.find('.'); S i = last && p != s.npos ? s.substr(0, p) : s; if (i.size() != 2 || !isdigit(i[0]) || !isdigit(i[1]) || i > "59") return false; if (last && p != s.npos) for (size_t k = p + 1; k < s.size(); ++k) if (!isdigit(s[k])) return false; return true; }
SCEN(sexagesimal, 600, 40000) { Rng& r = rng;
    double ra = r.b(0.2) ? r.i(0, 24)*15.0 : r.d(0, 360), dec = r.b(0.2) ? r.i(-90, 90) : r.d(-90, 90); int k = r.i(0, 5); if (k == 0) dec = r.d(-1, 1); if (k == 1) { ra = r.i(0, 23)*15 + r.i(0, 59)/4.0 + r.i(0, 59)/240.0; dec = (r.b() ? 1 : -1)*(r.i(0, 89) + r.i(0, 59)/60.0 + r.i(0, 59)/3600.0); } if (k == 2) { double e = std::pow(10.0, r.d(-12, -4)); ra = r.i(1, 86399)/240.0 + (r.b() ? e : -e); dec = r.i(-323999, 323999)/3600.0 + (r.b() ? e : -e); } if (r.b(0.03)) ra = 0; if (r.b(0.03)) dec = 0; if (r.b(0.03)) ra = -r.d(0, 20);
    S sr, sdc; vh::note(fmt("%.17g %.17g", ra, dec)); deg2sex(ra, dec, sr, sdc); V<S> f1, f2; { std::stringstream s1(sr), s2(sdc); S t; while (std::getline(s1, t, ':')) f1.push_back(t); while (std::getline(s2, t, ':')) f2.push_back(t); }
    checkf(f1.size() == 3 && f2.size() == 3 && field(f1[1], false) && field(f2[1], false) && field(f1[2], true) && field(f2[2], true), "sexagesimal-format", [&]{ return fmt("%.17g %.17g -> '", ra, dec) + sr + "' '" + sdc + "'"; });
    double a, d; bool ok = sex2deg(sr, sdc, a, d); checkf(ok && std::fabs(a - ra)*3600 < 2e-3 && std::fabs(d - dec)*3600 < 2e-4, "sexagesimal-round-trip", [&]{ return fmt("%.17g %.17g -> '", ra, dec) + sr + "' '" + sdc + fmt("' -> %.17g %.17g", a, d); }); ev("round-trip"); if (dec < 0 && dec > -1) ev("negative-zero-degrees");
    // the other way
    int h = r.i(0, 23), m = r.i(0, 59), dg = r.b(0.2) ? 0 : r.i(0, 89), mi = r.i(0, 59); double s = r.b(0.3) ? r.i(0, 59) : r.i(0, 59999)/1000.0, sc = r.b(0.3) ? r.i(0, 59) : r.i(0, 59999)/1000.0; bool neg = r.b(); S t1 = fmt(r.b() ? "%02d:%02d:%g" : "%d:%d:%g", h, m, s), t2 = S(neg ? "-" : r.b(0.2) ? "+" : "") + fmt(r.b() ? "%02d:%02d:%g" : "%d:%d:%g", dg, mi, sc);
    ok = sex2deg(t1, t2, a, d); double wa = (h + m/60.0 + s/3600)*15, wd = (neg ? -1 : 1)*(dg + mi/60.0 + sc/3600); checkf(ok && close(a, wa, 1e-12, 1e-12) && close(d, wd, 1e-12, 1e-12), "sexagesimal-value", [&]{ return "'" + t1 + "' '" + t2 + fmt("' -> %.17g %.17g expected %.17g %.17g", a, d, wa, wd); }); ev("parsed");
    // malformed
    S bad = t2; int bk = r.i(0, 3); if (bk == 0) bad += ":3"; else if (bk == 1) bad = fmt("%d:%d", dg, mi); else if (bk == 2) bad = fmt("%d:x%d:%g", dg, mi, sc); else bad = r.b() ? "" : "abc"; bool b1 = r.b(); a = d = 1; ok = b1 ? sex2deg(t1, bad, a, d) : sex2deg(bad, t2, a, d); checkf(!ok && a != a && d != d, "malformed-accepted", [&]{ return "'" + bad + fmt("' -> %.17g %.17g", a, d); }); ev("malformed");
    vec1s v1 = {t1, t1, t1}, v2 = {t2, bad, t2}; vec1d va, vd; vec1b vo = sex2deg(v1, v2, va, vd); check(vo.size() == 3 && vo[0] && !vo[1] && vo[2] && va.size() == 3 && close(vd[2], wd, 1e-12, 1e-12) && vd[1] != vd[1], "sexagesimal-vector", ""); vec1s o1, o2; vec1d i1 = {ra, ra}, i2 = {dec, -dec}; deg2sex(i1, i2, o1, o2); check(o1.size() == 2 && o1[0] == sr && o2[0] == sdc, "sexagesimal-vector-out", ""); sig(fmt("%d %d %d", k, bk, (int)neg));
}
SCEN(areas, 120, 5000) { Rng& r = rng;
    double sz = std::pow(10.0, r.d(-2, 0)), d0 = r.d(-60, 60), r0 = r.d(20, 340), cd = std::cos(d0*dpi/180); size_t n = r.u(3, 12); vec1d x(n), y(n); V<std::pair<L,L>> pt; bool line = r.b(0.15); double th = r.d(0, 6); for (size_t k = 0; k < n; ++k) { double u = line ? r.d(-1, 1)*std::cos(th) : r.d(-0.5, 0.5), w = line ? r.d(-1, 1)*0 + u*std::tan(th) : r.d(-0.5, 0.5); x[k] = r0 + u*sz/cd; y[k] = d0 + w*sz; }
    // spherical excess of the hull of the tangent-plane positions would be exact; for small fields the plane is enough
    for (size_t k = 0; k < n; ++k) pt.push_back({((L)x[k] - r0), (L)y[k]}); std::sort(pt.begin(), pt.end()); V<std::pair<L,L>> hl(2*n); size_t m = 0; auto cr = [](const std::pair<L,L>& o, const std::pair<L,L>& a, const std::pair<L,L>& b) { return (a.first - o.first)*(b.second - o.second) - (a.second - o.second)*(b.first - o.first); }; for (size_t k = 0; k < n; ++k) { while (m >= 2 && cr(hl[m-2], hl[m-1], pt[k]) <= 0) --m; hl[m++] = pt[k]; } for (size_t k = n - 1, t = m + 1; k-- > 0;) { while (m >= t && cr(hl[m-2], hl[m-1], pt[k]) <= 0) --m; hl[m++] = pt[k]; } L ar = 0; for (size_t k = 0; k + 1 < m; ++k) { L cm = cosl((hl[k].second + hl[k+1].second)/2*PI/180); (void)cm; ar += (hl[k].first*hl[k+1].second - hl[k+1].first*hl[k].second)/2; } ar = fabsl(ar)*cd;
    // (points of a straight line in RA and Dec are not on a great circle, hence the cubic term)
    double D = 0; for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < k; ++j) D = std::max(D, std::hypot((x[k] - x[j])*cd, y[k] - y[j]));
    double g = field_area_hull(x, y); checkf(g >= 0 && std::fabs(g - ar) <= 0.06*ar + 1e-6*D*D + 0.01*D*D*D, "hull-area", [&]{ return fmt("%zu points, size %g at %g: %.12g expected %.12Lg", n, sz, d0, g, ar); }); ev(line ? "line" : "hull-area");
    size_t N = r.b(0.3) ? r.u(0, 19) : r.u(400, 1500); vec1d fx(N), fy(N); int kind = r.i(0, 5); for (size_t k = 0; k < N; ++k) { fx[k] = r0 + (kind == 0 ? 0 : r.d(-0.5, 0.5))*sz/cd; fy[k] = d0 + (kind == 1 || (kind == 0 && r0 < 100) ? 0 : r.d(-0.5, 0.5))*sz; } double fa = -1; if (N >= 3) { Outcome o = guarded([&] { fa = field_area(fx, fy); }); check(o.ok(), "field-area-refused", fmt("%zu sources kind %d: ", N, kind) + o.str()); if (o.ok()) { checkf(fa >= 0, "field-area-negative", [&]{ return fmt("%g", fa); }); if (N >= 400 && kind > 1) { checkf(fa > 0.7*sz*sz && fa < 1.3*sz*sz, "field-area", [&]{ return fmt("%zu sources over %g deg2: %g", N, sz*sz, fa); }); ev("field-area"); } } }
    sig(fmt("%zu %d", n, kind));
}
SCEN(random_positions, 80, 4000) { Rng& r = rng;
    auto seed = make_seed(r.u(0, 1000000)); size_t n = r.u(0, 60); vec1d x = {1}, y = {2, 3}; double x0 = r.d(-5, 5), x1 = x0 + r.d(0.1, 4), y0 = r.d(-5, 5), y1 = y0 + r.d(0.1, 4); randpos_uniform_box(seed, n, {x0, x1}, {y0, y1}, x, y); bool ok = x.size() == n && y.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = x[k] >= x0 && x[k] <= x1 && y[k] >= y0 && y[k] <= y1; check(ok, "uniform-box", ""); ev("box"); if (n >= 20) { double l = 1e99, h = -1e99, l2 = 1e99, h2 = -1e99; for (size_t k = 0; k < n; ++k) { l = std::min(l, x[k]); h = std::max(h, x[k]); l2 = std::min(l2, y[k]); h2 = std::max(h2, y[k]); } check(h - l > 0.2*(x1 - x0) && h2 - l2 > 0.2*(y1 - y0), "uniform-box-not-filled", fmt("%zu positions within %g x %g of %g x %g", n, h - l, h2 - l2, x1 - x0, y1 - y0)); }
    double cx = (x0 + x1)/2; auto inr = [&](double a, double) { return a < cx; }; auto s = randpos_uniform_box(seed, n, {x0, x1}, {y0, y1}, x, y, inr); ok = s.success && x.size() == n && y.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = x[k] >= x0 && x[k] < cx && y[k] >= y0 && y[k] <= y1; check(ok, "box-in-region", s.failure); if (n >= 20) { double l = 1e99, h = -1e99, l2 = 1e99, h2 = -1e99; for (size_t k = 0; k < n; ++k) { l = std::min(l, x[k]); h = std::max(h, x[k]); l2 = std::min(l2, y[k]); h2 = std::max(h2, y[k]); } check(h - l > 0.2*(cx - x0) && h2 - l2 > 0.2*(y1 - y0), "box-not-filled", fmt("%zu positions within %g x %g of %g x %g", n, h - l, h2 - l2, cx - x0, y1 - y0)); }
    double rad = r.d(0.1, 3); randpos_uniform_circle(seed, n, x0, y0, rad, x, y); ok = x.size() == n && y.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = std::hypot(x[k] - x0, y[k] - y0) <= rad*(1 + 1e-9); check(ok, "uniform-circle", ""); auto half = [&](double a, double) { return a < x0; }; s = randpos_uniform_circle(seed, n, x0, y0, rad, x, y, half); ok = s.success && x.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = std::hypot(x[k] - x0, y[k] - y0) <= rad*(1 + 1e-9) && x[k] < x0; check(ok, "circle-in-region", s.failure); ev("circle");
    // a region that is never reached: gives up after the requested number of attempts
    if (n) { randpos_uniform_options o; o.max_iter = r.u(1, 50); size_t calls = 0; auto never = [&](double, double) { ++calls; return false; }; s = randpos_uniform_box(seed, n, {x0, x1}, {y0, y1}, x, y, never, o); check(!s.success && !s.failure.empty() && calls <= o.max_iter + 1, "box-gives-up", fmt("%zu attempts, %zu allowed", calls, o.max_iter)); calls = 0; s = randpos_uniform_circle(seed, n, x0, y0, rad, x, y, never, o); check(!s.success && calls <= o.max_iter + 1, "circle-gives-up", ""); ev("gives-up"); }
    randpos_power_options p; p.eta = r.u(1, 4); p.levels = r.u(1, 4); p.lambda = r.d(1.2, 3); size_t w = 1; for (size_t k = 0; k < p.levels; ++k) w *= p.eta; randpos_power_base(seed, x0, y0, rad, x, y, p); L ext = 0, q = rad; for (size_t k = 0; k < p.levels; ++k) { ext += q; q /= p.lambda; } ok = x.size() == w && y.size() == w; for (size_t k = 0; ok && k < w; ++k) ok = std::hypot(x[k] - x0, y[k] - y0) <= ext*(1 + 1e-9); check(ok, "power-base", fmt("%zu positions, %zu expected", x.size(), w)); ev("power");
    auto reg = [&](double a, double b, double th) { return std::hypot(a - x0, b - y0) <= rad*0.9 + th; }; if (r.b(0.3)) p.eta_end = r.u(1, 5); size_t w2 = 1; for (size_t k = 0; k + 1 < p.levels; ++k) w2 *= p.eta; w2 *= p.eta_end == npos ? p.eta : p.eta_end; auto s2 = randpos_power_circle(seed, x0, y0, rad, x, y, reg, p); if (s2.success) { ok = x.size() == w2 && y.size() == w2; for (size_t k = 0; ok && k < x.size(); ++k) ok = reg(x[k], y[k], 0.0); check(ok, "power-circle", fmt("%zu positions, %zu expected", x.size(), w2)); ev("power-circle"); }
    { size_t calls = 0; p.max_iter = r.u(1, 60); auto nv = [&](double, double, double) { ++calls; return false; }; auto s3 = randpos_power_circle(seed, x0, y0, rad, x, y, nv, p); check(!s3.success && calls <= p.max_iter + 1, "power-gives-up", fmt("%zu attempts, %zu allowed", calls, p.max_iter)); } sig(fmt("%zu%zu%zu", n, p.eta, p.levels));
}
SCEN(correlation, 30, 1500) { Rng& r = rng;
    size_t n = r.u(2, 12), m = r.u(2, 20), nb = r.u(1, 4); vec1d a(n), b(n), c(m), d(m); for (auto& t : a) t = r.d(10, 10.1); for (auto& t : b) t = r.d(10, 10.1); for (auto& t : c) t = r.d(10, 10.1); for (auto& t : d) t = r.d(10, 10.1); vec2d bins(2, nb); double e = r.d(0.1, 20); for (size_t k = 0; k < nb; ++k) { bins(0,k) = e; e += r.d(20, 200); bins(1,k) = e; }
    vec1d g = angcorrel(a, b, c, d, bins); if (!check(g.size() == nb, "correlation-shape", "")) return; for (size_t k = 0; k < nb; ++k) { L dd = 0, dr = 0, rr = 0; bool edge = false; auto in = [&](double x1, double y1, double x2, double y2) { L t = angd(x1, y1, x2, y2); if (fabsl(t - bins(0,k)) < 1e-5 || fabsl(t - bins(1,k)) < 1e-5) edge = true; return t >= bins(0,k) && t < bins(1,k); }; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) dd += in(a[i], b[i], a[j], b[j]); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) dr += in(a[i], b[i], c[j], d[j]); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) if (i != j) rr += in(c[i], d[i], c[j], d[j]);
        if (edge || rr == 0) continue; L N = n, M = m; L w = (dd/(N*(N-1)) - 2*dr/(N*M)*(M-1)/(M-1) + rr/(M*(M-1)))/(rr/(M*(M-1))); L w2 = (dd*(M/N)*((M-1)/(N-1)) - 2*dr*(M/N) + rr)/rr; checkf(close(g[k], double(w2), 1e-9, 1e-9), "correlation", [&]{ return fmt("bin %zu: %.12g expected %.12Lg (%.12Lg)", k, g[k], w2, w); }); ev("correlation"); } sig(fmt("%zu%zu%zu", n, m, nb));
}
#endif
#if PART == 4
// ================================================================ photometry
static L simpson(std::function<L(L)> f, L a, L b, int n = 4000) { L h = (b - a)/n, s = f(a) + f(b); for (int k = 1; k < n; ++k) s += (k % 2 ? 4 : 2)*f(a + k*h); return s*h/3; }
static cosmo_t acosmo(Rng& r) { int k = r.i(0, 3); if (k == 0) return cosmo_wmap(); if (k == 1) return cosmo_plank(); if (k == 2) return cosmo_std(); cosmo_t c; c.H0 = r.d(40, 100); c.wm = r.d(0.1, 0.9); c.wL = 1 - c.wm; c.wk = 0; return c; }
static L m_lum(L z, const cosmo_t& c) { return z <= 0 ? 0 : (1 + z)*(2.99792458e5L/c.H0)*simpson([&](L t) { return 1/sqrtl(powl(1 + t, 3)*c.wm + c.wL); }, 0, z, 600); }
static L m_look(L z, const cosmo_t& c) { return z <= 0 ? 0 : (3.09L/(c.H0*3.155e-3L))*simpson([&](L t) { return 1/sqrtl(powl(1 + t, 3)*c.wm + c.wL + powl(1 + t, 2)*c.wk)/(1 + t); }, 0, z, 600); }
static L m_vol(L z, const cosmo_t& c) { return z <= 0 ? 0 : 4.0L/3*PI*powl(m_lum(z, c)/(1 + z), 3); }
static L m_size(L z, const cosmo_t& c) { return z <= 0 ? (L)dinf : (1/3.6L)*(PI/180)*m_lum(z, c)/((1 + z)*(1 + z)); }
SCEN(cosmology, 60, 3000) { Rng& r = rng;
    cosmo_t c = acosmo(r); double z = r.b(0.1) ? 0 : r.b(0.1) ? -r.d(0, 2) : r.b() ? r.d(0, 10) : std::pow(10.0, r.d(-4, 1)); vh::note(fmt("z=%.17g H0=%g wm=%g", z, c.H0, c.wm));
    auto chk = [&](const char* k, double g, L w) { checkf(g == w || close(g, double(w), 1e-5, 0), k, [&]{ return fmt("z=%.17g H0=%g wm=%g wL=%g: %.12g expected %.12Lg", z, c.H0, c.wm, c.wL, g, w); }); };
    chk("lumdist", lumdist(z, c), m_lum(z, c)); chk("lookback", lookback_time(z, c), m_look(z, c)); chk("vuniverse", vuniverse(z, c), m_vol(z, c)); chk("propsize", propsize(z, c), m_size(z, c)); ev(z > 0 ? "scalar" : "no-redshift");
    vec1d sv_(r.u(0, 8)); for (auto& t : sv_) t = r.b(0.2) ? r.d(-1, 0) : r.d(0, 8); vec1d g = lumdist(sv_, c); bool ok = g.size() == sv_.size(); for (size_t k = 0; ok && k < g.size(); ++k) ok = close(g[k], double(m_lum(sv_[k], c)), 1e-5, 0); check(ok, "lumdist-vector", ""); ev("short-vector");
    if (r.b(0.25)) { size_t n = r.u(1600, 2000); int kind = r.i(0, 4); vec1d zs(n); for (auto& t : zs) t = kind == 0 ? r.d(0.1, 5) : kind == 1 ? (r.b(0.1) ? -r.d(0, 1) : r.b(0.1) ? 0 : r.d(0.01, 6)) : kind == 2 ? z : kind == 3 ? -r.d(0, 1) : std::pow(10.0, r.d(-3, 1)); vec1d a, b, v, p; Outcome o = guarded([&] { a = lumdist(zs, c); b = lookback_time(zs, c); v = vuniverse(zs, c); p = propsize(zs, c); }); if (!check(o.ok() && a.size() == n && b.size() == n && v.size() == n && p.size() == n, "sample-refused", fmt("kind %d ", kind) + o.str())) return;
        for (size_t q = 0; q < 40; ++q) { size_t k = r.u(0, n - 1); auto cc = [&](const char* key, double got, L w) { checkf(got == w || close(got, double(w), 5e-4, 0), key, [&]{ return fmt("kind %d z=%.17g: %.12g expected %.12Lg", kind, zs[k], got, w); }); }; cc("lumdist-sample", a[k], m_lum(zs[k], c)); cc("lookback-sample", b[k], m_look(zs[k], c)); cc("vuniverse-sample", v[k], m_vol(zs[k], c)); cc("propsize-sample", p[k], m_size(zs[k], c)); } ev("sample"); }
    S nm = r.pick(V<S>{"wmap", "plank", "std"}); cosmo_t n = get_cosmo(nm), w = nm == "wmap" ? cosmo_wmap() : nm == "plank" ? cosmo_plank() : cosmo_std(); check(n.H0 == w.H0 && n.wL == w.wL && n.wm == w.wm && n.wk == w.wk && std::fabs(n.wL + n.wm + n.wk - 1) < 1e-9, "named-cosmology", nm); check(cosmo_std().H0 == 70 && cosmo_std().wL == 0.7 && cosmo_std().wm == 0.3, "standard-cosmology", ""); if (r.b(0.05)) { cosmo_t u; u.H0 = -1; u = get_cosmo("no such one"); cosmo_t dflt; check(u.H0 == dflt.H0 && u.wL == dflt.wL && u.wm == dflt.wm && u.wk == dflt.wk && u.H0 > 0, "unknown-cosmology", ""); vec1s cl = cosmo_list(); check(cl.size() == 3 && count(cl == nm) == 1, "cosmology-list", ""); } sig(fmt("%g %g", std::round(z*10), c.H0));
}
SCEN(units, 150, 10000) { Rng& r = rng;
    double z = r.d(0, 8), d = std::pow(10.0, r.d(0, 5)), lam = std::pow(10.0, r.d(-1, 3)), lum = std::pow(10.0, r.d(-2, 13)); double f = lsun2uJy(z, d, lam, lum); const L fac = 1e32L*3.839e26L/(2.9979e14L*4*PI*3.0856e22L*3.0856e22L);
    checkf(close(f, double(fac*(1 + (L)z)*lam*lum/((L)d*d)), 1e-9, 0), "lsun2uJy", [&]{ return fmt("%.17g", f); }); checkf(close(uJy2lsun(z, d, lam*(1 + z), f), lum, 1e-9, 0), "uJy2lsun-inverse", [&]{ return fmt("%.17g vs %.17g", uJy2lsun(z, d, lam*(1 + z), f), lum); });
    double mg = uJy2mag(f), zp = r.d(20, 30); check(close(mg, double(-2.5L*log10l(f) + 23.9L), 1e-12, 1e-10), "uJy2mag", ""); check(close(mag2uJy(mg), f, 1e-9, 0) && close(mag2uJy(uJy2mag(f, zp), zp), f, 1e-9, 0), "mag-inverse", "");
    double am = lsun2mag(lam, lum); check(close(am, double(-2.5L*log10l(fac*lam*lum/(1e-5L*1e-5L)) + 23.9L), 1e-9, 1e-9), "lsun2mag", ""); check(close(mag2lsun(lam, am), lum, 1e-9, 0), "mag2lsun-inverse", "");
    double cg = uJy2cgs(lam, f); check(close(cg, double(1e-29L*2.9979e8L/1e-12L/1e10L*f/lam/lam), 1e-9, 0), "uJy2cgs", ""); check(close(cgs2uJy(lam*1e4, cg), f, 1e-9, 0), "cgs-inverse", "");
    vec1d vl = {lam, lam*2, lam*3}, vf = {f, f*5, f/7}; vec1d x = mag2uJy(vec1d(uJy2mag(vf))), y = cgs2uJy(vec1d(vl*1e4), vec1d(uJy2cgs(vl, vf))), w = uJy2lsun(z, d, vec1d(vl*(1 + z)), vec1d(lsun2uJy(z, d, vl, vf))), q = mag2lsun(vl, vec1d(lsun2mag(vl, vf))); bool ok = x.size() == 3 && y.size() == 3 && w.size() == 3 && q.size() == 3; for (int k = 0; ok && k < 3; ++k) ok = close(x[k], vf[k], 1e-9, 0) && close(y[k], vf[k], 1e-9, 0) && close(w[k], vf[k], 1e-9, 0) && close(q[k], vf[k], 1e-9, 0); check(ok, "units-vector", ""); ev("units"); sig(fmt("%d", (int)std::log10(f)));
}
static V<L> grid(Rng& r, size_t n, L a, L b) { V<L> g; std::set<double> s; while (s.size() < n) s.insert(r.b(0.3) ? double(a + (b - a)*r.i(0, 20)/20) : r.d(a, b)); for (double t : s) g.push_back(t); return g; }
static L lin(const V<double>& x, const V<double>& y, L t) { size_t k = 0; while (k + 2 < x.size() && x[k+1] < t) ++k; return y[k] + (y[k+1] - (L)y[k])*(t - x[k])/((L)x[k+1] - x[k]); }
SCEN(seds, 300, 20000) { Rng& r = rng;
    auto gl = grid(r, r.u(2, 12), 0, 10), gf = grid(r, r.u(2, 6), r.b(0.3) ? -1 : 2, r.b(0.3) ? 12 : 7); V<double> l(gl.begin(), gl.end()), f(gf.begin(), gf.end()), s, q; if (r.b(0.2)) f.front() = std::min(l.front(), f[1] - 0.01); if (r.b(0.2)) f.back() = std::max(l.back(), f[f.size()-2] + 0.01); if (r.b(0.05)) { double sh = l.back() - f.front(); for (auto& t : f) t += sh; } for (auto& t : l) t += 1; for (auto& t : f) t += 1; for (size_t k = 0; k < l.size(); ++k) s.push_back(r.d(-1, 5)); for (size_t k = 0; k < f.size(); ++k) q.push_back(r.d(0, 3));
    vec1d vl = tov(l), vs = tov(s), fl = tov(f), fq = tov(q); vh::note(svv(vl) + svv(vs) + svv(fl) + svv(fq)); bool cover = f.front() >= l.front() && f.back() <= l.back(); double g = 0; Outcome o = guarded([&] { g = sed2flux(fl, fq, vl, vs); }); if (!check(o.ok(), "sed2flux-refused", o.str())) return;
    if (!cover) { checkf(g != g, "sed2flux-uncovered", [&]{ return fmt("%.17g", g); }); ev("uncovered"); } else { std::set<double> nd(f.begin(), f.end()); for (double t : l) if (t > f.front() && t < f.back()) nd.insert(t); L w = 0, pv = 0, pt = 0; bool first = true; for (double t : nd) { L v = lin(l, s, t)*lin(f, q, t); if (!first) w += 0.5L*(v + pv)*((L)t - pt); pv = v; pt = t; first = false; } checkf(close(g, double(w), 1e-9, 1e-9), "sed2flux", [&]{ return fmt("%.17g expected %.17Lg ", g, w) + svv(vl) + svv(vs) + svv(fl) + svv(fq); }); ev(f.back() == l.back() || f.front() == l.front() ? "touching" : "covered"); }
    filter_t ft; ft.lam = fl; ft.res = fq; double g2 = sed2flux(ft, vl, vs); check(g2 == g || (g != g && g2 != g2), "sed2flux-filter", ""); vec2d ml(2, l.size()), ms(2, l.size()); for (size_t k = 0; k < l.size(); ++k) { ml(0,k) = ml(1,k) = l[k]; ms(0,k) = s[k]; ms(1,k) = 2*s[k]; } vec1d g3 = sed2flux(ft, ml, ms); check(g3.size() == 2 && (g != g ? g3[0] != g3[0] && g3[1] != g3[1] : close(g3[0], g, 1e-12, 1e-12) && close(g3[1], 2*g, 1e-9, 1e-9)), "sed2flux-many", "");
    if (cover && g > 1e-3) { double z = 0, d = r.d(1, 100); double cv = sed_convert(ft, ft, z, d, vl, vs); vec1d u = lsun2uJy(z, d, vl, vs); double rf = g/sed2flux(ft, vl, u); check(close(cv, rf, 1e-9, 0), "sed-convert", fmt("%.17g %.17g", cv, rf)); }
    // luminosity over a range
    double a = r.b(0.2) ? r.pick(l) : r.d(0.5, 12), b = r.b(0.2) ? r.pick(l) : r.d(0.5, 12); if (a > b) std::swap(a, b); { double sc = r.b() ? 8/l.front()*r.d(0.5, 1) : r.d(10, 100); V<double> l2; for (double t : l) l2.push_back(t*sc); if (r.b(0.8) && l2.back() < 1000) { l2.back() = 1000*r.d(1, 3); if (l2.size() > 1) l2[0] = std::min(l2[0], r.b(0.8) ? 8*r.d(0.1, 1) : 9.0); } vec1d vl2 = tov(l2); double lir = 0, sl = 0; Outcome o2 = guarded([&] { lir = lir_8_1000(vl2, vs); sl = sed_luminosity(vl2, vs, 8.0, 1000.0); }); if (o2.ok()) { checkf(lir == sl || (lir != lir && sl != sl), "lir", [&]{ return fmt("%.17g expected %.17g", lir, sl); }); ev(sl == sl ? "lir" : "lir-uncovered"); } }
    double lu = 0; o = guarded([&] { lu = sed_luminosity(vl, vs, a, b); }); if (!check(o.ok(), "luminosity-refused", o.str())) return; V<double> ys; for (size_t k = 0; k < l.size(); ++k) ys.push_back(s[k]/l[k]); if (a < l.front() || b > l.back()) { checkf(lu != lu, "luminosity-uncovered", [&]{ return fmt("%g-%g: %.17g", a, b, lu); }); ev("luminosity-uncovered"); } else { std::set<double> nd = {a, b}; for (double t : l) if (t > a && t < b) nd.insert(t); L w = 0, pv = 0, pt = 0; bool first = true; for (double t : nd) { L v = lin(l, ys, t); if (!first) w += 0.5L*(v + pv)*((L)t - pt); pv = v; pt = t; first = false; } checkf(close(lu, double(w), 1e-8, 1e-8), "luminosity", [&]{ return fmt("%g-%g: %.17g expected %.17Lg ", a, b, lu, w) + svv(vl) + svv(vs); }); ev("luminosity"); }
    sig(fmt("%zu%zu%d", l.size(), f.size(), (int)cover));
}
SCEN(filters, 80, 3000) { Rng& r = rng;
    S dir = st().scratch + "/"; size_t n = r.u(2, 8); vec1d lam, res; double t = r.d(0.1, 2); for (size_t k = 0; k < n; ++k) { lam.push_back(std::round(t*1000)/1000); t += r.d(0.01, 1); res.push_back(std::round(r.d(0.1, 1)*1000)/1000); }
    S f = newname(".db"); S base = f.substr(f.rfind('/') + 1); bool asfits = r.b(); S fil = base + (asfits ? ".fits" : ".dat"); ::unlink((dir + fil).c_str()); if (asfits) fits::write_table(dir + fil, ftable(lam, res)); else { std::ofstream o(dir + fil); o << "# lam res\n"; for (size_t k = 0; k < n; ++k) o << fmt("%.17g %.17g\n", lam[k], res[k]); }
    { std::ofstream o(f); o << "# comment=none\n\n  \nfilt-a=" << fil << "\nbad line\nfilt-b=" << fil << (r.b() ? "\n" : ""); } auto db = read_filter_db(f); checkf(db.size() == 2 && db.count("filt-a") && db["filt-a"] == dir + fil && db.count("filt-b"), "filter-db", [&]{ return fmt("%zu entries", db.size()); });
    filter_t q; bool ok = get_filter(db, "filt-a", q); L rl = 0; for (size_t k = 0; k + 1 < n; ++k) rl += 0.5L*((L)lam[k]*res[k] + (L)lam[k+1]*res[k+1])*((L)lam[k+1] - lam[k]); check(ok && eqvec(flat(q.lam), flat(lam)) && eqvec(flat(q.res), flat(res)) && close(q.rlam, double(rl), 1e-9, 1e-9), "filter-read", ""); filter_t q2; ok = get_filter(db, "any:file:" + dir + fil, q2); check(ok && eqvec(flat(q2.lam), flat(lam)) && close(q2.rlam, double(rl), 1e-9, 1e-9), "filter-file", ""); ev(asfits ? "fits-filter" : "text-filter");
    filter_t q3; double a = r.i(1, 50)/10.0, b = a + r.i(1, 50)/10.0; ok = get_filter(db, fmt("x:range:%g:%g", a, b), q3); L in = 0; for (size_t k = 0; ok && k + 1 < q3.lam.size(); ++k) in += 0.5L*((L)q3.res[k] + q3.res[k+1])*((L)q3.lam[k+1] - q3.lam[k]); check(ok && fabsl(in - 1) < 1e-6 && close(q3.rlam, (a + b)/2, 1e-6, 1e-6), "filter-range", fmt("%.9Lg %.9g", in, q3.rlam)); double flat1 = ok ? sed2flux(q3, vec1d{0.001, 1000.0}, vec1d{3.0, 3.0}) : 0; check(close(flat1, 3, 1e-5, 0), "filter-flat", fmt("%.9g", flat1)); ev("range-filter");
    filter_t q4; check(!get_filter(db, "filt-c", q4) && !get_filter(db, "x:range:1", q4) && !get_filter(db, "x:range:a:2", q4) && !get_filter(db, "x:what:2", q4) && !get_filter(db, "x:file", q4), "bad-filter-accepted", ""); filter_bank_t bk; check(get_filters(db, vec1s{"filt-a", "filt-b"}, bk) && bk.size() == 2 && !get_filters(db, vec1s{"filt-z"}, bk), "filter-list", ""); ev("refused");
    { std::ofstream o(f); o << "# c\nfilt-a=3\nfilt-b=17\nfilt-c=xx\n\nzz\n"; } auto mp = read_filter_map(f); uint_t id = 5; check(mp.size() == 2 && get_filter_id(mp, "filt-b", id) && id == 17 && !get_filter_id(mp, "filt-q", id) && id == npos, "filter-map", ""); vec1u ids; check(!get_filter_id(mp, vec1s{"filt-a", "nope", "filt-b"}, ids) && ids.size() == 3 && ids[0] == 3 && ids[1] == npos && ids[2] == 17, "filter-map-list", ""); auto none = read_filter_db(f + ".nothere"); check(none.empty(), "filter-db-missing", ""); ::unlink((dir + fil).c_str());
    struct { vec1s bands, notes; } cat; cat.bands = {"acs-f606w", "acs-f814w", "irac-ch1", "irac-ch1"}; cat.notes = {"a", "b", "old", "new"}; uint_t bid = 99; check(get_band(cat, "f814w", bid) && bid == 1 && !get_band(cat, "irac", bid) && !get_band(cat, "mips", bid) && get_band(cat, "irac", "new", bid) && bid == 3 && get_band(cat.bands, "606", bid) && bid == 0 && !get_band(cat.bands, "acs", bid) && get_band(cat.bands, cat.notes, "ch1", "old", bid) && bid == 2, "bands", ""); ev("bands"); sig(fmt("%zu%d", n, (int)asfits));
}
SCEN(sources, 150, 8000) { Rng& r = rng;
    std::array<uint_t,2> d = {{r.u(1, 14), r.u(1, 14)}}; double x0 = r.d(-3, 16), y0 = r.d(-3, 16), am = r.d(0.5, 5), w = r.d(0.5, 3), rp = r.d(0, 4), rf = r.d(0, 1), rw = r.d(0.3, 2); vec2d p; bool ok = make_psf(d, x0, y0, fmt("gaussian, %.17g,%.17g", am, w), p); if (check(ok && p.dims == d, "psf-gaussian-shape", "")) for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) { L q = (i - (L)x0)*(i - (L)x0) + (j - (L)y0)*(j - (L)y0); check(close(p.safe(i, j), double(am*expl(-q/(2*(L)w*w))), 1e-6, 1e-12), "psf-gaussian", ""); }
    ok = make_psf(d, x0, y0, fmt("gaussring,%.17g,%.17g,%.17g,%.17g,%.17g", am, w, rp, rf, rw), p); if (check(ok && p.dims == d, "psf-ring-shape", "")) for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) { L q = (i - (L)x0)*(i - (L)x0) + (j - (L)y0)*(j - (L)y0); check(close(p.safe(i, j), double(am*(expl(-q/(2*(L)w*w)) + rf*expl(-(sqrtl(q) - rp)*(sqrtl(q) - rp)/(2*(L)rw*rw)))), 1e-6, 1e-12), "psf-ring", ""); } ev("psf");
    check(!make_psf(d, x0, y0, "gaussian,1", p) && !make_psf(d, x0, y0, "gaussian,1,x", p) && !make_psf(d, x0, y0, "gaussring,1,2,3,4", p) && !make_psf(d, x0, y0, "gaussring,1,2,q,4,5", p) && !make_psf(d, x0, y0, "moffat,1", p) && !make_psf(d, x0, y0, "", p), "bad-psf-accepted", ""); ev("bad-psf");
    { long h = r.i(0, 3); vec2d k(2*h + 1 + r.u(0, 2), 2*h + 1 + r.u(0, 2)); for (auto& t : k) t = r.d(0.1, 1); k(h, h) = 5; S f = newname(".fits"); fits::write(f, k); long ix = r.i(-3, 16), iy = r.i(-3, 16); ok = make_psf(d, ix, iy, "file," + f, p); if (check(ok && p.dims == d, "psf-file-shape", "")) { long hs = std::min(h, std::min((long)k.dims[0] - 1 - h, (long)k.dims[1] - 1 - h)); for (long i = 0; i < (long)d[0]; ++i) for (long j = 0; j < (long)d[1]; ++j) { long u = i - ix, v = j - iy; double want = std::labs(u) <= hs && std::labs(v) <= hs ? k.safe(h + u, h + v) : 0; if (hs == 0) continue; checkf(close(p.safe(i, j), want, 1e-9, 1e-12), "psf-file", [&]{ return fmt("pixel %ld,%ld: %g expected %g (psf %zux%zu at %ld,%ld)", i, j, p.safe(i, j), want, k.dims[0], k.dims[1], ix, iy); }); } } ev("psf-file"); }
    // fit and subtraction of one source
    long hx = r.i(1, 3), hy = r.b(0.6) ? hx : r.i(1, 3); size_t nx = r.u(2*hx + 1, 14), ny = r.u(2*hy + 1, 14); vec2d ps(2*hx + 1, 2*hy + 1), im(nx, ny), er(nx, ny); for (auto& t : ps) t = r.d(0, 1); ps(hx, hy) = 3; for (auto& t : er) t = r.d(0.5, 2); double bg = r.d(-2, 2), fx = r.d(-10, 10); vec1i pos = {r.i(0, (long)nx - 1), r.i(0, (long)ny - 1)}; bool noise = r.b(); for (auto& t : im) t = bg + (noise ? r.gauss() : 0);
    size_t in = 0; for (long i = -hx; i <= hx; ++i) for (long j = -hy; j <= hy; ++j) { long u = pos[0] + i, v = pos[1] + j; if (u >= 0 && v >= 0 && u < (long)nx && v < (long)ny) { im(uint_t(u), uint_t(v)) += fx*ps(uint_t(hx + i), uint_t(hy + j)); ++in; } } if (r.b(0.1)) im[r.u(0, im.size() - 1)] = dnan;
    psffit_result fr; Outcome o = guarded([&] { fr = psffit(im, er, ps, pos); }); if (check(o.ok(), "psffit-refused", o.str())) { L s = 0, sx = 0, sxx = 0, sy = 0, sxy = 0; size_t used = 0; for (long i = -hx; i <= hx; ++i) for (long j = -hy; j <= hy; ++j) { long u = pos[0] + i, v = pos[1] + j; if (u < 0 || v < 0 || u >= (long)nx || v >= (long)ny) continue; double y = im(uint_t(u), uint_t(v)); if (y != y) continue; L e2 = 1/((L)er(uint_t(u), uint_t(v))*er(uint_t(u), uint_t(v))), x = ps(uint_t(hx + i), uint_t(hy + j)); s += e2; sx += e2*x; sxx += e2*x*x; sy += e2*y; sxy += e2*x*y; ++used; } L dt = s*sxx - sx*sx; if (used >= 4 && dt > 1e-3*s*sxx) { L wf = (s*sxy - sx*sy)/dt, wb = (sxx*sy - sx*sxy)/dt; checkf(close(fr.flux, double(wf), 1e-6, 1e-6) && close(fr.bg, double(wb), 1e-6, 1e-6) && close(fr.flux_err, double(sqrtl(s/dt)), 1e-6, 1e-9) && close(fr.bg_err, double(sqrtl(sxx/dt)), 1e-6, 1e-9), "psffit", [&]{ return fmt("flux %.9g+-%.9g bg %.9g expected %.9Lg+-%.9Lg %.9Lg", fr.flux, fr.flux_err, fr.bg, wf, sqrtl(s/dt), wb); }); ev("psffit"); } }
    vec2d cp = im; o = guarded([&] { srcsub(cp, ps, fx, pos); }); if (check(o.ok(), "srcsub-refused", o.str())) for (long u = 0; u < (long)nx; ++u) for (long v = 0; v < (long)ny; ++v) { long i = u - pos[0] + hx, j = v - pos[1] + hy; double wv = im(uint_t(u), uint_t(v)) - (i >= 0 && j >= 0 && i <= 2*hx && j <= 2*hy ? fx*ps(uint_t(i), uint_t(j)) : 0); double gv = cp(uint_t(u), uint_t(v)); check((gv != gv && wv != wv) || close(gv, wv, 1e-12, 1e-12), "srcsub", fmt("pixel %ld,%ld", u, v)); } ev("srcsub");
    { vec1i mid = {(long)nx/2, (long)ny/2}; double e1 = r.d(0.5, 2); vec2d eu(nx, ny); for (auto& t : eu) t = e1; auto sm = [](const psffit_result& a, const psffit_result& b) { auto q = [](double x, double y) { return x == y || (x != x && y != y); }; return q(a.flux, b.flux) && q(a.bg, b.bg) && q(a.flux_err, b.flux_err) && q(a.bg_err, b.bg_err) && q(a.chi2, b.chi2); }; vec2d one(1, 1); one[0] = e1; check(sm(psffit(im, er, ps), psffit(im, er, ps, mid)), "psffit-centre", ""); check(sm(psffit(im, e1, ps), psffit(im, eu, ps, mid)) && sm(psffit(im, one, ps, mid), psffit(im, eu, ps, mid)), "psffit-one-error", ""); vec2d c1 = im, c2 = im; srcsub(c1, ps, fx); srcsub(c2, ps, fx, mid); bool e = true; for (size_t k = 0; k < c1.size(); ++k) e = e && (c1.safe[k] == c2.safe[k] || (c1.safe[k] != c1.safe[k] && c2.safe[k] != c2.safe[k])); check(e, "srcsub-centre", ""); ev("centred-source"); }
    // stamps
    int_t hs = r.i(0, 3); size_t ns = r.u(0, 8); vec1d xs(ns), ys(ns); for (auto& t : xs) t = r.b(0.3) ? r.i(-1, (long)nx)/1.0 - (r.b(0.3) ? 0.5 : 0) : r.d(-1, nx); for (auto& t : ys) t = r.b(0.3) ? r.i(-1, (long)ny) : r.d(-1, ny); vec3d cube; vec1u ids; o = guarded([&] { pick_sources(im, xs, ys, hs, cube, ids); }); if (check(o.ok(), "pick-refused", o.str())) { V<size_t> want; for (size_t k = 0; k < ns; ++k) { long u = std::lround(xs[k]), v = std::lround(ys[k]); if (u - hs < 0 || v - hs < 0 || u + hs >= (long)nx || v + hs >= (long)ny) continue; bool bad = false; for (long i = -hs; i <= hs; ++i) for (long j = -hs; j <= hs; ++j) if (im(uint_t(u + i), uint_t(v + j)) != im(uint_t(u + i), uint_t(v + j))) bad = true; if (!bad) want.push_back(k); } V<size_t> gt(ids.begin(), ids.end()); if (checkf(gt == want && cube.size() == want.size()*(2*hs + 1)*(2*hs + 1), "picked", [&]{ return fmt("%zu of %zu, expected %zu hs=%ld %zux%zu ", gt.size(), ns, want.size(), (long)hs, nx, ny) + svv(xs) + svv(ys); })) for (size_t k = 0; k < want.size(); ++k) { long u = std::lround(xs[want[k]]), v = std::lround(ys[want[k]]); for (long i = -hs; i <= hs; ++i) for (long j = -hs; j <= hs; ++j) check(cube(k, uint_t(i + hs), uint_t(j + hs)) == im(uint_t(u + i), uint_t(v + j)), "stamp", ""); ev("stamp"); } } sig(fmt("%zu%zu%ld%ld", nx, ny, hx, hy));
}
// ---------------------------------------------------------------- template fitting
#include <vif/astro/template_fit.hpp>
struct Lib { vec2d lam, sed; };
static L phi(L d) { return d < -30 ? d*d + 2*logl(-d*sqrtl(2*PI)) : -2*logl(0.5L*erfcl(-d/sqrtl(2))); }
// minimum over the amplitudes of the chi2 of sum(a*t) with upper limits (negative errors)
static L chi(const V<V<L>>& t, const V<L>& a, const V<double>& f, const V<double>& e, bool ul) { L c = 0; for (size_t k = 0; k < f.size(); ++k) { L m = 0; for (size_t l = 0; l < t.size(); ++l) m += a[l]*t[l][k]; L d = (f[k] - m)/fabsl(e[k]); c += ul && e[k] < 0 ? phi(d) : d*d; } return c; }
static bool solve(V<V<L>> A, V<L> b, V<L>& x) { size_t n = b.size(); for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t j = i + 1; j < n; ++j) if (fabsl(A[j][i]) > fabsl(A[p][i])) p = j; if (fabsl(A[p][i]) < 1e-25L) return false; std::swap(A[i], A[p]); std::swap(b[i], b[p]); for (size_t j = 0; j < n; ++j) if (j != i) { L q = A[j][i]/A[i][i]; for (size_t k = i; k < n; ++k) A[j][k] -= q*A[i][k]; b[j] -= q*b[i]; } } x.resize(n); for (size_t i = 0; i < n; ++i) x[i] = b[i]/A[i][i]; return true; }
static L best(const V<V<L>>& t, const V<double>& f, const V<double>& e, bool ul, V<L>& a) { size_t n = t.size(); a.assign(n, 0); V<V<L>> A(n, V<L>(n, 0)); V<L> b(n, 0); for (size_t k = 0; k < f.size(); ++k) { if (ul && e[k] < 0) continue; L w = 1/((L)e[k]*e[k]); for (size_t i = 0; i < n; ++i) { b[i] += w*f[k]*t[i][k]; for (size_t j = 0; j < n; ++j) A[i][j] += w*t[i][k]*t[j][k]; } } if (!solve(A, b, a)) return dinf; if (!ul) return chi(t, a, f, e, ul);
    L c = chi(t, a, f, e, ul); for (int it = 0; it < 60; ++it) { V<V<L>> H(n, V<L>(n, 0)); V<L> g(n, 0); for (size_t k = 0; k < f.size(); ++k) { L m = 0; for (size_t l = 0; l < n; ++l) m += a[l]*t[l][k]; L s = fabsl(e[k]), d = (f[k] - m)/s, g1, g2; if (e[k] < 0) { L h = 1e-4L; g1 = (phi(d + h) - phi(d - h))/(2*h); g2 = (phi(d + h) - 2*phi(d) + phi(d - h))/(h*h); if (g2 < 0) g2 = 0; } else { g1 = 2*d; g2 = 2; } for (size_t i = 0; i < n; ++i) { g[i] -= g1*t[i][k]/s; for (size_t j = 0; j < n; ++j) H[i][j] += g2*t[i][k]*t[j][k]/(s*s); } } V<L> st_; if (!solve(H, g, st_)) break; L q = 1; bool moved = false; for (int z = 0; z < 40; ++z, q /= 2) { V<L> b2 = a; for (size_t i = 0; i < n; ++i) b2[i] -= q*st_[i]; L c2 = chi(t, b2, f, e, ul); if (c2 < c - 1e-12L) { a = b2; c = c2; moved = true; break; } } if (!moved) break; } return c; }
SCEN(templates, 40, 2000) { Rng& r = rng;
    size_t nf = r.u(2, 6), nt = r.u(1, 5), ng = 40; bool obs = r.b(), zlist = !obs && r.b(0.4); double z = obs ? 0 : r.d(0.1, 0.5), d = obs ? 1 : r.d(100, 2000); auto mklib = [&](size_t n) { Lib b; b.lam.resize(n, ng); b.sed.resize(n, ng); for (size_t k = 0; k < n; ++k) { L w = r.d(0.5, 4), c = r.d(1, 9), a = r.d(0.2, 3), y = r.d(0, 1); for (size_t i = 0; i < ng; ++i) { b.lam(k, i) = 0.3 + 0.5*i; b.sed(k, i) = double(a*(y + expl(-(b.lam(k, i) - c)*(b.lam(k, i) - c)/(2*w*w)))*r.d(0.7, 1.3)); } } return b; }; filter_bank_t fs; for (size_t k = 0; k < nf; ++k) { filter_t f; double c = r.d(3, 9); f.lam = {c - 0.6, c - 0.2, c + 0.1, c + 0.5}; f.res = {0.0, r.d(0.5, 1), r.d(0.5, 1), 0.0}; f.res /= integrate(f.lam, f.res); f.rlam = c; fs.push_back(f); }
    vec1d zs = {z}, ds = {d}; if (zlist) while (zs.size() < 3) { zs.push_back(r.d(0.1, 0.5)); ds.push_back(r.d(100, 2000)); }
    // fluxes of each template in each filter, by the definition: lsun2uJy and sed2flux are decided by the other scenarios
    auto conv = [&](const Lib& b) { V<V<L>> o; L zm = 0; for (double t : zs) zm += t; zm /= zs.size(); for (size_t k = 0; k < b.sed.dims[0]; ++k) { vec1d l = b.lam(k,_), s = b.sed(k,_); V<L> row; if (!obs) { vec1d l1 = l*(1 + (double)zm), s1 = replicate(0.0, ng); for (size_t q = 0; q < zs.size(); ++q) { V<double> lx, sx; for (size_t i = 0; i < ng; ++i) { lx.push_back(l[i]*(1 + zs[q])); sx.push_back(lsun2uJy(zs[q], ds[q], l[i], s[i])); } for (size_t i = 0; i < ng; ++i) s1[i] += (double)lin(lx, sx, l1[i])/zs.size(); } l = l1; s = s1; } for (size_t f = 0; f < nf; ++f) row.push_back(sed2flux(fs[f], l, s)); o.push_back(row); } return o; };
    Lib lib = mklib(nt); V<V<L>> tp = conv(lib); { vec2d go = obs ? template_observed(lib, fs) : zlist ? template_observed(lib, zs, ds, fs) : template_observed(lib, z, d, fs); bool ok = go.dims[0] == nt && go.dims[1] == nf; for (size_t k = 0; ok && k < nt; ++k) for (size_t f = 0; ok && f < nf; ++f) ok = close(go(k, f), (double)tp[k][f], 1e-6, 0); check(ok, "template-observed", ""); }
    V<double> fl, er; bool sharp = r.b(0.3); L am = r.d(0.3, 3); size_t tr = r.u(0, nt - 1); for (size_t k = 0; k < nf; ++k) { double e = double(tp[tr][k]*am*(sharp ? 0.01 : r.d(0.02, 0.3))); fl.push_back(double(tp[tr][k]*am) + e*r.gauss()); er.push_back(e); } template_fit_params p; p.lib_obs = obs; p.nsim = r.u(0, 8); p.renorm = r.b(); p.ulim = r.b(); if (p.ulim) for (size_t k = 1; k < nf; ++k) if (r.b(0.3)) { er[k] *= -1; fl[k] *= r.d(0.4, 3); } vec1d vf = tov(fl), ve = tov(er); auto seed = make_seed(r.u(1, 100000)); vh::note(fmt("%zu templates, %zu filters, obs %d list %d renorm %d limits %d ", nt, nf, (int)obs, (int)zlist, (int)p.renorm, (int)p.ulim) + svv(vf) + svv(ve));
    template_fit_res_t g; if (zlist) g = template_fit(lib, seed, zs, ds, vf, ve, fs, p); else g = template_fit(lib, seed, z, d, vf, ve, fs, p);
    if (!check(g.chi2.size() == nt && g.amp.size() == nt && g.bfit < nt && g.flux.dims[0] == nt && g.flux.dims[1] == nf && g.sed_sim.size() == p.nsim && g.amp_sim.size() == p.nsim && g.amp_bfit_sim.size() == p.nsim, "template-shape", "")) return;
    size_t nlim = 0; for (double e : er) nlim += e < 0; const double ct = nlim ? 0.03 : 1e-5, ca = nlim ? 0.15 : 1e-6;
    for (size_t k = 0; k < nt; ++k) { V<L> a, one(1, 1), ga(1, g.amp[k]); V<V<L>> t = {tp[k]}; L mn = best(t, fl, er, p.ulim, a), c1 = chi(t, one, fl, er, p.ulim), cg = chi(t, ga, fl, er, p.ulim); L want = p.renorm ? mn : c1; checkf(close(g.chi2[k], (double)want, ct, nlim ? 0.1 : 1e-6), "template-chi2", [&]{ return fmt("template %zu: %.9g expected %.9Lg", k, g.chi2[k], want); }); checkf(cg <= mn*(1 + ct) + (nlim ? 0.15 : 1e-6), "template-amplitude", [&]{ return fmt("template %zu: amplitude %.9g has chi2 %.9Lg, the best one %.9Lg has %.9Lg", k, g.amp[k], cg, a[0], mn); }); if (!nlim) check(close(g.amp[k], (double)a[0], ca, 0), "template-amplitude-value", ""); for (size_t f = 0; f < nf; ++f) check(close(g.flux(k, f), double(g.amp[k]*tp[k][f]), 1e-6, 0), "template-flux", fmt("template %zu filter %zu: %g expected %Lg", k, f, g.flux(k, f), g.amp[k]*tp[k][f])); check(g.chi2[g.bfit] <= g.chi2[k], "template-best", ""); }
    ev(nlim ? "limits" : "measured"); ev(p.renorm ? "renormalised" : "fixed-amplitude"); if (zlist) ev("redshift-list"); for (size_t i = 0; i < p.nsim; ++i) { if (!check(g.sed_sim[i] < nt && std::isfinite(g.amp_sim[i]) && std::isfinite(g.amp_bfit_sim[i]), "template-simulation", "")) break; if (!nlim) { auto sg = [&](size_t k) { L s = 0; for (size_t f = 0; f < nf; ++f) s += tp[k][f]*tp[k][f]/((L)er[f]*er[f]); return 1/sqrtl(s); }; checkf(fabsl(g.amp_bfit_sim[i] - g.amp[g.bfit]) < 7*sg(g.bfit) && fabsl(g.amp_sim[i] - g.amp[g.sed_sim[i]]) < 7*sg(g.sed_sim[i]), "template-simulated-amplitude", [&]{ return fmt("%g for %g+-%Lg", g.amp_bfit_sim[i], g.amp[g.bfit], sg(g.bfit)); }); }
        // perturbing the measurements moves the norm of any residual by at most the norm of the perturbation
        L lim = 2*(sqrtl(nf) + 7) + (nlim ? 0.6L : 0.1L); for (size_t w = 0; w < 2; ++w) { size_t k = w ? g.sed_sim[i] : g.bfit; V<L> a, ga(1, w ? g.amp_sim[i] : g.amp_bfit_sim[i]); V<V<L>> t = {tp[k]}; L mn = best(t, fl, er, p.ulim, a), cg = chi(t, ga, fl, er, p.ulim); checkf(sqrtl(cg) < sqrtl(mn)*(1 + (nlim ? 0.05L : 0)) + lim, "template-simulated-amplitude-chi2", [&]{ return fmt("amplitude %Lg has chi2 %Lg, the best one %Lg has %Lg", ga[0], cg, a[0], mn); }); } checkf(sqrtl(g.chi2[g.sed_sim[i]]) < sqrtl(g.chi2[g.bfit]) + lim, "template-simulated-choice", [&]{ return fmt("template %u has chi2 %g, the best one %g", (unsigned)g.sed_sim[i], g.chi2[g.sed_sim[i]], g.chi2[g.bfit]); }); for (size_t k = 0; k < nt; ++k) if (sqrtl(g.chi2[k]) > sqrtl(g.chi2[g.bfit]) + lim) { ev(nlim ? "decisive-limits" : "decisive"); break; } ev("simulated"); }
    // several libraries at once, with forbidden combinations
    size_t nl = r.u(1, 2); size_t meas = nf - nlim; if (meas < nl + 1) return; std::vector<Lib> libs; V<V<V<L>>> tl; for (size_t l = 0; l < nl; ++l) { libs.push_back(l ? mklib(r.u(1, 3)) : lib); tl.push_back(conv(libs[l])); } multi_template_fit_params mp; mp.nsim = r.u(0, 4); mp.ulim = p.ulim; mp.lib_obs = obs; int rule = r.i(0, 4); std::set<V<size_t>> asked; auto allowed = [&](const vec1u& i) { V<size_t> k(i.begin(), i.end()); asked.insert(k); size_t s = 0; for (size_t t : k) s += t; return rule == 0 ? false : rule == 1 ? s % 2 == 1 : rule == 2 ? s % 2 == 0 : true; };
    multi_template_fit_res_t m; if (zlist) m = multi_template_fit(libs, seed, zs, ds, vf, ve, fs, mp, allowed); else m = multi_template_fit(libs, seed, z, d, vf, ve, fs, mp, allowed);
    L mc = dinf; size_t nc = 1, na = 0; bool ill = false; // single precision cannot separate nearly proportional templates
    for (auto& x : tl) nc *= x.size(); check(asked.size() == nc, "combinations", fmt("%zu of %zu", asked.size(), nc)); L big = 0; for (size_t k = 0; k < nf; ++k) big += sqr(fl[k]/er[k]); V<V<size_t>> ok; for (auto& k : asked) { size_t s = 0; for (size_t t : k) s += t; if (rule == 0 || (rule == 1 && s % 2 == 0) || (rule == 2 && s % 2 == 1)) continue; ++na; V<V<L>> t; for (size_t l = 0; l < nl; ++l) t.push_back(tl[l][k[l]]); if (nl == 2) { L xx = 0, yy = 0, xy = 0; for (size_t q = 0; q < nf; ++q) if (!mp.ulim || er[q] > 0) { L u = t[0][q]/er[q], v = t[1][q]/er[q]; xx += u*u; yy += v*v; xy += u*v; } if (xy*xy > 0.98L*xx*yy) ill = true; } V<L> a; mc = std::min(mc, best(t, fl, er, mp.ulim, a)); }
    if (!na) { check(m.bfit.size() == nl && m.amp.size() == nl && m.flux.dims[0] == nl, "no-combination-shape", ""); if (m.bfit.size() == nl) check(m.bfit[0] == npos && m.amp[0] != m.amp[0] && m.flux[0] != m.flux[0], "no-combination", ""); ev("no-combination"); return; } if (!check(m.bfit.size() == nl && m.amp.size() == nl && m.flux.dims[0] == nl && m.flux.dims[1] == nf && m.sed_sim.dims[0] == mp.nsim && m.amp_sim.dims[0] == mp.nsim, "combination-shape", "")) return;
    V<V<L>> t; V<L> a; bool inr = true; size_t s = 0; for (size_t l = 0; l < nl; ++l) { inr = inr && m.bfit[l] < tl[l].size(); if (inr) t.push_back(tl[l][m.bfit[l]]); a.push_back(m.amp[l]); s += m.bfit[l]; } if (!check(inr && (rule != 1 || s % 2 == 1) && (rule != 2 || s % 2 == 0), "combination-allowed", svv(m.bfit))) return; L cg = chi(t, a, fl, er, mp.ulim), tol = 1e-4*(1 + mc) + 3e-5*big + (nlim ? 0.03*mc + 0.15 : 0); if (ill) ev("degenerate"); checkf(ill || (fabsl(m.chi2 - cg) < tol && fabsl(cg - mc) < tol), "combination-chi2", [&]{ return fmt("%.9g, with these amplitudes %.9Lg, best %.9Lg (tolerance %Lg)", m.chi2, cg, mc, tol) + svv(m.bfit) + svv(m.amp); }); for (size_t l = 0; l < nl; ++l) for (size_t f = 0; f < nf; ++f) check(close(m.flux(l, f), double(a[l]*t[l][f]), 1e-5, 1e-9), "combination-flux", fmt("%g expected %Lg", m.flux(l, f), a[l]*t[l][f])); for (size_t i = 0; i < mp.nsim; ++i) for (size_t l = 0; l < nl; ++l) check(m.sed_sim(i, l) < tl[l].size() && std::isfinite(m.amp_sim(i, l)), "combination-simulation", "");
    for (size_t i = 0; i < mp.nsim; ++i) { V<V<L>> q; V<L> b; size_t u = 0; bool in = true; for (size_t l = 0; l < nl; ++l) { size_t k = m.sed_sim(i, l); in = in && k < tl[l].size(); if (!in) break; q.push_back(tl[l][k]); u += k; } if (!in) break; check((rule != 1 || u % 2 == 1) && (rule != 2 || u % 2 == 0), "combination-simulated-allowed", fmt("simulation %zu", i)); if (nlim || ill) continue; L c = best(q, fl, er, false, b); checkf(sqrtl(c) < sqrtl(mc) + 2*(sqrtl(nf) + 7) + sqrtl(tol), "combination-simulated-choice", [&]{ return fmt("simulation %zu: chi2 %Lg, best %Lg", i, c, mc); });
        V<V<L>> A(nl, V<L>(nl, 0)); for (size_t k = 0; k < nf; ++k) for (size_t x = 0; x < nl; ++x) for (size_t y = 0; y < nl; ++y) A[x][y] += q[x][k]*q[y][k]/((L)er[k]*er[k]); for (size_t l = 0; l < nl; ++l) { V<L> un(nl, 0), iv; un[l] = 1; if (!solve(A, un, iv)) continue; L sg = sqrtl(iv[l]); checkf(fabsl(m.amp_sim(i, l) - b[l]) < 7*sg + 1e-3L*fabsl(b[l]) + 1e-2L*sg*sqrtl(big), "combination-simulated-amplitude", [&]{ return fmt("library %zu: %g for %Lg+-%Lg", l, m.amp_sim(i, l), b[l], sg); }); } ev("combination-simulated"); }
    ev("combined"); sig(fmt("%zu%zu%d%d%d%zu%d", nf, nt, (int)obs, (int)p.ulim, (int)p.renorm, nl, rule));
}
#endif
#if PART == 5 || PART == 6
// ================================================================ a gnomonic world coordinate system, in long double
#include <vif/astro/wcs.hpp>
struct Tan { L val[2], pix[2], cd[2][2]; bool swapped = false; size_t nx = 0, ny = 0; // val: RA, Dec; pix and rows of cd: FITS axes
    void inter(L x, L y, L& xi, L& eta) const { L a = cd[0][0]*(x - pix[0]) + cd[0][1]*(y - pix[1]), b = cd[1][0]*(x - pix[0]) + cd[1][1]*(y - pix[1]); xi = swapped ? b : a; eta = swapped ? a : b; }
    void sky(L x, L y, L& ra, L& dec) const { L xi, eta; inter(x, y, xi, eta); xi *= PI/180; eta *= PI/180; L d0 = val[1]*PI/180, u = cosl(d0) - eta*sinl(d0); ra = val[0] + atan2l(xi, u)*180/PI; dec = atan2l(sinl(d0) + eta*cosl(d0), sqrtl(xi*xi + u*u))*180/PI; ra = fmodl(ra, 360); if (ra < 0) ra += 360; }
    bool img(L ra, L dec, L& x, L& y) const { L d0 = val[1]*PI/180, d = dec*PI/180, dr = (ra - val[0])*PI/180, den = sinl(d)*sinl(d0) + cosl(d)*cosl(d0)*cosl(dr); if (den <= 1e-3L) return false; L xi = cosl(d)*sinl(dr)/den*180/PI, eta = (sinl(d)*cosl(d0) - cosl(d)*sinl(d0)*cosl(dr))/den*180/PI; if (swapped) std::swap(xi, eta); L det = cd[0][0]*cd[1][1] - cd[0][1]*cd[1][0]; x = pix[0] + (cd[1][1]*xi - cd[0][1]*eta)/det; y = pix[1] + (cd[0][0]*eta - cd[1][0]*xi)/det; return true; }
};
static void card(S& h, const S& k, const S& v) { S c = k; c.resize(8, ' '); c += "= " + v; c.resize(80, ' '); h += c; }
static void card(S& h, const S& k, L v) { card(h, k, fmt("%.17Lg", v).find_first_of(".e") == S::npos ? fmt("%.1Lf", v) : fmt("%.17LG", v)); }
static L kept(L v) { return (L)(double)v; }
static Tan maketan(Rng& r, double scale, bool allow_swap) { Tan t; t.val[0] = r.b(0.2) ? r.pick(V<double>{0, 359.9999, 180}) : r.d(0, 360); t.val[1] = r.b(0.1) ? r.pick(V<double>{0, 89.9, -89.9}) : r.d(-85, 85); t.pix[0] = r.b(0.3) ? r.i(-5, 20) : r.d(-10, 30); t.pix[1] = r.b(0.3) ? r.i(-5, 20) : r.d(-10, 30); double a = r.b(0.4) ? 0 : r.b(0.3) ? r.i(0, 3)*PI/2 : r.d(0, 6.28), s1 = scale*(r.b(0.8) ? -1 : 1), s2 = r.b(0.7) ? scale : scale*r.d(0.5, 2); t.cd[0][0] = s1*std::cos(a); t.cd[0][1] = -s2*std::sin(a); t.cd[1][0] = s1*std::sin(a); t.cd[1][1] = s2*std::cos(a); if (r.b(0.15)) { t.cd[0][1] += scale*0.2; t.cd[1][0] -= scale*0.1; } t.swapped = allow_swap && r.b(0.3); if (t.swapped) std::swap(t.cd[0], t.cd[1]); for (int k = 0; k < 2; ++k) { t.val[k] = kept(t.val[k]); for (int j = 0; j < 2; ++j) { t.cd[k][j] = kept(t.cd[k][j]); if (fabsl(t.cd[k][j]) < scale*1e-12) t.cd[k][j] = 0; } } return t; }
// cards of the two celestial axes, at FITS axes a1 and a2 (1-based)
static void cards(S& h, const Tan& t, int a1 = 1, int a2 = 2, bool pc = false) { int ax[2] = {a1, a2}; for (int k = 0; k < 2; ++k) { bool isra = (k == 0) != t.swapped; card(h, fmt("CTYPE%d", ax[k]), isra ? S("'RA---TAN'") : S("'DEC--TAN'")); card(h, fmt("CRVAL%d", ax[k]), isra ? t.val[0] : t.val[1]); card(h, fmt("CRPIX%d", ax[k]), t.pix[k]); card(h, fmt("CUNIT%d", ax[k]), S("'deg'")); for (int j = 0; j < 2; ++j) card(h, fmt(pc ? "PC%d_%d" : "CD%d_%d", ax[k], ax[j]), t.cd[k][j]); if (pc) card(h, fmt("CDELT%d", ax[k]), 1.0L); } }
static S header(const Tan& t, bool pc = false) { S h; card(h, "SIMPLE", S("T")); card(h, "BITPIX", S("-64")); card(h, "NAXIS", S("2")); card(h, "NAXIS1", fmt("%zu", t.nx)); card(h, "NAXIS2", fmt("%zu", t.ny)); cards(h, t, 1, 2, pc); S e = "END"; e.resize(80, ' '); return h + e; }
static L dra(L a, L b) { L d = fmodl(a - b + 540, 360); if (d < 0) d += 360; return d - 180; }
static void silence() { static bool once = (std::cout.rdbuf(nullptr), true); (void)once; }
#endif
#if PART == 5
SCEN(positions, 400, 20000) { Rng& r = rng;
    double scale = std::pow(10.0, r.d(-5.5, -1)); Tan t = maketan(r, scale, true); t.nx = r.u(1, 40); t.ny = r.u(1, 40); bool pc = r.b(0.3); S h = header(t, pc); vh::note(h); wcs w(h); if (!check(w.is_valid() && w.axis_count() == 2 && w.dims.size() == 2 && w.dims[0] == t.ny && w.dims[1] == t.nx, "wcs", "")) return;
    // copies of the object: moved, assigned, assigned over a default one
    int mv = r.i(0, 3); wcs m(2); if (mv == 1) { wcs q(std::move(w)); w = std::move(q); } else if (mv == 2) { m = std::move(w); w = std::move(m); } else if (mv == 3) { wcs q(h); q = std::move(w); w = std::move(q); } check(w.is_valid() && w.isset && w.dims.size() == 2, "wcs-moved", fmt("%d", mv)); if (mv) ev("moved");
    size_t n = r.u(0, 6); vec1d x(n), y(n), ra, dec, x2, y2; for (size_t k = 0; k < n; ++k) { x[k] = r.b(0.1) ? (double)t.pix[0] : r.d(-50, 80); y[k] = r.b(0.1) ? (double)t.pix[1] : r.d(-50, 80); } if (r.b(0.3)) ra = {1, 2, 3}; xy2ad(w, x, y, ra, dec); if (!check(ra.size() == n && dec.size() == n, "xy2ad-shape", "")) return; ad2xy(w, ra, dec, x2, y2); if (!check(x2.size() == n && y2.size() == n, "ad2xy-shape", "")) return;
    for (size_t k = 0; k < n; ++k) { L wr, wd; t.sky(x[k], y[k], wr, wd); L tol = 1e-9 + 1e-9*scale*3600; checkf(angd(ra[k], dec[k], wr, wd) < 1e-7 + tol && ra[k] >= 0 && ra[k] <= 360, "xy2ad", [&]{ return fmt("(%.17g,%.17g) -> (%.17g,%.17g) expected (%.17Lg,%.17Lg)", x[k], y[k], ra[k], dec[k], wr, wd); }); ev("position");
        double pt = 1e-7 + 1e-9/scale/3600; checkf(std::fabs(x2[k] - x[k]) < pt && std::fabs(y2[k] - y[k]) < pt, "ad2xy-round-trip", [&]{ return fmt("(%.17g,%.17g) -> (%.17g,%.17g)", x[k], y[k], x2[k], y2[k]); }); ev("round-trip");
        double sr, sd, sx, sy; xy2ad(w, x[k], y[k], sr, sd); ad2xy(w, ra[k], dec[k], sx, sy); checkf(sr == ra[k] && sd == dec[k] && sx == x2[k] && sy == y2[k], "scalar", [&]{ return fmt("(%.17g,%.17g)", x[k], y[k]); }); ev("scalar"); }
    // mixed types
    { int ix = r.i(-10, 30); double fy = r.i(-10, 30) + 0.25, a, d; xy2ad(w, ix, fy, a, d); L wr, wd; t.sky(ix, fy, wr, wd); checkf(angd(a, d, wr, wd) < 2e-7 + 1e-9*scale*3600, "mixed-types", [&]{ return fmt("(%d,%.17g) -> (%.17g,%.17g) expected (%.17Lg,%.17Lg)", ix, fy, a, d, wr, wd); }); int ir = (int)std::lround((double)t.val[0]); double fd = std::max(-89.5, std::min(89.5, std::round((double)t.val[1]))) + 0.25, px, py; L wx, wy; if (t.img(ir, fd, wx, wy)) { ad2xy(w, ir, fd, px, py); checkf(fabsl(px - wx) < 1e-6*(1 + fabsl(wx)) && fabsl(py - wy) < 1e-6*(1 + fabsl(wy)), "mixed-types-inverse", [&]{ return fmt("(%d,%.17g) -> (%.17g,%.17g) expected (%.17Lg,%.17Lg)", ir, fd, px, py, wx, wy); }); ev("mixed"); } }
    // positions which are on the other side of the sky have no pixel; those given along with them are not affected
    if (n) { silence(); vec1d fr = ra, fd = dec; L ar = fmodl(t.val[0] + 180 + r.d(-20, 20), 360), ad = std::max<L>(-90, std::min<L>(90, -t.val[1] + r.d(-20, 20))); size_t at = r.u(0, n); fr.data.insert(fr.data.begin() + at, (double)ar); fd.data.insert(fd.data.begin() + at, (double)ad); fr.dims[0] = fd.dims[0] = n + 1; vec1d fx, fy; ad2xy(w, fr, fd, fx, fy); L gx, gy; bool vis = t.img(ar, ad, gx, gy); if (!vis && check(fx.size() == n + 1, "far-shape", "")) { checkf(fx[at] != fx[at] && fy[at] != fy[at], "far-side", [&]{ return fmt("(%.17Lg,%.17Lg) -> (%.17g,%.17g) for a tangent point at (%.17Lg,%.17Lg)", ar, ad, fx[at], fy[at], t.val[0], t.val[1]); }); bool same = true; for (size_t k = 0; k < n; ++k) { size_t q = k < at ? k : k + 1; same = same && fx[q] == x2[k] && fy[q] == y2[k]; } check(same, "far-side-others", ""); ev("far-side"); } }
    // pixel size and orientation, at the reference point and toward the north
    double as = -1, ang = 1000; bool ok = get_pixel_size(w, as); L nx1, ny1; if (fabsl(t.val[1]) < 89) { t.img(t.val[0], t.val[1] + 1/3600.0L, nx1, ny1); nx1 -= t.pix[0]; ny1 -= t.pix[1]; checkf(ok && close(as, double(1/hypotl(nx1, ny1)), 1e-4), "pixel-size", [&]{ return fmt("%.12g expected %.12Lg", as, 1/hypotl(nx1, ny1)); }); ok = get_image_rotation(w, ang); checkf(ok && fabsl(dra(ang, -atan2l(nx1, ny1)*180/PI)) < 0.05, "rotation", [&]{ return fmt("%.12g expected %.12Lg", ang, -atan2l(nx1, ny1)*180/PI); }); ev("pixel-size"); }
    sig(fmt("%d%d%d%d", (int)t.swapped, (int)pc, mv, (int)std::round(std::log10(scale))));
}
// the same from files: in the first extension that holds an image, or the first file of a list
SCEN(file_scale, 60, 3000) { Rng& r = rng; silence(); Tan t = maketan(r, std::pow(10.0, r.d(-5, -2)), true); t.nx = r.u(1, 6); t.ny = r.u(1, 6); S h = header(t), f = newname(".fits"); bool ext = r.b(), has = r.b(0.8); vec2d img(t.ny, t.nx); if (!has) { h = ""; card(h, "SIMPLE", S("T")); card(h, "BITPIX", S("-64")); card(h, "NAXIS", S("2")); S e = "END"; e.resize(80, ' '); h += e; }
    { fits::output_image o(f); if (ext) { o.write_empty(); o.reach_hdu(1); } o.write(img); if (has) o.write_header(h); } { fits::input_image in(f); vec2d back; if (ext) { in.reach_hdu(0); check(in.hdu_count() == 2 && in.hdu_type() == fits::empty_hdu, "empty-primary", ""); in.reach_hdu(1); } in.read(back); check(back.dims == img.dims && total(abs(back)) == 0, "image-after-empty", ""); }
    S q = f; if (r.b(0.3)) { q = st().scratch + "/list.sectfits"; std::ofstream o(q); o << file::get_basename(f) << "\n"; if (r.b()) o << "other.fits\n"; ev("scale-of-list"); }
    double a = -1, b = 999, a2 = -1, b2 = 999; bool g1 = false, g2 = false; Outcome o = guarded([&] { g1 = get_pixel_size(q, a); g2 = get_image_rotation(q, b); }); if (!check(o.ok(), "file-scale-refused", o.str())) return; check(g1 == has, "file-pixel-size-found", fmt("%d, extension %d", (int)has, (int)ext)); check(g2 == has, "file-rotation-found", fmt("%d, extension %d", (int)has, (int)ext)); if (!has) { ev("scale-missing"); return; } wcs w(h); get_pixel_size(w, a2); get_image_rotation(w, b2); if (g1) checkf(close(a, a2, 1e-6), "file-pixel-size", [&]{ return fmt("%.12g expected %.12g", a, a2); }); if (g2) checkf(fabsl(dra(b, b2)) < 1e-4, "file-rotation", [&]{ return fmt("%.12g expected %.12g", b, b2); }); ev(ext ? "scale-of-extension" : "scale-of-file"); sig(fmt("%d", (int)ext)); }
SCEN(axes, 300, 12000) { Rng& r = rng;
    // a cube: two celestial axes and a spectral one, in any order
    Tan t = maketan(r, std::pow(10.0, r.d(-5, -2)), true); int sp = r.i(1, 3); int a1 = sp == 1 ? 2 : 1, a2 = sp == 3 ? 2 : 3; bool wave = r.b(), unit = r.b(0.75), plain = !unit && r.b(); struct U { const char* n; double si; }; static const V<U> wu = {{"m", 1}, {"um", 1e-6}, {"micron", 1e-6}, {"nm", 1e-9}, {"Angstrom", 1e-10}, {"mm", 1e-3}}, fu = {{"Hz", 1}, {"GHz", 1e9}, {"MHz", 1e6}, {"kHz", 1e3}}; U u = wave ? r.pick(wu) : r.pick(fu); S ty = plain ? "LINEAR" : wave ? "WAVE" : "FREQ"; if (!unit) u = {"(none)", 1}; // without CUNIT, a spectral axis is in SI units
    double val = r.d(1, 1000), del = r.d(0.01, 1)*(r.b() ? 1 : -1), px = r.d(-3, 12); size_t dim[3] = {r.u(1, 9), r.u(1, 9), r.u(1, 9)}; S h; card(h, "SIMPLE", S("T")); card(h, "BITPIX", S("-32")); card(h, "NAXIS", S("3")); for (int k = 0; k < 3; ++k) card(h, fmt("NAXIS%d", k + 1), fmt("%zu", dim[k])); cards(h, t, a1, a2); card(h, fmt("CTYPE%d", sp), "'" + ty + "'"); card(h, fmt("CRVAL%d", sp), val); card(h, fmt("CD%d_%d", sp, sp), del); card(h, fmt("CRPIX%d", sp), px); if (unit) card(h, fmt("CUNIT%d", sp), S("'") + u.n + "'"); S e = "END"; e.resize(80, ' '); h += e; vh::note(h); unit = !plain;
    wcs w(h); if (!check(w.is_valid() && w.axis_count() == 3 && w.dims[0] == dim[2] && w.dims[1] == dim[1] && w.dims[2] == dim[0], "cube", "")) return; size_t ax = 3 - sp; check(w.find_axis(ty) == ax && w.find_axis(to_lower(ty)) == ax && w.find_axis("RA") == size_t(3 - (t.swapped ? a2 : a1)) && w.find_axis("DEC") == size_t(3 - (t.swapped ? a1 : a2)) && w.find_axis("STOKES") == npos, "find-axis", ""); check(w.x_axis == size_t(3 - a1) && w.y_axis == size_t(3 - a2) && w.type[ax] == (plain ? axis_type::unknown : wave ? axis_type::wave : axis_type::freq) && w.type[w.ra_axis] == axis_type::spatial && w.has_unit[ax] == unit, "axis-kinds", "");
    vec1d x = {r.d(-5, 15), r.d(-5, 15)}, y = {r.d(-5, 15), r.d(-5, 15)}, ra, dec, x2, y2; xy2ad(w, x, y, ra, dec); ad2xy(w, ra, dec, x2, y2); for (int k = 0; k < 2; ++k) { L wr, wd; t.sky(x[k], y[k], wr, wd); checkf(angd(ra[k], dec[k], wr, wd) < 1e-6, "cube-position", [&]{ return fmt("(%.17g,%.17g) -> (%.17g,%.17g) expected (%.17Lg,%.17Lg)", x[k], y[k], ra[k], dec[k], wr, wd); }); check(std::fabs(x2[k] - x[k]) < 1e-4 && std::fabs(y2[k] - y[k]) < 1e-4, "cube-round-trip", ""); } ev("cube");
    // the spectral axis, in every unit
    struct Q { axis_unit u; double si; bool wave; }; static const V<Q> qs = {{axis_unit::wave_m, 1, true}, {axis_unit::wave_cm, 1e-2, true}, {axis_unit::wave_mm, 1e-3, true}, {axis_unit::wave_um, 1e-6, true}, {axis_unit::wave_nm, 1e-9, true}, {axis_unit::wave_Angstrom, 1e-10, true}, {axis_unit::freq_Hz, 1, false}, {axis_unit::freq_kHz, 1e3, false}, {axis_unit::freq_MHz, 1e6, false}, {axis_unit::freq_GHz, 1e9, false}, {axis_unit::freq_THz, 1e12, false}};
    const Q& q = r.pick(qs); int how = r.i(0, 4); axis_unit au = how == 0 ? axis_unit::wcslib_default : how == 1 ? axis_unit::native : how == 2 ? axis_unit::sky_deg : q.u; bool good = unit ? (how == 0 || (how >= 3 && q.wave == wave)) : how == 1; double conv = unit ? (how == 0 ? u.si : u.si/q.si) : 1; vec1d xs(r.u(1, 4)), ws; for (auto& v : xs) v = r.d(-10, 20);
    Outcome o = guarded([&] { x2w(w, ax, xs, ws, au); }); checkf(o.ok() == good, "unit-acceptance", [&]{ return fmt("axis unit %s, request %d: ", unit ? u.n : "none", how) + o.str(); }); ev(good ? "unit" : "bad-unit"); if (!o.ok() || !good) { sig(fmt("bad%d%d%d", how, (int)unit, (int)wave)); return; }
    if (!check(ws.size() == xs.size(), "axis-shape", "")) return; for (size_t k = 0; k < xs.size(); ++k) { double wv = (val + del*(xs[k] - px))*conv; checkf(close(ws[k], wv, 1e-9, 1e-9*conv), "axis-value", [&]{ return fmt("x=%.17g -> %.17g expected %.17g", xs[k], ws[k], wv); }); double s; x2w(w, ax, xs[k], s, au); check(s == ws[k], "axis-scalar", ""); w2x(w, ax, ws[k], s, au); checkf(std::fabs(s - xs[k]) < 1e-6, "axis-inverse", [&]{ return fmt("x=%.17g -> %.17g -> %.17g", xs[k], ws[k], s); }); } vec1d back; w2x(w, ax, ws, back, au); check(back.size() == xs.size() && std::fabs(back[0] - xs[0]) < 1e-6, "axis-inverse-vector", "");
    vec1d b = build_axis(w, ax, au); bool bo = b.size() == dim[sp-1]; for (size_t k = 0; bo && k < b.size(); ++k) bo = close(b[k], (val + del*(k + 1 - px))*conv, 1e-9, 1e-9*conv); check(bo, "build-axis", svv(b)); check(guarded([&] { double s; x2w(w, 3, 1.0, s, au); }).rejected(), "axis-out-of-range", ""); ev("axis"); sig(fmt("%d%d%d%s%d", sp, how, (int)t.swapped, u.n, (int)unit));
}
SCEN(headers, 300, 12000) { Rng& r = rng; silence();
    make_wcs_header_params p; p.pixel_scale = r.d(0.01, 5); p.sky_ref_ra = r.d(0, 360); p.sky_ref_dec = r.d(-80, 80); p.pixel_ref_x = r.d(-5, 30); p.pixel_ref_y = r.d(-5, 30); p.dims_x = r.u(1, 50); p.dims_y = r.u(1, 50); fits::header h, h2; if (r.b(0.3)) { card(h, "OBJECT", S("'x'")); S e = "END"; e.resize(80, ' '); h += e; h2 = h; } if (!check(make_wcs_header(p, h), "make-header", "")) return;
    Tan t; t.val[0] = p.sky_ref_ra; t.val[1] = p.sky_ref_dec; t.pix[0] = p.pixel_ref_x; t.pix[1] = p.pixel_ref_y; t.cd[0][0] = -p.pixel_scale/3600; t.cd[1][1] = p.pixel_scale/3600; t.cd[0][1] = t.cd[1][0] = 0; wcs w(h); if (!check(w.is_valid() && w.dims.size() == 2 && w.dims[0] == p.dims_y && w.dims[1] == p.dims_x, "made-header", h)) return; double x = r.d(-20, 60), y = r.d(-20, 60), ra, dec; xy2ad(w, x, y, ra, dec); L wr, wd; t.sky(x, y, wr, wd); checkf(angd(ra, dec, wr, wd) < 1e-3, "made-header-position", [&]{ return fmt("(%g,%g) -> (%.17g,%.17g) expected (%.17Lg,%.17Lg)", x, y, ra, dec, wr, wd); }); double as; check(get_pixel_size(w, as) && close(as, p.pixel_scale, 1e-4), "made-header-scale", ""); ev("made");
    vec1s sp = {fmt("pixel_scale:%.15g", p.pixel_scale), fmt("sky_ref:%.15g,%.15g", p.sky_ref_ra, p.sky_ref_dec), fmt("PIXEL_REF:%.15g,%.15g", p.pixel_ref_x, p.pixel_ref_y), fmt("dims:%zu,%zu", p.dims_x, p.dims_y)}; bool ok = make_wcs_header(sp, h2); double ra2 = 0, dec2 = 0; if (check(ok, "text-header", "")) { wcs w2(h2); xy2ad(w2, x, y, ra2, dec2); check(angd(ra, dec, ra2, dec2) < 1e-3 && w2.dims[0] == p.dims_y, "text-header-position", ""); ev("text"); }
    static const V<S> bad = {"pixel_scale", "pixel_scale:abc", "sky_ref:1", "sky_ref:1,x", "sky_ref:x,1", "pixel_ref:1,2,3", "pixel_ref:a,1", "dims:2", "dims:2,b", "what:3", "pixel_scale:1:2"}; S bp = r.pick(bad); vec1s bs = sp; bs[r.u(0, 3)] = bp; fits::header hb; check(!make_wcs_header(bs, hb), "malformed-accepted", bp); ev("malformed");
    // only the astrometry is kept by filter_wcs, each card once and in order
    S full; V<S> want; auto add = [&](const S& k, const S& v, bool keep) { S c; card(c, k, v); full += c; if (keep) want.push_back(c); }; add("SIMPLE", "T", false); for (int k = r.i(0, 3); k > 0; --k) add(fmt("USER%d", k), "3", false); Tan q = maketan(r, 1e-4, true); { S hc; cards(hc, q); for (size_t k = 0; k < hc.size(); k += 80) { full += hc.substr(k, 80); want.push_back(hc.substr(k, 80)); if (r.b(0.2)) add(fmt("AUX%zu", k), "'CRVAL1'", false); } } add("EQUINOX", "2000.0", true); add("RADECSYS", "'FK5'", true); add("SECPIX", "3.0", true); add("OBJECT", "'RA'", false); S e = "END"; e.resize(80, ' '); full += e; want.push_back(e); S got = filter_wcs(full); S wj; for (auto& c : want) wj += c; checkf(got == wj, "filter", [&]{ return "got\n" + got + "\nexpected\n" + wj; }); ev("filtered"); wcs wf(got), wo(full); double a1, d1, a2, d2; xy2ad(wf, x, y, a1, d1); xy2ad(wo, x, y, a2, d2); check(a1 == a2 && d1 == d2, "filtered-position", "");
    // headers without astrometry, or with half of it
    { S n; card(n, "SIMPLE", S("T")); card(n, "BITPIX", S("-32")); card(n, "NAXIS", S("2")); card(n, "NAXIS1", S("3")); card(n, "NAXIS2", S("4")); if (r.b()) { card(n, "CTYPE1", S("'RA---CAR'")); card(n, "CTYPE2", S("'LINEAR'")); } n += e; Outcome o = guarded([&] { wcs wn(n); double v = 0; if (!wn.is_valid()) { bool g = get_pixel_size(wn, v); check(!g, "no-wcs-scale", ""); } else check(wn.x_axis < wn.axis_count() && wn.y_axis < wn.axis_count() && wn.ra_axis < wn.axis_count() && wn.dec_axis < wn.axis_count(), "half-wcs-axes", ""); }); check(o.ok(), "no-wcs", o.str()); ev("no-wcs"); }
    sig(fmt("%zu%zu", p.dims_x, p.dims_y));
}
// ---------------------------------------------------------------- regridding
static Tan shifted(Rng& r, const Tan& t, int kind, size_t nx, size_t ny) { Tan d = t; d.nx = nx; d.ny = ny; if (kind == 0) { d.pix[0] += r.i(-4, 4); d.pix[1] += r.i(-4, 4); } else if (kind == 1) { d.pix[0] += r.d(-4, 4); d.pix[1] += r.d(-4, 4); } else { L z = kind == 2 ? 1 : (L)r.d(0.3, 3), a = r.d(0, 6.28), c = cosl(a)/z, s = sinl(a)/z; Tan q = d; for (int k = 0; k < 2; ++k) { d.cd[k][0] = kept(q.cd[k][0]*c + q.cd[k][1]*s); d.cd[k][1] = kept(-q.cd[k][0]*s + q.cd[k][1]*c); } d.pix[0] = kept(nx/2.0L + r.d(-3, 3)); d.pix[1] = kept(ny/2.0L + r.d(-3, 3)); L ra, dec; t.sky(t.nx/2.0L + r.d(-2, 2), t.ny/2.0L + r.d(-2, 2), ra, dec); d.val[0] = kept(ra); d.val[1] = kept(dec); } return d; }
static void map(const Tan& a, const Tan& b, L x, L y, L& u, L& v) { L ra, dec; a.sky(x + 1, y + 1, ra, dec); b.img(ra, dec, u, v); u -= 1; v -= 1; }
struct Pt { L x, y; };
static L area(const V<Pt>& p) { L s = 0; for (size_t k = 0; k < p.size(); ++k) { const Pt& a = p[k]; const Pt& b = p[(k + 1)%p.size()]; s += a.x*b.y - a.y*b.x; } return fabsl(s)/2; }
// area of the part of the polygon inside the unit square centred on (i,j)
static L overlap(V<Pt> p, L i, L j) { for (int e = 0; e < 4; ++e) { V<Pt> o; auto in = [&](const Pt& q) { return e == 0 ? q.x >= i - 0.5L : e == 1 ? q.x <= i + 0.5L : e == 2 ? q.y >= j - 0.5L : q.y <= j + 0.5L; }; L lim = e == 0 ? i - 0.5L : e == 1 ? i + 0.5L : e == 2 ? j - 0.5L : j + 0.5L; for (size_t k = 0; k < p.size(); ++k) { const Pt& a = p[k]; const Pt& b = p[(k + 1)%p.size()]; if (in(a)) o.push_back(a); if (in(a) != in(b)) { if (e < 2) { L f = (lim - a.x)/(b.x - a.x); o.push_back({lim, a.y + f*(b.y - a.y)}); } else { L f = (lim - a.y)/(b.y - a.y); o.push_back({a.x + f*(b.x - a.x), lim}); } } } p = o; if (p.size() < 3) return 0; } return area(p); }
static Tan fieldtan(Rng& r) { Tan t; do t = maketan(r, std::pow(10.0, r.d(-5, -3)), false); while (fabsl(t.val[1]) > 80); t.nx = r.u(2, 12); t.ny = r.u(2, 12); t.pix[0] = kept(t.nx/2.0L + r.d(-4, 4)); t.pix[1] = kept(t.ny/2.0L + r.d(-4, 4)); return t; }
SCEN(interpolated, 200, 8000) { Rng& r = rng;
    Tan t = fieldtan(r); int kind = r.i(0, 3); Tan d = shifted(r, t, kind, r.u(1, 12), r.u(1, 12)); wcs ws(header(t)), wd(header(d)); vec2d im(t.ny, t.nx); for (auto& v : im) v = r.d(-5, 5); regrid_interpolate_params o; int me = r.i(0, 2); o.method = me == 0 ? interpolation_method::nearest : me == 1 ? interpolation_method::linear : interpolation_method::cubic; o.conserve_flux = r.b(); o.linearize = r.b(0.35); bool plane = me == 2; double pa = r.d(-1, 1), pb = r.d(-1, 1), pc = r.d(-1, 1); if (plane) for (size_t j = 0; j < t.ny; ++j) for (size_t i = 0; i < t.nx; ++i) im(j, i) = pa + pb*i + pc*j; vh::note(fmt("%zux%zu to %zux%zu kind %d method %d flux %d linear %d", t.nx, t.ny, d.nx, d.ny, kind, me, (int)o.conserve_flux, (int)o.linearize)); vec2d g = regrid_interpolate(im, ws, wd, o); if (!check(g.dims[0] == d.ny && g.dims[1] == d.nx, "interpolate-shape", "")) return;
    const L E = 1e-4; for (size_t j = 0; j < d.ny; ++j) for (size_t i = 0; i < d.nx; ++i) { V<Pt> q; L x = 0, y = 0; static const L ox[4] = {-0.5L, 0.5L, 0.5L, -0.5L}, oy[4] = {-0.5L, -0.5L, 0.5L, 0.5L}; for (int c = 0; c < 4; ++c) { Pt p; map(d, t, i + ox[c], j + oy[c], p.x, p.y); q.push_back(p); x += p.x/4; y += p.y/4; } L A = o.conserve_flux ? area(q) : 1; double got = g(j, i); int inside; L want = 0;
        auto cls = [&](L v, L lo, L hi) { return v < lo - E || v > hi + E ? 0 : v < lo + E || v > hi - E ? 2 : 1; }; 
        if (me == 0) { int a = cls(x, -0.5L, t.nx - 0.5L), b = cls(y, -0.5L, t.ny - 0.5L); inside = !a || !b ? 0 : a == 2 || b == 2 || fabsl(x - floorl(x) - 0.5L) < E || fabsl(y - floorl(y) - 0.5L) < E ? 2 : 1; if (inside == 1) want = im((size_t)llroundl(y), (size_t)llroundl(x)); }
        else if (me == 1) { int a = cls(x, 0, t.nx - 1.0L), b = cls(y, 0, t.ny - 1.0L); inside = !a || !b ? 0 : a == 2 || b == 2 ? 2 : 1; if (inside == 1) { size_t ix = (size_t)x, iy = (size_t)y; L u = x - ix, v = y - iy; want = (im(iy, ix)*(1 - u) + im(iy, ix+1)*u)*(1 - v) + (im(iy+1, ix)*(1 - u) + im(iy+1, ix+1)*u)*v; } }
        else { int a = cls(x, 1, t.nx - 2.0L), b = cls(y, 1, t.ny - 2.0L); inside = !a || !b || t.nx < 4 || t.ny < 4 ? 0 : a == 2 || b == 2 ? 2 : 1; want = pa + pb*x + pc*y; }
        // with 'linearize', a simple shift copies the pixels (and those only)
        bool copied = o.linearize && kind == 0; if (copied) { long xi = lroundl(x), yi = lroundl(y); inside = xi >= 0 && xi < (long)t.nx && yi >= 0 && yi < (long)t.ny; if (inside) want = im(yi, xi); A = 1; ev("copied"); }
        if (inside == 2) { ev("edge"); continue; } if (!inside) { checkf(got != got, "interpolate-uncovered", [&]{ return fmt("pixel (%zu,%zu) falls at (%.9Lg,%.9Lg): %g", i, j, x, y, got); }); ev("uncovered"); continue; }
        L tol = o.linearize ? 4e-3*(1 + A) : 2e-5*(1 + A); checkf(got == got && fabsl(got - want*A) < tol, "interpolate", [&]{ return fmt("pixel (%zu,%zu) falls at (%.9Lg,%.9Lg): %.9g expected %.9Lg", i, j, x, y, got, want*A); }); ev(me == 0 ? "nearest" : me == 1 ? "linear" : "cubic"); }
    sig(fmt("%d%d%d%d%zu%zu", kind, me, (int)o.linearize, (int)o.conserve_flux, t.nx, d.nx));
}
SCEN(drizzled, 160, 6000) { Rng& r = rng;
    Tan t = fieldtan(r); int kind = r.i(0, 3); Tan d = shifted(r, t, kind, r.u(1, 10), r.u(1, 10)); wcs ws(header(t)), wd(header(d)); regrid_drizzle_params o; o.pixfrac = r.b() ? 1 : r.d(0.2, 1); o.linearize = r.b(0.3); o.dest_pixfrac = r.b(0.3); bool pole = r.b(0.0); (void)pole; size_t np = r.u(1, 3); vec3d cube(np, t.ny, t.nx); for (auto& v : cube) v = r.d(0.5, 5); vec2d im = cube(0,_,_); vh::note(fmt("%zux%zu to %zux%zu kind %d pixfrac %g linear %d dest %d", t.nx, t.ny, d.nx, d.ny, kind, o.pixfrac, (int)o.linearize, (int)o.dest_pixfrac)); vec2d wei = {{1, 2}}; vec2d g = regrid_drizzle(im, ws, wd, wei, o); if (!check(g.dims[0] == d.ny && g.dims[1] == d.nx && wei.dims == g.dims, "drizzle-shape", "")) return;
    V<L> num(d.nx*d.ny, 0), den(d.nx*d.ny, 0), amb(d.nx*d.ny, 0); L pf = o.pixfrac; for (size_t j = 0; j < t.ny; ++j) for (size_t i = 0; i < t.nx; ++i) { V<Pt> q; static const L ox[4] = {-0.5L, 0.5L, 0.5L, -0.5L}, oy[4] = {-0.5L, -0.5L, 0.5L, 0.5L}; for (int c = 0; c < 4; ++c) { Pt p; map(t, d, i + ox[c]*pf, j + oy[c]*pf, p.x, p.y); q.push_back(p); } L A = area(q); L x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& p : q) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } for (long v = std::max(0L, (long)floorl(y0)); v <= std::min((long)d.ny - 1, (long)ceill(y1)); ++v) for (long u = std::max(0L, (long)floorl(x0)); u <= std::min((long)d.nx - 1, (long)ceill(x1)); ++u) { L w = overlap(q, u, v); num[v*d.nx + u] += im(j, i)*pf*pf*w/A; den[v*d.nx + u] += w; } }
    const L E = o.linearize || o.dest_pixfrac ? 2e-3 : 2e-5; for (size_t k = 0; k < num.size(); ++k) { double got = g[k], gw = wei[k]; checkf(fabsl(gw - den[k]) < E*(1 + den[k]), "drizzle-weight", [&]{ return fmt("pixel (%zu,%zu): %.9g expected %.9Lg", k%d.nx, k/d.nx, gw, den[k]); }); if (den[k] > 0.02) { L want = num[k]/den[k]; checkf(fabsl(got - want) < E*want + 0.01*E*want/den[k], "drizzle", [&]{ return fmt("pixel (%zu,%zu): %.9g expected %.9Lg (weight %.4Lg)", k%d.nx, k/d.nx, got, want, den[k]); }); ev("covered"); } else if (den[k] == 0 && gw == 0) { check(got != got, "drizzle-uncovered", fmt("%g", got)); ev("uncovered-drizzle"); } }
    // flux which falls on the image
    L a = 0, b = 0; for (size_t k = 0; k < num.size(); ++k) { if (wei[k] > 0) a += g[k]*wei[k]; b += num[k]; } checkf(fabsl(a - b) <= 3e-3*b + 1e-3, "drizzle-flux", [&]{ return fmt("%.9Lg expected %.9Lg", a, b); }); ev("flux");
    // every plane of a cube is treated the same way
    { S h; card(h, "SIMPLE", S("T")); card(h, "BITPIX", S("-64")); card(h, "NAXIS", S("3")); card(h, "NAXIS1", fmt("%zu", t.nx)); card(h, "NAXIS2", fmt("%zu", t.ny)); card(h, "NAXIS3", fmt("%zu", np)); cards(h, t); card(h, "CTYPE3", S("'WAVE'")); card(h, "CRVAL3", 1.0L); card(h, "CRPIX3", 1.0L); card(h, "CD3_3", 1.0L); card(h, "CUNIT3", S("'um'")); S e = "END"; e.resize(80, ' '); h += e; wcs wc(h); vec2d w3; vec3d c3 = regrid_drizzle(cube, wc, wd, w3, o); if (check(c3.dims[0] == np && c3.dims[1] == d.ny && c3.dims[2] == d.nx, "cube-shape", "")) { bool ok = w3.dims == wei.dims; for (size_t k = 0; ok && k < wei.size(); ++k) ok = close(w3[k], wei[k], 1e-9, 1e-9); for (size_t p = 0; ok && p < np; ++p) { vec2d pl = cube(p,_,_), pr = regrid_drizzle(pl, ws, wd, o); for (size_t v = 0; ok && v < d.ny; ++v) for (size_t u = 0; ok && u < d.nx; ++u) { double x = c3(p, v, u), y = pr(v, u); ok = (x != x && y != y) || (wei(v, u) < 1e-6) || close(x, y, 1e-6, 1e-9); } } check(ok, "cube-planes", ""); ev("cube-drizzle"); } check(guarded([&] { vec3d bad(np, t.ny + 1, t.nx); regrid_drizzle(bad, wc, wd, o); }).rejected(), "drizzle-mismatch", ""); }
    sig(fmt("%d%d%d%d%zu", kind, (int)o.linearize, (int)o.dest_pixfrac, o.pixfrac == 1, d.nx));
}
#endif
#if PART == 6
// ================================================================ cutouts, stacks and regions
#include <vif/astro/qstack.hpp>
#include <vif/astro/ds9.hpp>
static S uniq(const S& ext) { static long n = 0; S f = st().scratch + fmt("/c%ld", n++) + ext; ::unlink(f.c_str()); return f; }
struct Files { V<S> f; ~Files() { for (auto& x : f) ::unlink(x.c_str()); } S add(const S& ext) { f.push_back(uniq(ext)); return f.back(); } };
struct Img { Tan t; vec2d v; S file; };
static L northpix(const Tan& t) { L x, y; t.img(t.val[0], t.val[1] + 1/3600.0L, x, y); return 1/hypotl(x - t.pix[0], y - t.pix[1]); }
// a few images of the same part of the sky, on the same pixel grid or not
static V<Img> images(Rng& r, Files& fl, size_t n, bool grid, double pnan, int ty, size_t maxn) { bool ints = ty == 2; V<Img> o; Tan b; do b = maketan(r, std::pow(10.0, r.d(-4.5, -3)), false); while (fabsl(b.val[1]) > 85); for (size_t k = 0; k < n; ++k) { Img g; g.t = b; g.t.nx = r.u(1, maxn); g.t.ny = r.u(1, maxn); if (k) { if (grid) { g.t.pix[0] += r.i(-6, 6); g.t.pix[1] += r.i(-6, 6); } else { g.t.pix[0] += r.d(-6, 6); g.t.pix[1] += r.d(-6, 6); L z = r.d(0.6, 1.6); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) g.t.cd[i][j] = kept(g.t.cd[i][j]*z); } } for (int i = 0; i < 2; ++i) g.t.pix[i] = kept(g.t.pix[i]); g.v.resize(g.t.ny, g.t.nx); for (auto& v : g.v) v = ints ? (double)r.i(-999, 999) : r.b(pnan) ? (r.b(0.8) ? dnan : dinf) : (double)(float)r.d(-9, 9); g.file = fl.add(".fits"); if (ints) fits::write(g.file, vec2i(g.v), header(g.t)); else if (ty == 1) fits::write(g.file, vec2f(g.v), header(g.t)); else fits::write(g.file, g.v, header(g.t)); o.push_back(g); } return o; }
static void section(Files& fl, const V<Img>& im, S& sect, Rng& r) { sect = fl.add(".sectfits"); std::ofstream f(sect); if (r.b()) f << "# a comment\n\n"; for (auto& g : im) f << g.file.substr(g.file.find_last_of('/') + 1) << "\n"; }
// stamp of half size hs around the (1-based) position, NaN (or def) out of the image: 0 uncovered, 1 partial, 2 full, 3 ambiguous
static int stamp(const Img& g, L x, L y, long hs, double def, V<double>& out) { if (fabsl(x - floorl(x) - 0.5L) < 1e-5L || fabsl(y - floorl(y) - 0.5L) < 1e-5L) return 3; long xc = llroundl(x) - 1, yc = llroundl(y) - 1, n = 2*hs + 1; out.assign(n*n, def); long in = 0; for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) { long u = xc - hs + i, v = yc - hs + j; if (u >= 0 && v >= 0 && u < (long)g.t.nx && v < (long)g.t.ny) { out[j*n + i] = g.v(v, u); ++in; } } return in == 0 ? 0 : in == n*n ? 2 : 1; }
static bool samep(double a, double b) { return std::isfinite(a) == std::isfinite(b) && (!std::isfinite(a) || a == b); } // CFITSIO does not tell infinite values from invalid ones
template<typename T> static void onecut(Rng& r, cutout_extractor& cx, const V<Img>& im, L ra, L dec, L tra, L tdec, long hs, double size, double def, bool given) {
    (void)r; vec<2,T> cut; if (r.b(0.3)) cut.resize(2, 3); fits::header h; if (r.b(0.3)) h = "junk"; long n = 2*hs + 1; V<double> want; bool have = false; L px = hs + 1, py = hs + 1; size_t first = 0; bool amb = false;
    for (size_t k = 0; k < im.size(); ++k) { L x, y; if (!im[k].t.img(tra, tdec, x, y)) continue; V<double> s; int c = stamp(im[k], x, y, hs, def, s); if (c == 3) { amb = true; break; } if (c == 0) continue; if (!have) { have = true; want = s; first = k; px = hs + 1 + (x - roundl(x)); py = hs + 1 + (y - roundl(y)); ev(c == 1 ? "partial" : "full"); } else { ev("combined"); for (size_t q = 0; q < s.size(); ++q) if (!std::isfinite(want[q])) want[q] = s[q]; } }
    if (amb) { ev("ambiguous"); return; } bool gh = r.b(); bool got = gh ? (given ? cx.get_cutout(cut, h, (double)ra, (double)dec, size, (T)def) : cx.get_cutout(cut, h, (double)ra, (double)dec, size)) : given ? cx.get_cutout(cut, (double)ra, (double)dec, size, (T)def) : cx.get_cutout(cut, (double)ra, (double)dec, size); if (!have) { want.assign(n*n, def); ev("not-covered"); }
    check(got == have, "cutout-covered", fmt("%d expected %d", got, have)); if (!check(cut.dims[0] == (size_t)n && cut.dims[1] == (size_t)n, "cutout-shape", svv(cut, 4) + fmt(" expected %ld", n))) return; for (size_t q = 0; q < want.size(); ++q) checkf(samep((double)cut.safe[q], (double)(T)want[q]), "cutout-pixel", [&]{ return fmt("pixel (%zu,%zu) of %ldx%ld: %g expected %g", q%n, q/n, n, n, (double)cut.safe[q], want[q]); });
    if (gh) { double cp1, cp2, v1, v2; size_t n1 = 0, n2 = 0; bool ok = fits::getkey(h, "CRPIX1", cp1) && fits::getkey(h, "CRPIX2", cp2) && fits::getkey(h, "CRVAL1", v1) && fits::getkey(h, "CRVAL2", v2) && fits::getkey(h, "NAXIS1", n1) && fits::getkey(h, "NAXIS2", n2); if (check(ok && n1 == (size_t)n && n2 == (size_t)n, "cutout-header", h)) { checkf(fabsl(cp1 - px) < 1e-3 && fabsl(cp2 - py) < 1e-3 && std::fabs(v1 - (double)ra) < 1e-4 && std::fabs(v2 - (double)dec) < 1e-4, "cutout-astrometry", [&]{ return fmt("CRPIX (%.9g,%.9g) expected (%.9Lg,%.9Lg) CRVAL (%.9g,%.9g) expected (%.9Lg,%.9Lg)", cp1, cp2, px, py, v1, v2, ra, dec); }); wcs w(h); check(w.is_valid(), "cutout-wcs", ""); L np = northpix(im[first].t); double as = 0; if (fabsl(dec) < 85) check(get_pixel_size(w, as) && close(as, (double)np, 1e-3), "cutout-scale", fmt("%g expected %Lg", as, np)); ev("header"); } }
}
SCEN(cutouts, 200, 8000) { Rng& r = rng; Files fl; int ty = r.b(0.2) ? 2 : r.i(0, 1); bool ints = ty == 2; size_t n = r.u(1, 3); V<Img> im = images(r, fl, n, r.b(), 0.1, ty, 12); cutout_extractor cx; S sect; int how = r.i(0, 2); if (how == 0 || n == 1) for (auto& g : im) cx.setup_image(g.file); else if (how == 1) { section(fl, im, sect, r); cx.setup_image(sect); ev("sections"); } else { V<Img> a(im.begin(), im.begin() + 1), b(im.begin() + 1, im.end()); section(fl, b, sect, r); cx.setup_image(a[0].file); cx.setup_image(sect); ev("sections"); } L as = northpix(im[0].t);
    if (!check(cx.imgs.size() == n && close(cx.aspix, (double)as, 1e-4), "extractor", fmt("%zu images, %g expected %Lg", cx.imgs.size(), cx.aspix, as))) return;
    // a map of offsets of the positions
    Img ds; bool dist = r.b(0.3); vec2d o1, o2; if (dist) { ds.t = im[0].t; ds.t.nx = r.u(1, 12); ds.t.ny = r.u(1, 12); ds.v.resize(ds.t.ny, ds.t.nx); o1 = o2 = ds.v; for (auto& v : o1) v = (float)r.d(-3*as/3600, 3*as/3600); for (auto& v : o2) v = (float)r.d(-3*as/3600, 3*as/3600); ds.file = fl.add(".fits"); { fits::output_image oi(ds.file); oi.write(ds.v); oi.write_header(header(ds.t)); oi.reach_hdu(1); oi.write(o1); oi.reach_hdu(2); oi.write(o2); } cx.setup_distortion(ds.file); }
    for (int q = 0; q < 6; ++q) { const Img& g = im[r.u(0, n - 1)]; L ra, dec; g.t.sky(r.d(-6, g.t.nx + 7), r.d(-6, g.t.ny + 7), ra, dec); ra = kept(ra); dec = kept(dec); if (r.b(0.05)) { ra = kept(fmodl(g.t.val[0] + 180, 360)); dec = -g.t.val[1]; ev("far-side"); } L tra = ra, tdec = dec; if (dist) { L x, y; if (ds.t.img(ra, dec, x, y)) { if (fabsl(x - floorl(x) - 0.5L) < 1e-5L || fabsl(y - floorl(y) - 0.5L) < 1e-5L) continue; long u = llroundl(x) - 1, v = llroundl(y) - 1; if (u >= 0 && v >= 0 && u < (long)ds.t.nx && v < (long)ds.t.ny) { tra -= o1(v, u); tdec -= o2(v, u); ev("distorted"); } } } long hs = r.i(1, 4); double size = hs == 1 && r.b(0.3) ? 0 : double(2*as*(hs - 0.5L)); vh::note(fmt("%zu images, half size %ld, (%.12Lg,%.12Lg)", n, hs, ra, dec)); bool given = n == 1 && r.b(); double def = given ? r.i(-50, 50) : ints ? 0 : dnan; if (given) ev("default"); if (ints) { V<Img> one(im.begin(), im.begin() + 1); if (n > 1) continue; onecut<int_t>(r, cx, one, ra, dec, tra, tdec, hs, size, def, given); ev("integers"); } else if (ty == 0) onecut<double>(r, cx, im, ra, dec, tra, tdec, hs, size, def, given); else onecut<float>(r, cx, im, ra, dec, tra, tdec, hs, size, def, given); }
    sig(fmt("%zu%d%d%d%zu%zu", n, how, (int)dist, (int)ints, im[0].t.nx, im[0].t.ny));
}
template<typename T> static void stackcheck(const char* what, const vec<3,T>& c, const V<V<double>>& want, size_t hs) { size_t n = 2*hs + 1; if (!check(consistent(c) && (want.empty() || (c.dims[1] == n && c.dims[2] == n)) && c.dims[0] == want.size(), what + S("-shape"), fmt("%zux%zux%zu expected %zu", c.dims[0], c.dims[1], c.dims[2], want.size()))) return; for (size_t k = 0; k < want.size(); ++k) for (size_t q = 0; q < n*n; ++q) checkf(samep(c.safe[k*n*n + q], (double)(T)want[k][q]), what + S("-pixel"), [&]{ return fmt("source %zu pixel (%zu,%zu): %g expected %g", k, q%n, q/n, (double)c.safe[k*n*n + q], want[k][q]); }); }
template<typename T> static void stackcase(Rng& r) { Files fl; size_t n = r.b(0.4) ? 1 : r.u(2, 3); bool grid = r.b(); V<Img> im = images(r, fl, n, grid, r.b() ? 0 : 0.03, 0, 14); S file = im[0].file; if (n > 1) { section(fl, im, file, r); ev("sections"); } size_t hs = r.u(0, 3); qstack_params p; p.keep_nan = r.b(); p.save_offsets = r.b(); p.save_section = r.b(); bool wht = r.b(); size_t ns = r.u(0, 8); V<Img> wm; S wfile; if (wht) { for (auto& g : im) { Img w = g; for (auto& v : w.v) v = (double)(float)r.d(0.1, 3); if (n == 1 && r.b(0.2)) w.v[r.u(0, w.v.size() - 1)] = dnan; w.file = fl.add(".fits"); fits::write(w.file, w.v, header(w.t)); wm.push_back(w); } wfile = wm[0].file; if (n > 1) section(fl, wm, wfile, r); }
    vec1d ra(ns), dec(ns); bool amb = false; for (size_t k = 0; k < ns; ++k) { const Img& g = im[r.u(0, n - 1)]; L a, d; g.t.sky(r.d(-5, g.t.nx + 6), r.d(-5, g.t.ny + 6), a, d); if (r.b(0.05)) { a = fmodl(g.t.val[0] + 180, 360); d = -g.t.val[1]; ev("far-side"); } ra[k] = a; dec[k] = d; }
    vh::note(fmt("%zu images, %zu sources, half size %zu, keep %d, weights %d", n, ns, hs, (int)p.keep_nan, (int)wht)); V<V<double>> want, wwant; V<size_t> wid, wsec; V<L> wdx, wdy; V<long> pos(ns, -1);
    auto good = [&](const V<double>& s) { for (double v : s) if (!std::isfinite(v)) return false; return true; };
    auto run = [&](const V<Img>& ims, V<V<double>>& out, V<size_t>& oid, V<size_t>& osec, V<L>& odx, V<L>& ody) { std::fill(pos.begin(), pos.end(), -1); for (size_t m = 0; m < n; ++m) for (size_t k = 0; k < ns; ++k) { L x, y; V<double> s; if (!ims[m].t.img(ra[k], dec[k], x, y)) continue; int c = stamp(ims[m], x, y, hs, dnan, s); if (c == 3) { amb = true; return; } if (c == 0) continue; if (!p.keep_nan && !good(s)) { ev("bad-pixel"); continue; } if (pos[k] < 0) { pos[k] = out.size(); out.push_back(s); oid.push_back(k); osec.push_back(m); odx.push_back(x - roundl(x)); ody.push_back(y - roundl(y)); ev(c == 1 ? "partial" : "full"); } else { ev("combined"); for (size_t q = 0; q < s.size(); ++q) if (!std::isfinite(out[pos[k]][q])) out[pos[k]][q] = s[q]; } } };
    bool match = true; if (!wht || n > 1) { run(im, want, wid, wsec, wdx, wdy); if (wht && !amb) { V<size_t> oid, osec; V<L> a, b; run(wm, wwant, oid, osec, a, b); match = oid == wid; } } else for (size_t k = 0; k < ns; ++k) { L x, y; V<double> s, w; if (!im[0].t.img(ra[k], dec[k], x, y)) continue; int c = stamp(im[0], x, y, hs, dnan, s); if (c == 3) { amb = true; break; } if (c != 2) continue; stamp(wm[0], x, y, hs, dnan, w); if (!p.keep_nan && (!good(s) || !good(w))) { ev("bad-pixel"); continue; } want.push_back(s); wwant.push_back(w); wid.push_back(k); wsec.push_back(0); wdx.push_back(x - roundl(x)); wdy.push_back(y - roundl(y)); ev("full"); }
    if (amb) { ev("ambiguous"); return; }
    // the stack may already contain sources of another call
    vec<3,T> cube, wcube; vec1u ids; V<V<double>> pre; size_t npre = r.b(0.3) ? r.u(1, 2) : 0, m2 = 2*hs + 1; if (npre) { cube.resize(npre, m2, m2); for (auto& v : cube) v = (T)(float)r.d(); wcube = cube; for (size_t k = 0; k < npre; ++k) { ids.push_back(r.u(0, 5)); pre.push_back(V<double>(&cube.safe[k*m2*m2], &cube.safe[k*m2*m2] + m2*m2)); } ev("appended"); } vec1u oids = ids;
    qstack_output o; Outcome oc = guarded([&] { o = wht ? qstack(ra, dec, file, wfile, hs, cube, wcube, ids, p) : qstack(ra, dec, file, hs, cube, ids, p); }); if (!match) { check(oc.rejected(), "weight-mismatch-accepted", oc.str()); ev("mismatch"); return; } if (!check(oc.ok(), "qstack", oc.str())) return;
    V<size_t> gid; for (size_t k = 0; k < ids.size(); ++k) gid.push_back(ids[k]); V<size_t> xid(oids.begin(), oids.end()); xid.insert(xid.end(), wid.begin(), wid.end()); checkf(gid == xid, "stacked-sources", [&]{ return sv(gid) + " expected " + sv(xid); }); V<V<double>> full = pre; full.insert(full.end(), want.begin(), want.end()); stackcheck("stack", cube, full, hs); if (wht) { V<V<double>> wf = pre; wf.insert(wf.end(), wwant.begin(), wwant.end()); stackcheck("weights", wcube, wf, hs); ev("weights"); }
    if (p.save_offsets) { bool ok = o.dx.size() == wdx.size() && o.dy.size() == wdy.size(); for (size_t k = 0; ok && k < wdx.size(); ++k) ok = fabsl(o.dx[k] - wdx[k]) < 1e-4 && fabsl(o.dy[k] - wdy[k]) < 1e-4; check(ok, "offsets", svv(o.dx) + " expected " + sv(wdx)); ev("offsets"); } else check(o.dx.empty() && o.dy.empty(), "offsets-unwanted", ""); if (p.save_section) { V<size_t> gs(o.sect.begin(), o.sect.end()); check(gs == wsec, "section", sv(gs) + " expected " + sv(wsec)); ev("section"); }
    if (ns && r.b(0.2)) { vec1d sh = ra; sh.push_back(1.0); check(guarded([&] { vec<3,T> c; vec1u i; qstack(sh, dec, file, hs, c, i, p); }).rejected(), "unequal-positions-accepted", ""); check(guarded([&] { vec<3,T> c; vec1u i; qstack(ra, dec, file + ".no", hs, c, i, p); }).rejected(), "missing-file-accepted", ""); ev("refused"); }
    sig(fmt("%zu%zu%d%d%zu%zu", n, hs, (int)p.keep_nan, (int)wht, ns, wid.size()));
}
SCEN(stacks, 200, 8000) { if (rng.b(0.7)) stackcase<double>(rng); else stackcase<float>(rng); }
SCEN(averages, 200, 8000) { Rng& r = rng; size_t n = r.u(1, 9), h = r.u(1, 4), w = r.u(1, 4); vec3d c(n, h, w), q(n, h, w); for (auto& v : c) v = r.d(-5, 5); for (auto& v : q) v = r.d(0.1, 3); vec2d m = qstack_mean(c), wm = qstack_mean(c, q), md = qstack_median(c); if (!check(m.dims[0] == h && m.dims[1] == w && wm.dims == m.dims && md.dims == m.dims, "average-shape", "")) return;
    for (size_t k = 0; k < h*w; ++k) { V<double> s; L t = 0, tw = 0, ww = 0; for (size_t i = 0; i < n; ++i) { double v = c.safe[i*h*w + k], g = q.safe[i*h*w + k]; s.push_back(v); t += v; tw += v*g; ww += g; } std::sort(s.begin(), s.end()); double e = s[n/2]; checkf(close(m.safe[k], double(t/n), 1e-9, 1e-9) && close(wm.safe[k], double(tw/ww), 1e-9, 1e-9) && close(md.safe[k], e, 1e-12, 1e-12), "average", [&]{ return fmt("mean %.12g expected %.12Lg, weighted %.12g expected %.12Lg, median %.12g expected %.12g", m.safe[k], t/n, wm.safe[k], tw/ww, md.safe[k], e); }); } ev("average");
    // bootstrap samples are made of planes of the stack, the same ones for each stack
    auto seed = make_seed(r.u(1, 1000000)); size_t nb = r.u(0, 5), nsel = r.u(1, 2*n), calls = 0; std::map<double, size_t> id; for (size_t i = 0; i < n; ++i) id[c.safe[i*h*w]] = i; std::set<size_t> seen; auto member = [&](const vec3d& s, V<size_t>& ix) { bool ok = s.dims[0] == nsel && s.dims[1] == h && s.dims[2] == w; for (size_t i = 0; ok && i < nsel; ++i) { auto it = id.find(s.safe[i*h*w]); ok = it != id.end(); if (!ok) break; ix.push_back(it->second); seen.insert(it->second); for (size_t k = 0; ok && k < h*w; ++k) ok = s.safe[i*h*w + k] == c.safe[it->second*h*w + k]; } return ok; };
    qstack_bootstrap(c, nb, nsel, seed, [&](const vec3d& s) { V<size_t> ix; ++calls; check(member(s, ix), "bootstrap-planes", ""); }); check(calls == nb, "bootstrap-count", ""); calls = 0; auto pair = [&](const vec3d& s, const vec3d& g) { V<size_t> ix; ++calls; bool ok = member(s, ix) && g.dims == s.dims; for (size_t i = 0; ok && i < nsel; ++i) for (size_t k = 0; ok && k < h*w; ++k) ok = g.safe[i*h*w + k] == q.safe[ix[i]*h*w + k]; check(ok, "bootstrap-pairs", ""); }; if (r.b()) qstack_bootstrap(c, q, nb, nsel, seed, pair); else qstack_bootstrap(nb, nsel, seed, pair, c, q); check(calls == nb, "bootstrap-pair-count", fmt("%zu", calls)); ev("bootstrap", nb);
    { size_t many = 60*n; std::set<size_t> all; qstack_bootstrap(c, many, 1, seed, [&](const vec3d& s) { auto it = id.find(s.safe[0]); if (it != id.end()) all.insert(it->second); }); check(all.size() == n, "bootstrap-reach", fmt("%zu of %zu planes drawn", all.size(), n)); }
    vec3d b1 = qstack_mean_bootstrap(c, nb, 1, seed), b2 = qstack_median_bootstrap(c, nb, 1, seed), b3 = qstack_mean_bootstrap(c, q, nb, 1, seed); for (auto* b : {&b1, &b2, &b3}) { bool ok = b->dims[0] == nb && (nb == 0 || (b->dims[1] == h && b->dims[2] == w)); for (size_t i = 0; ok && i < nb; ++i) { bool any = false; for (size_t j = 0; !any && j < n; ++j) { any = true; for (size_t k = 0; any && k < h*w; ++k) any = close(b->safe[i*h*w + k], c.safe[j*h*w + k], 1e-12, 1e-12); } ok = any; } check(ok, "bootstrap-averages", fmt("%zu", b->dims[0])); } sig(fmt("%zu%zu%zu%zu", n, h, w, nsel));
}
// ---------------------------------------------------------------- region files
struct RegM { bool box, phys; double p[5]; S color, text; };
static bool samereg(const ds9::region& a, const RegM& b, L tol) { size_t n = b.box ? 5 : 3; bool ok = a.type == (b.box ? "box" : "circle") && a.physical == b.phys && a.params.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = std::fabs(a.params[k] - b.p[k]) <= tol*(1 + std::fabs(b.p[k])); return ok; }
static S regstr(const ds9::region& a) { return a.type + (a.physical ? " physical " : " sky ") + svv(a.params); }
static RegM randreg(Rng& r, bool phys, const Tan& t) { RegM g; g.box = r.b(); g.phys = phys; L as = northpix(t); double x = r.d(-6, t.nx + 6), y = r.d(-6, t.ny + 6); if (r.b(0.2)) { x = r.i(-2, (long)t.nx + 1); y = r.i(-2, (long)t.ny + 1); } double u = phys ? 1 : (double)as; if (phys) { g.p[0] = x; g.p[1] = y; } else { L ra, dec; t.sky(x + 1, y + 1, ra, dec); g.p[0] = ra; g.p[1] = dec; } g.p[2] = u*(r.b(0.1) ? r.d(0, 0.6) : r.d(0.3, 8)); g.p[3] = u*r.d(0.3, 8); g.p[4] = r.b(0.3) ? r.i(-4, 8)*45 : r.d(-360, 720); return g; }
SCEN(regions, 250, 10000) { Rng& r = rng; silence(); Tan t; do t = maketan(r, std::pow(10.0, r.d(-5, -3)), false); while (fabsl(t.val[1]) > 85); t.nx = r.u(1, 14); t.ny = r.u(1, 14); wcs w(header(t)); L as = northpix(t); S file = newname(".reg"); V<RegM> want; S gc = "green"; bool phys = false; size_t nl = r.u(0, 12), bad = 0; std::ostringstream o; o.precision(16); if (r.b()) o << "# Region file format: DS9 version 4.1\n";
    for (size_t l = 0; l < nl; ++l) switch (r.i(0, 9)) { case 0: gc = r.pick(V<S>{"red", "blue", "cyan"}); o << "global color=" << gc << " dashlist=8 3 width=1\n"; break; case 1: phys = true; o << (r.b() ? "physical\n" : "  physical \n"); ev("switched"); break; case 2: phys = false; o << r.pick(V<S>{"fk5", "fk4", "icrs"}) << "\n"; ev("switched"); break; case 3: o << (r.b() ? "\n" : "# circle(1,2,3)\n"); break;
        case 4: { static const V<S> common = {"circle(1)\n", "circle()\n", "circle(1,2)\n", "circle(a,2,3)\n", "ellipse(1,2,3,4,5)\n", "polygon(1,2,3,4)\n", "circle(1,2,3,4)\n", "box(1,2,3,4)\n", "box(1,b,3,4,5)\n", "circle(1,2,x)\n", "box(1,2,3,4,5,6)\n", "circle(1,,3)\n"}, sky = {"circle(1,2,3)\n", "circle(1,2,3')\n", "box(1,2,3\",4,0)\n", "circle(1:2,2:3:4,3\")\n", "box(1,2,3\",4\",z)\n", "circle(1,2,\")\n"}, ph = {"circle(1:2:3,2:3:4,3)\n", "circle(1,2,3\")\n", "box(1,2,3,4\",0)\n"}; o << (r.b() ? r.pick(common) : r.pick(phys ? ph : sky)); ++bad; ev("ill-formed"); break; }
        default: { RegM g = randreg(r, phys, t); double off = phys ? 1 : 0; S q = phys ? "" : "\""; if (!phys && r.b(0.4)) { S a, d; deg2sex(g.p[0], g.p[1], a, d); double rr, dd; if (sex2deg(a, d, rr, dd)) { g.p[0] = rr; g.p[1] = dd; } o << (g.box ? "box(" : "circle(") << a << "," << d; ev("sexagesimal"); } else o << (g.box ? " box(" : "circle (") << g.p[0] + off << (r.b() ? ", " : ",") << g.p[1] + off; o << "," << g.p[2] << q; if (g.box) o << " ," << g.p[3] << q << "," << g.p[4]; o << ")"; g.color = gc; if (r.b(0.4)) { g.color = "pink"; o << " # color=pink width=2"; if (r.b()) { g.text = "{name}"; o << " text={name}"; } } o << "\n"; want.push_back(g); ev(phys ? "physical" : "sky"); break; } }
    { std::ofstream f(file); f << o.str(); } vh::note(o.str()); vec<1,ds9::region> regs; size_t before = r.b(0.2); if (before) { regs.resize(1); regs[0].type = "circle"; regs[0].params = {1, 2, 3}; } ds9::read_regions(file, regs); if (check(regs.size() == want.size() + before, "regions-count", fmt("%zu expected %zu", regs.size(), want.size() + before))) for (size_t k = 0; k < want.size(); ++k) { const auto& g = regs[k + before]; checkf(samereg(g, want[k], 1e-11) && g.color == want[k].color && g.text == want[k].text, "region", [&]{ return regstr(g) + " color " + g.color + " text " + g.text + " expected " + sv(V<double>(want[k].p, want[k].p + 5)); }); ev("read"); } else return;
    if (before) { vec<1,ds9::region> k; for (size_t i = 1; i <= want.size(); ++i) k.push_back(regs[i]); regs = k; }
    // conversion with the astrometry: centre on the same sky position, sizes scaled
    for (size_t k = 0; k < want.size(); ++k) { RegM p = want[k], s = want[k]; L a, b; if (p.phys) { t.sky(p.p[0] + 1, p.p[1] + 1, a, b); s.phys = false; s.p[0] = a; s.p[1] = b; s.p[2] *= as; s.p[3] *= as; } else { t.img(p.p[0], p.p[1], a, b); p.phys = true; p.p[0] = a - 1; p.p[1] = b - 1; p.p[2] /= as; p.p[3] /= as; } ds9::region gs = ds9::physical_to_wcs(w, regs[k]), gp = ds9::wcs_to_physical(w, regs[k]); if (s.p[0] > 359.99 || s.p[0] < 0.01) continue; checkf(samereg(gs, s, 1e-5), "to-sky", [&]{ return regstr(regs[k]) + " -> " + regstr(gs); }); checkf(samereg(gp, p, 1e-4), "to-physical", [&]{ return regstr(regs[k]) + " -> " + regstr(gp); }); ev("converted"); }
    // written and read again
    { S f2 = newname(".reg"); bool ph = r.b(), wp = r.b(0.5); bool allp = true; for (auto& g : want) allp = allp && g.phys; if (!ph) ds9::write_regions_wcs(f2, regs, w); else if (wp) ds9::write_regions_physical(f2, regs, w); else { Outcome oc = guarded([&] { ds9::write_regions_physical(f2, regs); }); check(oc.ok() == allp, "write-physical", oc.str()); if (!allp) { ev("refused"); return; } } vec<1,ds9::region> back; ds9::read_regions(f2, back); if (check(back.size() == regs.size(), "written-count", fmt("%zu", back.size()))) for (size_t k = 0; k < back.size(); ++k) { ds9::region x = ph ? ds9::wcs_to_physical(w, regs[k]) : ds9::physical_to_wcs(w, regs[k]); RegM e; e.box = x.type == "box"; e.phys = ph; for (size_t i = 0; i < x.params.size(); ++i) e.p[i] = x.params[i]; checkf(samereg(back[k], e, 1e-9), "written", [&]{ return regstr(regs[k]) + " written as " + regstr(back[k]); }); ev("written"); } vec<1,ds9::region> pr; if (ph) { ds9::read_regions_physical(f2, pr); check(pr.size() == back.size(), "read-physical", ""); } else { ds9::read_regions_physical(f2, w, pr); bool ok = pr.size() == back.size(); for (auto& x : pr) ok = ok && x.physical; check(ok, "read-physical-wcs", ""); vec<1,ds9::region> no; if (!back.empty()) check(guarded([&] { ds9::read_regions_physical(f2, no); }).rejected(), "sky-regions-without-wcs-accepted", ""); } }
    // masks
    vec2b m(t.ny, t.nx), m0; for (auto& v : m) v = r.b(0.05); m0 = m; S f3 = newname(".reg"); V<ds9::region> ps; for (auto& g : regs) ps.push_back(ds9::wcs_to_physical(w, g)); int how = r.i(0, 2); if (how == 0) for (auto& g : ps) ds9::mask_region(g, m); else { if (how == 1) { ds9::write_regions_physical(f3, regs, w); ds9::mask_regions(f3, m); } else { ds9::write_regions_wcs(f3, regs, w); ds9::mask_regions(f3, w, m); } } if (!check(m.dims == m0.dims, "mask-shape", "")) return;
    for (size_t j = 0; j < t.ny; ++j) for (size_t i = 0; i < t.nx; ++i) { int in = m0(j, i); for (auto& g : ps) { const auto& p = g.params; L dx = i - (L)p[0], dy = j - (L)p[1]; if (g.type == "circle") { int c = 0; bool am = false; for (int q = 0; q < 4; ++q) { L d = hypotl(dx + (q & 1 ? 0.5L : -0.5L), dy + (q & 2 ? 0.5L : -0.5L)) - p[2]; am = am || fabsl(d) < 1e-4; c += d <= 0; } if (am) { if (!in) in = 2; } else if (c >= 3) in = 1; } else { L a = p[4]*PI/180, u = dx*cosl(a) + dy*sinl(a), v = -dx*sinl(a) + dy*cosl(a); L e = std::max(fabsl(u) - p[2]/2, fabsl(v) - p[3]/2); if (fabsl(e) < 1e-4) { if (!in) in = 2; } else if (e < 0) in = 1; } if (in == 1) break; } if (in == 2) { ev("mask-edge"); continue; } checkf(m(j, i) == (in == 1), "mask", [&]{ return fmt("pixel (%zu,%zu) is %d expected %d", i, j, (int)m(j, i), in); }); ev(in ? "masked" : "unmasked"); }
    if (!want.empty() && !want[0].phys) check(guarded([&] { ds9::mask_region(regs[0], m); }).rejected(), "sky-mask-accepted", ""); check(guarded([&] { vec2b e; ds9::region g; g.type = "circle"; g.params = {1, 1, 1}; ds9::mask_region(g, e); }).rejected(), "empty-mask-accepted", ""); check(guarded([&] { vec<1,ds9::region> x; ds9::read_regions(file + ".no", x); }).rejected(), "missing-regions-accepted", "");
    sig(fmt("%zu%zu%d%zu", want.size(), bad, how, t.nx));
}
#endif
