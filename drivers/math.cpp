// Drivers for the mathematical functions.  PART selects the property.
#include "vh.hpp"
#include <vif/math/mpfit.hpp>
#include <vif/math/optimize.hpp>
using namespace vif;
using namespace vh;

namespace {
using VD = std::vector<double>;
const double eps = 2.3e-16;

// A data set: many ties, optionally NaN and infinities
VD data(Rng& rng, size_t n, bool nan, bool inf, int span) {
    VD r(n); double pn = nan ? rng.d()*0.6 : 0, pi = inf ? 0.1 : 0; bool tie = rng.b();
    double sc = rng.pick<double>({1, 1, 1e-6, 1e6});
    for (auto& x : r) {
        if (rng.d() < pn) x = dnan;
        else if (rng.d() < pi) x = rng.b() ? dinf : -dinf;
        else if (tie) x = rng.i(-span, span)*sc;
        else x = rng.gauss()*sc;
    }
    if (nan && n && rng.d() < 0.1) for (auto& x : r) x = dnan;
    return r;
}
size_t pick_size(Rng& rng) { return rng.d() < 0.4 ? rng.i(0, 3) : rng.i(1, 60); }

template<typename T> vec<1,T> mk(const VD& d) { vec<1,T> v; for (double x : d) v.push_back((T)x); return v; }

// The same values as a plain vector, a view, a constant view, and a 2-D vector
template<typename T, typename F> void forms(Rng& rng, const VD& d, F&& f) {
    vec<1,T> v = mk<T>(d); size_t n = d.size();
    int k = rng.i(0, 3); ev(fmt("form%d", k));
    if (k == 0) f(v);
    else if (k == 1 || k == 2) {
        std::vector<size_t> perm(n + 3); std::iota(perm.begin(), perm.end(), 0); rng.shuffle(perm);
        vec<1,T> big(n + 3); vec1u ids(n);
        for (size_t i = 0; i < n + 3; ++i) big[i] = (T)-77777;
        for (size_t i = 0; i < n; ++i) { ids[i] = perm[i]; big[perm[i]] = v[i]; }
        if (k == 1) f(big[ids]); else { const vec<1,T>& cb = big; f(cb[ids]); }
    } else {
        size_t a = 1; for (size_t c = 2; c <= 7; ++c) if (n && n%c == 0) a = c;
        vec<2,T> w(a, n/a); for (size_t i = 0; i < n; ++i) w.data[i] = v[i];
        f(w);
    }
}
VD finite_sorted(const VD& d) { VD r; for (double x : d) if (!std::isnan(x)) r.push_back(x); std::sort(r.begin(), r.end()); return r; }
double ref_sum(const VD& d, double& tol) {
    long double s = 0, a = 0; bool pi = false, ni = false, nn = false;
    for (double x : d) { if (std::isnan(x)) nn = true; else if (std::isinf(x)) (x > 0 ? pi : ni) = true; else { s += x; a += std::fabs(x); } }
    tol = 4*(d.size()+2)*eps*(double)a + 1e-300;
    if (nn || (pi && ni)) return dnan; if (pi) return dinf; if (ni) return -dinf; return (double)s;
}
bool nearv(double a, double b, double tol) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= tol; }
std::string sdv(const VD& d) { return sv(d, 70); }
}

#if PART == 0
// ------------------------------------------------------------------ reductions
template<typename V> void reductions(Rng& rng, const VD& d, const V& v, bool isfloat) {
    size_t n = d.size(); double tol; double s = ref_sum(d, tol);
    double ft = isfloat ? 3e-7 : 0; tol += ft*std::fabs(s);
    check(nearv(total(v), s, tol), "total", sdv(d) + fmt(" got %.17g expected %.17g", (double)total(v), s));
    double m = n ? s/n : dnan;
    check(nearv(mean(v), m, n ? tol/n + 4*eps*std::fabs(m) : 0), "mean", sdv(d) + fmt(" got %.17g", mean(v)));
    // rms and standard deviation
    VD sq; for (double x : d) sq.push_back(x*x); double t2; double s2 = ref_sum(sq, t2);
    double r = n ? std::sqrt(s2/n) : dnan;
    check(nearv(rms(v), r, 1e-12*std::fabs(r) + 1e-6*ft*std::fabs(r) + (isfloat ? 1e-6*std::fabs(r) : 0)), "rms", sdv(d) + fmt(" got %.17g expected %.17g", rms(v), r));
    bool fin = true; double mx = 0; for (double x : d) { fin = fin && std::isfinite(x); if (std::isfinite(x)) mx = std::max(mx, std::fabs(x)); }
    if (fin) {
        VD dv; for (double x : d) dv.push_back((x - m)*(x - m)); double t3; double s3 = ref_sum(dv, t3);
        double sd_ = n ? std::sqrt(s3/n) : dnan;
        check(nearv(stddev(v), sd_, (isfloat ? 1e-6 : 1e-10)*(mx + 1e-300)), "stddev", sdv(d) + fmt(" got %.17g expected %.17g", stddev(v), sd_));
    } else check(true, "x");
    ev("moments");
}
template<typename V> void order(Rng& rng, const VD& d, const V& v) {
    size_t n = d.size(); VD so = finite_sorted(d); size_t k = so.size();
    if (n == 0) {
        ev("refused", 6);
        check(guarded([&]{ (void)median(v); }).rejected(), "median-empty-refused");
        check(guarded([&]{ (void)percentile(v, 0.5); }).rejected(), "percentile-empty-refused");
        check(guarded([&]{ (void)min(v); }).rejected(), "min-empty-refused");
        check(guarded([&]{ (void)max(v); }).rejected(), "max-empty-refused");
        check(guarded([&]{ (void)minmax(v); }).rejected(), "minmax-empty-refused");
        check(guarded([&]{ (void)min_id(v); }).rejected(), "min_id-empty-refused");
        check(guarded([&]{ (void)max_id(v); }).rejected(), "max_id-empty-refused");
        return;
    }
    double md = k ? so[k/2] : dnan;
    check(eqv((double)median(v), md), "median", sdv(d) + fmt(" got %.17g expected %.17g", (double)median(v), md));
    auto cp = v.concretise(); double im = inplace_median(cp);
    check(eqv(im, md), "inplace_median", sdv(d));
    VD after; for (size_t i = 0; i < cp.size(); ++i) after.push_back(cp.data[i]);
    check(after.size() == n && eqvec(finite_sorted(after), so), "inplace_median-keeps-values", sdv(d) + " -> " + sdv(after));
    double ps[3];
    for (int i = 0; i < 3; ++i) {
        double p = ps[i] = rng.d() < 0.5 ? rng.pick<double>({0.0, 0.25, 0.5, 0.75, 1.0}) : rng.d();
        size_t ix = (size_t)std::floor(k*p); if (k && ix >= k) ix = k-1;
        double e = k ? so[ix] : dnan; double g = percentile(v, p);
        check(eqv(g, e), "percentile", sdv(d) + fmt(" p=%.17g got %.17g expected %.17g", p, g, e));
    }
    auto pp = percentiles(v, ps[0], ps[1], ps[2]);
    check(pp.size() == 3 && eqv((double)pp[0], (double)percentile(v, ps[0])) && eqv((double)pp[1], (double)percentile(v, ps[1])) && eqv((double)pp[2], (double)percentile(v, ps[2])),
        "percentiles", sdv(d) + fmt(" p=%g %g %g got ", ps[0], ps[1], ps[2]) + svv(pp));
    // extrema
    size_t i0 = 0, i1 = 0; bool any = false;
    for (size_t i = 0; i < n; ++i) { if (std::isnan(d[i])) continue; if (!any) { i0 = i1 = i; any = true; continue; } if (d[i] < d[i0]) i0 = i; if (d[i] > d[i1]) i1 = i; }
    uint_t a = 99, b = 99; std::pair<uint_t,uint_t> ab(99, 99);
    check(eqv((double)min(v), d[i0]) && eqv((double)max(v), d[i1]), "min-max", sdv(d));
    check(eqv((double)min(v, a), d[i0]) && a == i0, "min-with-index", sdv(d) + fmt(" index %zu expected %zu", a, i0));
    check(eqv((double)max(v, b), d[i1]) && b == i1, "max-with-index", sdv(d) + fmt(" index %zu expected %zu", b, i1));
    check(min_id(v) == i0, "min_id", sdv(d) + fmt(" got %zu expected %zu", min_id(v), i0));
    check(max_id(v) == i1, "max_id", sdv(d) + fmt(" got %zu expected %zu", max_id(v), i1));
    auto mm = minmax(v, ab); auto mi = minmax_ids(v); auto m2 = minmax(v);
    check(eqv((double)mm.first, d[i0]) && eqv((double)mm.second, d[i1]) && eqv((double)m2.first, d[i0]) && eqv((double)m2.second, d[i1]), "minmax", sdv(d));
    check(ab.first == i0 && ab.second == i1 && mi.first == i0 && mi.second == i1, "minmax-index", sdv(d) + fmt(" got %zu %zu expected %zu %zu", mi.first, mi.second, i0, i1));
    ev(any ? "order" : "all-nan"); if (k < n) ev("some-nan");
}
template<typename T> void red_case(Rng& rng, bool flt) {
    size_t n = pick_size(rng); bool fp = std::is_floating_point<T>::value;
    VD d = data(rng, n, fp && rng.b(), fp && rng.d() < 0.2, std::is_unsigned<T>::value ? 5 : rng.i(1, 20));
    for (auto& x : d) { if (!fp) x = std::round(std::fmod(x, 30000)); if (std::is_unsigned<T>::value) x = std::fabs(x); x = (double)(T)x; }
    vh::note(sdv(d));
    forms<T>(rng, d, [&](const auto& v) { reductions(rng, d, v, flt); order(rng, d, v); });
    sig(fmt("%s n%zu k%zu", typeid(T).name(), n > 6 ? n/10 + 100 : n, finite_sorted(d).size()%8));
}
SCEN(reduce_double, 4000, 60000) { red_case<double>(rng, false); }
SCEN(small_scatter, 300, 6000) {
    // a scatter much smaller than the values themselves
    double b = rng.pick(VD{1e5, 1e7, -1e8, 1e9}); size_t n = rng.u(2, 40); VD d(n); for (auto& x : d) x = b + (rng.b(0.3) ? rng.i(-4, 4) : rng.gauss()); vec1d v(n); for (size_t i = 0; i < n; ++i) v[i] = d[i];
    long double m = 0, q = 0; for (double x : d) m += (long double)x - b; m /= n; for (double x : d) { long double z = (long double)x - b - m; q += z*z; } double e = std::sqrt((double)(q/n)), tol = 1e-9*e + 1e-14*std::fabs(b); vh::note(fmt("%zu values around %g", n, b));
    check(nearv(stddev(v), e, tol), "stddev-small-scatter", fmt("%zu values around %g: got %.17g expected %.17g", n, b, stddev(v), e)); vec2d w(2, n); for (size_t i = 0; i < n; ++i) { w(0, i) = d[i]; w(1, i) = d[i]; } vec1d ps = partial_stddev(1, w); check(ps.size() == 2 && nearv(ps[0], e, tol) && nearv(ps[1], e, tol), "partial_stddev-small-scatter", ""); check(nearv(mean(v) - b, (double)m, 1e-14*std::fabs(b)), "mean-small-scatter", fmt("%.17g expected %.17g", mean(v) - b, (double)m)); ev("small-scatter"); sig(fmt("%g %zu", b, n/5));
}
SCEN(reduce_float, 1500, 20000) { red_case<float>(rng, true); }
SCEN(reduce_int, 1500, 20000) { red_case<int>(rng, false); red_case<int_t>(rng, false); }
SCEN(reduce_uint, 1000, 10000) { red_case<uint_t>(rng, false); }
SCEN(reduce_int_large, 500, 5000) {
    // sums and squares of large integers
    size_t n = rng.i(1, 30); VD d(n); for (auto& x : d) x = rng.i(-2147483647, 2147483647);
    forms<int>(rng, d, [&](const auto& v) { reductions(rng, d, v, false); });
}
SCEN(booleans, 1500, 15000) {
    size_t n = pick_size(rng); double p = rng.d(); vec1b b(n), am(n); size_t c = 0, ca = 0, cb = 0;
    for (size_t i = 0; i < n; ++i) { b[i] = rng.d() < p; am[i] = rng.b(); c += b[i]; ca += am[i]; cb += b[i] && am[i]; }
    check(count(b) == c, "count"); check(count(b[_]) == c, "count-view");
    check(nearv(fraction_of(b), n ? double(c)/n : dnan, 1e-12), "fraction_of");
    check(nearv(fraction_of(b, am), ca ? double(cb)/ca : dnan, 1e-12), "fraction_of-among");
    if (n) { double pc = 100.0*c/n; std::string ps = percent_of(b); check(ps == to_string(std::floor(pc + 0.5 - 1e-9)) + "%" || ps == to_string(std::floor(pc + 0.5 + 1e-9)) + "%", "percent_of", ps); }
    vec1b sh(n+1); check(guarded([&]{ (void)fraction_of(b, sh); }).rejected(), "fraction_of-mismatch-refused"); ev("refused");
    ev("booleans"); sig(fmt("b%zu %zu", n, c));
}
SCEN(weighted, 2500, 30000) {
    size_t n = rng.i(1, 30); bool exact = rng.b(); VD d = data(rng, n, exact && rng.b(), false, 6), w(n);
    for (auto& x : w) x = exact ? rng.i(0, 5) : rng.d() + 0.01;
    if (exact && rng.b()) w[rng.i(0, n-1)] = rng.b() ? dnan : 3;
    vec1d v = mk<double>(d), vw = mk<double>(w);
    bool nn = false; long double sw = 0, swv = 0, ab = 0; for (size_t i = 0; i < n; ++i) { if (std::isnan(w[i]) || std::isnan(d[i])) nn = true; else { sw += w[i]; swv += w[i]*d[i]; ab += std::fabs(w[i]*d[i]); } }
    if (!nn && sw > 0) check(nearv(weighted_mean(v, vw), swv/sw, 1e-12*(double)(ab/sw) + 1e-300), "weighted_mean", sdv(d) + sdv(w));
    std::vector<size_t> id; for (size_t i = 0; i < n; ++i) if (!std::isnan(d[i]) && !std::isnan(w[i])) id.push_back(i);
    std::stable_sort(id.begin(), id.end(), [&](size_t a, size_t b) { return d[a] < d[b]; });
    double p = rng.d() < 0.5 ? rng.pick<double>({0.25, 0.5, 0.75, 1.0}) : rng.d();
    double g = weighted_percentile(v, vw, p); double tot = 0; for (auto i : id) tot += w[i];
    if (tot == 0) check(std::isnan(g), "weighted_percentile-no-weight", sdv(d) + sdv(w));
    else {
        // by definition: the weight of the values up to the result reaches p, that of the values below does not
        double below = 0, upto = 0; bool found = false; for (auto i : id) { if (d[i] < g) below += w[i]; if (d[i] <= g) { upto += w[i]; } if (d[i] == g) found = true; }
        bool sharp = exact && p*4 == std::floor(p*4); double tl = sharp ? 0 : exact ? 1e-12 : 1e-9*tot; if (sharp) for (auto i : id) if (d[i] != g) { double c = 0; for (auto j : id) if (d[j] <= d[i]) c += w[j]; if (c == p*tot) ev("weight-on-limit"); }
        check(found && upto >= p*tot - tl && (below < p*tot + tl || below == 0), "weighted_percentile", sdv(d) + " w " + sdv(w) + fmt(" p=%.17g got %.17g (%g, %g of %g)", p, g, below, upto, tot));
        if (p == 0.5) check(eqv(weighted_median(v, vw), g), "weighted_median");
        ev(exact ? "weighted-exact" : "weighted-rounded");
    }
    VD e(n); for (auto& x : e) x = rng.d() + 0.1; vec1d ve = mk<double>(e);
    if (!nn) {
        long double a = 0, b = 0, c = 0; for (size_t i = 0; i < n; ++i) { long double q = 1.0L/((long double)e[i]*e[i]); a += q*d[i]; b += q; c += q*std::fabs(d[i]); }
        auto om = optimal_mean(v, ve);
        check(nearv(om.first, a/b, 1e-12*(double)(c/b) + 1e-300) && nearv(om.second, 1/std::sqrt((double)b), 1e-12/std::sqrt((double)b)), "optimal_mean", sdv(d) + sdv(e));
    }
    vec1d bad(n+1); check(guarded([&]{ (void)weighted_mean(v, bad); }).rejected() && guarded([&]{ (void)weighted_percentile(v, bad, 0.5); }).rejected() && guarded([&]{ (void)optimal_mean(v, bad); }).rejected(), "weighted-mismatch-refused"); ev("refused");
    sig(fmt("w%zu %d %.2f", n, exact, p));
}
SCEN(spread, 2500, 30000) {
    size_t n = rng.i(1, 40); VD d = data(rng, n, rng.d() < 0.3, false, 9); bool asint = rng.b();
    if (asint) for (auto& x : d) x = std::isnan(x) ? 0 : std::round(std::fmod(x, 1000));
    VD so = finite_sorted(d); double md = so.empty() ? dnan : so[so.size()/2]; VD dv; for (double x : d) dv.push_back(std::fabs(x - md));
    VD ds = finite_sorted(dv); double e = ds.empty() ? dnan : ds[ds.size()/2];
    double s = rng.pick<double>({1, 2, 3, 5, 0.5});
    auto go = [&](const auto& v) {
        check(nearv((double)mad(v), e, 0), "mad", sdv(d) + fmt(" got %.17g expected %.17g", (double)mad(v), e));
        auto c = sigma_clip(v, s);
        check(c.dims == v.dims, "sigma_clip-dims");
        for (size_t i = 0; i < n; ++i) { double lim = s*1.48*e; if (std::fabs(dv[i] - lim) <= 1e-9*std::fabs(lim) && lim != 0) continue; bool ex = dv[i] <= lim; check(c.data[i] == ex, "sigma_clip", sdv(d) + fmt(" at %zu sigma %g", i, s)); }
    };
    if (asint) forms<int>(rng, d, go); else forms<double>(rng, d, go);
    ev("spread"); sig(fmt("s%zu %d %g", n, asint, s));
}
SCEN(pairwise, 1000, 10000) {
    size_t n = pick_size(rng); VD a = data(rng, n, false, true, 4), b = data(rng, n, false, true, 4); vec1d va = mk<double>(a), vb = mk<double>(b); double s = rng.i(-3, 3);
    vec1d r1 = min(va, vb), r2 = max(va, vb), r3 = min(va, s), r4 = max(va, s), r5 = min(s, vb), r6 = max(s, vb);
    bool ok = r1.size() == n && r2.size() == n && r3.size() == n && r4.size() == n && r5.size() == n && r6.size() == n;
    for (size_t i = 0; ok && i < n; ++i) ok = r1[i] == std::min(a[i], b[i]) && r2[i] == std::max(a[i], b[i]) && r3[i] == std::min(a[i], s) && r4[i] == std::max(a[i], s) && r5[i] == std::min(s, b[i]) && r6[i] == std::max(s, b[i]);
    check(ok, "min-max-pairwise", sdv(a) + sdv(b));
    vec1d bad(n+1); check(guarded([&]{ (void)min(va, bad); }).rejected() && guarded([&]{ (void)max(va, bad); }).rejected(), "min-max-mismatch-refused"); ev("refused"); ev("pairwise"); sig(fmt("p%zu", n));
}
// ------------------------------------------------------------------ along one dimension
template<std::size_t D> void partial_case(Rng& rng) {
    std::array<size_t,D> dm; size_t n = 1; for (auto& x : dm) { x = rng.i(1, 5); n *= x; } if (rng.d() < 0.05) { dm[rng.i(0, D-1)] = 0; n = 0; }
    vec<D,double> v, w; for (size_t i = 0; i < D; ++i) v.dims[i] = w.dims[i] = dm[i]; v.resize(); w.resize(); vec<D,bool> b(v.dims);
    VD d = data(rng, n, rng.d() < 0.3, false, 6); for (size_t i = 0; i < n; ++i) { v.data[i] = d[i]; w.data[i] = rng.i(1, 9); b.data[i] = rng.b(); }
    size_t dim = rng.i(0, D-1); vh::note(sd(dm) + fmt(" along %zu ", dim) + sdv(d));
    size_t pitch = 1; for (size_t i = dim+1; i < D; ++i) pitch *= dm[i]; size_t outer = 1; for (size_t i = 0; i < dim; ++i) outer *= dm[i];
    // reference slices, in row-major order of the remaining dimensions
    std::vector<VD> sl, sw, sb; for (size_t o = 0; o < outer; ++o) for (size_t p = 0; p < pitch; ++p) { VD x, y, z; for (size_t k = 0; k < dm[dim]; ++k) { size_t ix = (o*dm[dim] + k)*pitch + p; x.push_back(v.data[ix]); y.push_back(w.data[ix]); z.push_back(b.data[ix]); } sl.push_back(x); sw.push_back(y); sb.push_back(z); }
    auto dimsok = [&](const auto& r) { std::vector<size_t> a, e; for (size_t i = 0; i < D; ++i) if (i != dim) e.push_back(dm[i]); for (auto x : r.dims) a.push_back(x); return a == e && r.size() == sl.size(); };
    auto cmp = [&](const char* nm, const auto& r, auto f) {
        if (!check(dimsok(r), std::string(nm) + "-dims", sd(dm))) return;
        for (size_t i = 0; i < sl.size(); ++i) { double e = f(i), g = r.data[i]; check(nearv(g, e, 1e-11*(std::fabs(e) + 1e-300) + 1e-13*(1+std::fabs(e))), nm, sd(dm) + fmt(" along %zu slice %zu got %.17g expected %.17g ", dim, i, g, e) + sdv(sl[i])); }
    };
    auto V = [&](size_t i) { return mk<double>(sl[i]); };
    cmp("partial_total", partial_total(dim, v), [&](size_t i) { double t; return ref_sum(sl[i], t); });
    cmp("partial_count", partial_count(dim, b), [&](size_t i) { double t; return ref_sum(sb[i], t); });
    cmp("reduce", reduce(dim, v, [](vec1d x) { double s = 0; for (size_t i = 0; i < x.size(); ++i) s += x[i]*(i+1); return s; }), [&](size_t i) { double s = 0; for (size_t k = 0; k < sl[i].size(); ++k) s += sl[i][k]*(k+1); return s; });
    cmp("partial_mean", partial_mean(dim, v), [&](size_t i) { double t; return ref_sum(sl[i], t)/sl[i].size(); });
    cmp("partial_fraction_of", partial_fraction_of(dim, b), [&](size_t i) { double t; return ref_sum(sb[i], t)/sl[i].size(); });
    cmp("partial_rms", partial_rms(dim, v), [&](size_t i) { return rms(V(i)); });
    cmp("partial_stddev", partial_stddev(dim, v), [&](size_t i) { return stddev(V(i)); });
    if (dm[dim] > 0) {
        double p = rng.d();
        cmp("partial_median", partial_median(dim, v), [&](size_t i) { VD s = finite_sorted(sl[i]); return s.empty() ? dnan : s[s.size()/2]; });
        cmp("partial_percentile", partial_percentile(dim, v, p), [&](size_t i) { VD s = finite_sorted(sl[i]); return s.empty() ? dnan : s[std::min<size_t>(s.size()*p, s.size()-1)]; });
        cmp("partial_min", partial_min(dim, v), [&](size_t i) { VD s = finite_sorted(sl[i]); return s.empty() ? dnan : s.front(); });
        cmp("partial_max", partial_max(dim, v), [&](size_t i) { VD s = finite_sorted(sl[i]); return s.empty() ? dnan : s.back(); });
        cmp("partial_mad", partial_mad(dim, v), [&](size_t i) { return mad(V(i)); });
    }
    // several vectors at once; every slice visited once, in order
    std::vector<size_t> seen; bool same = true;
    run_dim(dim, v, w, [&](uint_t i, vec1d x, vec1d y) { seen.push_back(i); same = same && i < sl.size() && eqvec(flat(x), sl[i]) && eqvec(flat(y), sw[i]); });
    std::sort(seen.begin(), seen.end()); bool once = seen.size() == sl.size(); for (size_t i = 0; once && i < seen.size(); ++i) once = seen[i] == i;
    check(same && once, "run_dim", sd(dm) + fmt(" along %zu", dim));
    check(guarded([&]{ (void)partial_mean(D + rng.i(0, 3), v); }).rejected() && guarded([&]{ run_dim(D, v, [](uint_t, vec1d) {}); }).rejected(), "partial-bad-dimension-refused"); ev("refused");
    vec<D,double> q = v; q.dims[0] += 1; q.resize(); if (q.dims != v.dims) check(guarded([&]{ run_dim(dim, v, q, [](uint_t, vec1d, vec1d) {}); }).rejected(), "run_dim-mismatch-refused");
    ev("partial"); sig(fmt("D%zu ", D) + sd(dm) + fmt(" %zu", dim));
}
SCEN(partial2, 800, 10000) { partial_case<2>(rng); }
SCEN(partial3, 800, 10000) { partial_case<3>(rng); }
SCEN(partial4, 300, 4000) { partial_case<4>(rng); }
#endif

#if PART == 1
// ------------------------------------------------------------------ bins, histograms, sequences
namespace {
// Bins that do not overlap: contiguous, disjoint, unsorted
vec2d gen_bins(Rng& rng, bool& contiguous) {
    size_t n = rng.i(1, 7); VD ed; double x = rng.i(-6, 2); bool half = rng.b();
    for (size_t i = 0; i < 2*n + 1; ++i) { ed.push_back(x); x += half ? 0.5*rng.i(1, 4) : rng.d() + 0.05; }
    contiguous = rng.b(); vec2d b(2, n);
    if (contiguous) { vec1d e; for (size_t i = 0; i <= n; ++i) e.push_back(ed[i]); b = make_bins_from_edges(e); }
    else { std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); rng.shuffle(p); for (size_t i = 0; i < n; ++i) { b(0, i) = ed[2*p[i]]; b(1, i) = ed[2*p[i] + 1]; } }
    return b;
}
VD gen_values(Rng& rng, size_t n, const vec2d& b) {
    VD d(n); double lo = b.data[0], hi = b.data[0]; for (double x : b) { lo = std::min(lo, x); hi = std::max(hi, x); }
    double pn = rng.d() < 0.3 ? 0.2 : 0; bool concentrated = rng.d() < 0.3; size_t kb = rng.i(0, b.dims[1]-1);
    for (auto& x : d) { double u = rng.d(); if (u < pn) x = dnan; else if (concentrated) x = b(0, kb) + rng.d()*0.999*(b(1, kb) - b(0, kb)); else if (u < 0.4) x = b.data[rng.i(0, b.size()-1)]; else x = lo - 1 + rng.d()*(hi - lo + 2); }
    return d;
}
}
SCEN(histograms, 4000, 60000) {
    bool c; vec2d b = gen_bins(rng, c); size_t n = pick_size(rng), nb = b.dims[1]; VD d = gen_values(rng, n, b), w(n); for (auto& x : w) x = rng.i(-3, 9);
    vh::note(svv(b) + " data " + sdv(d));
    std::vector<size_t> cnt(nb); VD wt(nb); std::vector<std::vector<size_t>> ids(nb);
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < nb; ++k) if (d[i] >= b(0, k) && d[i] < b(1, k)) { ++cnt[k]; wt[k] += w[i]; ids[k].push_back(i); }
    forms<double>(rng, d, [&](const auto& v) { vec1u h = histogram(v, b); check(eqvec(flat(h), std::vector<size_t>(cnt.begin(), cnt.end())), "histogram", svv(b) + " data " + sdv(d) + " got " + svv(h)); });
    vec1d v = mk<double>(d), vw = mk<double>(w); vec1d hw = histogram(v, vw, b);
    check(eqvec(flat(hw), wt), "histogram-weighted", svv(b) + " data " + sdv(d) + " weights " + sdv(w) + " got " + svv(hw));
    std::vector<std::vector<size_t>> got(nb); std::vector<int> called(nb);
    histogram(v, b, [&](uint_t i, vec1u id) { if (i < nb) { ++called[i]; got[i] = flat(id); std::sort(got[i].begin(), got[i].end()); } });
    bool once = true; for (int k : called) once = once && k == 1;
    check(once, "histogram-function-called-once-per-bin", svv(b) + " data " + sdv(d)); check(got == ids, "histogram-function-indices", svv(b) + " data " + sdv(d));
    check(mk<double>(d).size() == v.size() && eqvec(flat(v), d), "histogram-leaves-data");
    for (size_t k = 0; k < nb; ++k) {
        vec1b in = in_bin(v, b, k), in1 = in_bin(v, b(_, k)); bool ok = true; for (size_t i = 0; i < n; ++i) { bool e = d[i] >= b(0, k) && d[i] < b(1, k); ok = ok && in[i] == e && in1[i] == e && in_bin(d[i], b, k) == e && in_bin(d[i], b(_, k)) == e; }
        check(ok, "in_bin", svv(b) + " data " + sdv(d));
        if (c && nb > 1) { vec1b io = in_bin_open(v, b, k); bool o2 = true; for (size_t i = 0; i < n; ++i) { bool e = (k == 0 || d[i] >= b(0, k)) && (k == nb-1 || d[i] < b(1, k)) && !std::isnan(d[i]); o2 = o2 && io[i] == e && in_bin_open(d[i], b, k) == e; } check(o2, "in_bin_open", svv(b) + " data " + sdv(d)); }
    }
    vec1d bc = bin_center(b), bw = bin_width(b); bool ok = bc.size() == nb && bw.size() == nb; for (size_t k = 0; ok && k < nb; ++k) ok = close(bc[k], 0.5*(b(0, k) + b(1, k)), 1e-12, 1e-12) && close(bw[k], b(1, k) - b(0, k), 1e-12) && close(bin_center(b(_, k)), bc[k], 1e-12, 1e-12) && close(bin_width(b(_, k)), bw[k], 1e-12);
    check(ok, "bin-center-width", svv(b));
    check(guarded([&]{ (void)in_bin(1.0, b, nb); }).rejected() && guarded([&]{ (void)histogram(v, vec2d(3, 2)); }).rejected() && guarded([&]{ vec1d q(n+1); (void)histogram(v, q, b); }).rejected() && guarded([&]{ (void)bin_center(vec2d(1, 2)); }).rejected(), "bins-refused"); ev("refused");
    ev("histogram"); if (n && cnt[nb-1] == 0) ev("empty-last-bin"); std::string s; for (auto x : cnt) s += fmt("%zu,", std::min<size_t>(x, 3)); sig(s);
}
SCEN(histograms2d, 2000, 30000) {
    bool c; vec2d bx = gen_bins(rng, c), by = gen_bins(rng, c); size_t n = pick_size(rng), nx = bx.dims[1], ny = by.dims[1]; VD x = gen_values(rng, n, bx), y = gen_values(rng, n, by);
    vec1d vx = mk<double>(x), vy = mk<double>(y); std::vector<std::vector<size_t>> ids(nx*ny); std::vector<size_t> cnt(nx*ny);
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < nx; ++k) for (size_t l = 0; l < ny; ++l) if (x[i] >= bx(0, k) && x[i] < bx(1, k) && y[i] >= by(0, l) && y[i] < by(1, l)) { ids[k*ny + l].push_back(i); ++cnt[k*ny + l]; }
    vec2u h = histogram2d(vx, vy, bx, by); check(h.dims[0] == nx && h.dims[1] == ny && eqvec(flat(h), cnt), "histogram2d", svv(bx) + svv(by) + " x " + sdv(x) + " y " + sdv(y));
    std::vector<std::vector<size_t>> got(nx*ny); std::vector<int> called(nx*ny);
    histogram2d(vx, vy, bx, by, [&](uint_t i, uint_t j, vec1u id) { if (i < nx && j < ny) { ++called[i*ny + j]; got[i*ny + j] = flat(id); std::sort(got[i*ny + j].begin(), got[i*ny + j].end()); } });
    bool once = true; for (int k : called) once = once && k == 1; check(once, "histogram2d-function-called-once-per-bin", svv(bx) + svv(by) + " x " + sdv(x) + " y " + sdv(y)); check(got == ids, "histogram2d-function-indices", svv(bx) + svv(by));
    vec1d q(n+1); check(guarded([&]{ (void)histogram2d(vx, q, bx, by); }).rejected(), "histogram2d-mismatch-refused"); ev("refused"); ev("histogram2d"); sig(fmt("%zu %zu %zu", nx, ny, n));
}
SCEN(make_bins_, 1500, 15000) {
    double a = rng.gauss()*10, w = rng.d()*5 + 0.1; size_t n = rng.i(1, 20); vec2d b = make_bins(a, a + w, n); bool ok = b.dims[0] == 2 && b.dims[1] == n;
    for (size_t i = 0; ok && i < n; ++i) ok = close(b(0, i), a + w*i/n, 1e-12, 1e-11) && close(b(1, i), a + w*(i+1)/n, 1e-12, 1e-11) && (i == 0 || b(0, i) == b(1, i-1));
    check(ok, "make_bins", svv(b)); vec2d s = make_bins(a, a + w); check(s.dims[0] == 2 && s.dims[1] == 1 && s[0] == a && s[1] == a + w, "make_bins-single");
    size_t m = rng.i(0, 8); vec1d e; double x = a; for (size_t i = 0; i < m; ++i) { e.push_back(x); x += rng.d() + 0.01; }
    if (m < 2) { check(guarded([&]{ (void)make_bins_from_edges(e); }).rejected() && guarded([&]{ (void)make_bins_from_centers(e); }).rejected(), "make_bins-too-few-refused"); ev("refused"); }
    else {
        vec2d f = make_bins_from_edges(e); bool o = f.dims[0] == 2 && f.dims[1] == m-1; for (size_t i = 0; o && i+1 < m; ++i) o = f(0, i) == e[i] && f(1, i) == e[i+1]; check(o, "make_bins_from_edges", svv(e) + svv(f));
        vec2d g = make_bins_from_centers(e); bool q = g.dims[0] == 2 && g.dims[1] == m; for (size_t i = 0; q && i < m; ++i) q = (i == 0 || (g(0, i) == g(1, i-1) && close(g(0, i), 0.5*(e[i-1] + e[i]), 1e-13, 1e-13))) && g(0, i) < e[i] && e[i] < g(1, i);
        q = q && close(e[0] - g(0, 0), 0.5*(e[1] - e[0]), 1e-9) && close(g(1, m-1) - e[m-1], 0.5*(e[m-1] - e[m-2]), 1e-9); check(q, "make_bins_from_centers", svv(e) + svv(g));
    }
    VD y = data(rng, pick_size(rng), false, false, 5); for (auto& t : y) t = std::round(t); vec1d c = cumul(mk<double>(y)), r = cumul_reverse(mk<double>(y)); VD ec(y.size()), er(y.size()); double t = 0; for (size_t i = 0; i < y.size(); ++i) ec[i] = (t += y[i]); t = 0; for (size_t i = y.size(); i-- > 0;) er[i] = (t += y[i]);
    check(eqvec(flat(c), ec), "cumul-sum", sdv(y) + svv(c)); check(eqvec(flat(r), er), "cumul_reverse", sdv(y) + svv(r)); ev("bins"); sig(fmt("%zu %zu %zu", n, m, y.size()));
}
SCEN(sequences, 3000, 30000) {
    size_t n = rng.i(1, 30); int k = rng.i(0, 2);
    auto ckr = [&](const vec1d& v, double a, double b) { bool ok = v.size() == n && close(v[0], a, 1e-13, 1e-13) && (n == 1 || close(v[n-1], b, 1e-12, 1e-11)); for (size_t i = 0; ok && n > 1 && i < n; ++i) ok = close(v[i], a + (b - a)*i/(n-1), 1e-12, 1e-11); check(ok, "rgen", fmt("%g %g %zu ", a, b, n) + svv(v)); };
    auto ckl = [&](const vec1d& v, double a, double b) { bool ok = v.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = close(v[i], n == 1 ? a : a*std::pow(b/a, double(i)/(n-1)), 1e-10); check(ok, "rgen_log", fmt("%g %g %zu ", a, b, n) + svv(v)); };
    auto cks = [&](const vec1d& v, double a, double b, double s) {
        double q = std::fabs(b - a)/s; if (std::fabs(q - std::floor(q) - 0.5) < 1e-6) return; // as close to both
        size_t m = (size_t)std::round(q) + 1; double sg = b >= a ? 1 : -1; if (m == 1 && a != b) m = 2;
        bool ok = v.size() == m && v[0] == a && v[m-1] == (m == 1 ? a : b); for (size_t i = 0; ok && i + 1 < m; ++i) ok = close(v[i], a + sg*s*i, 1e-12, 1e-11);
        check(ok, "rgen_step", fmt("%g %g %g ", a, b, s) + svv(v)); };
    if (k == 0) { double a = rng.gauss()*10, b = rng.gauss()*10; ckr(rgen(a, b, n), a, b); double p = rng.d()*9 + 0.1, q = rng.d()*900 + 0.1; ckl(rgen_log(p, q, n), p, q); double s = rng.d()*3 + 0.05; cks(rgen_step(a, b, s), a, b, s); }
    else if (k == 1) { int a = rng.i(-20, 20), b = rng.i(-20, 20), s = rng.i(1, 7); ckr(rgen(a, b, n), a, b); cks(rgen_step(a, b, s), a, b, s); int p = rng.i(1, 20), q = rng.i(1, 20); ckl(rgen_log(p, q, n), p, q); }
    else { uint_t a = rng.i(0, 20), b = rng.i(0, 20); ckr(rgen(a, b, n), a, b); uint_t p = rng.i(1, 9), q = rng.i(1, 90); ckl(rgen_log(p, q, n), p, q); }
    check(guarded([&]{ (void)rgen_log(rng.b() ? 0.0 : -1.0, 2.0, n); }).rejected() && guarded([&]{ (void)rgen_step(0.0, 2.0, rng.b() ? 0.0 : -1.0); }).rejected(), "sequence-refused"); ev("refused"); ev("sequence"); sig(fmt("%d %zu", k, n));
}
#endif

#if PART == 2
// ------------------------------------------------------------------ interpolation and integration
namespace {
VD grid(Rng& rng, size_t n) { VD x(n); double t = rng.gauss()*3; bool reg = rng.d() < 0.2; double st = rng.pick<double>({1, 0.1, 5}); for (auto& q : x) { q = t; t += reg ? st : st*(0.02 + rng.d()*rng.d()*3); } return x; }
double lin(const VD& x, const VD& y, double t) { size_t n = x.size(), k = 0; while (k + 2 < n && x[k+1] <= t) ++k; return y[k] + (y[k+1] - y[k])*(t - x[k])/(x[k+1] - x[k]); }
size_t seg(const VD& x, double t) { size_t n = x.size(), k = 0; while (k + 2 < n && x[k+1] <= t) ++k; return k; }
// Natural cubic spline by solving for the second derivatives with a dense elimination
VD spline_m(const VD& x, const VD& y) {
    size_t n = x.size(); std::vector<std::vector<long double>> a(n, std::vector<long double>(n+1, 0)); a[0][0] = 1; a[n-1][n-1] = 1;
    for (size_t i = 1; i + 1 < n; ++i) { long double h0 = x[i] - x[i-1], h1 = x[i+1] - x[i]; a[i][i-1] = h0/6; a[i][i] = (h0 + h1)/3; a[i][i+1] = h1/6; a[i][n] = (y[i+1] - y[i])/h1 - (y[i] - y[i-1])/h0; }
    for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k+1; i < n; ++i) if (std::fabs((double)a[i][k]) > std::fabs((double)a[p][k])) p = i; std::swap(a[k], a[p]); for (size_t i = k+1; i < n; ++i) if (a[i][k] != 0) { long double f = a[i][k]/a[k][k]; for (size_t j = k; j <= n; ++j) a[i][j] -= f*a[k][j]; } }
    VD m(n); for (size_t i = n; i-- > 0;) { long double s = a[i][n]; for (size_t j = i+1; j < n; ++j) s -= a[i][j]*m[j]; m[i] = (double)(s/a[i][i]); } return m;
}
double spline(const VD& x, const VD& y, double t) {
    size_t n = x.size(); VD m = spline_m(x, y); double h0 = x[1] - x[0], h1 = x[n-1] - x[n-2];
    if (t < x[0]) return y[0] + (t - x[0])*((y[1] - y[0])/h0 - h0*(2*m[0] + m[1])/6);
    if (t > x[n-1]) return y[n-1] + (t - x[n-1])*((y[n-1] - y[n-2])/h1 + h1*(2*m[n-1] + m[n-2])/6);
    size_t k = seg(x, t); double h = x[k+1] - x[k], a = (x[k+1] - t)/h, b = (t - x[k])/h; return a*y[k] + b*y[k+1] + ((a*a*a - a)*m[k] + (b*b*b - b)*m[k+1])*h*h/6;
}
double maxabs(const VD& y) { double m = 0; for (double v : y) m = std::max(m, std::fabs(v)); return m; }
double pick_x(Rng& rng, const VD& x, bool inside) { double lo = x.front(), hi = x.back(); double u = rng.d(); if (u < 0.3) return x[rng.i(0, x.size()-1)]; if (u < 0.75 || inside) return std::min(hi, lo + rng.d()*(hi - lo)); return rng.b() ? lo - rng.d()*(hi - lo)*0.3 : hi + rng.d()*(hi - lo)*0.3; }
double trap(const VD& x, const VD& y, double a, double b) { // exact integral of the piecewise linear function
    VD p{a}; for (double t : x) if (t > a && t < b) p.push_back(t); p.push_back(b); long double s = 0; for (size_t i = 0; i + 1 < p.size(); ++i) s += 0.5L*(lin(x, y, p[i]) + lin(x, y, p[i+1]))*(p[i+1] - p[i]); return (double)s; }
}
SCEN(linear, 4000, 60000) {
    size_t n = rng.i(2, 25); VD x = grid(rng, n), y(n), e(n), t(rng.i(0, 12)); for (auto& q : y) q = rng.gauss()*10; for (auto& q : e) q = rng.d() + 0.1; for (auto& q : t) q = pick_x(rng, x, false);
    double sc = maxabs(y)*100; vec1d vx = mk<double>(x), vy = mk<double>(y), ve = mk<double>(e), vt = mk<double>(t); vec1d r = interpolate(vy, vx, vt); auto pr = interpolate(vy, ve, vx, vt); if (t.size()%2 == 0) { vec2d t2(2, t.size()/2); t2.data = vt.data; auto r2 = interpolate(vy, vx, t2); auto p2 = interpolate(vy, ve, vx, t2); check(r2.dims == t2.dims && p2.first.dims == t2.dims && p2.second.dims == t2.dims && r2.data == r.data && p2.first.data == pr.first.data && p2.second.data == pr.second.data, "interpolate-2d"); ev("positions-2d"); }
    if (check(r.size() == t.size() && pr.first.size() == t.size() && pr.second.size() == t.size(), "interpolate-size")) for (size_t i = 0; i < t.size(); ++i) {
        double ex = lin(x, y, t[i]), sl = 0; size_t k = seg(x, t[i]); sl = (std::fabs(y[k]) + std::fabs(y[k+1]))*(1 + std::fabs((t[i] - x[k])/(x[k+1] - x[k]))); double tol = 1e-9*sl + 1e-14*sc;
        check(nearv(r[i], ex, tol), "interpolate", fmt("x=%.17g got %.17g expected %.17g; ", t[i], r[i], ex) + sdv(x) + sdv(y)); double s = interpolate(vy, vx, t[i]); check(nearv(s, ex, tol), "interpolate-scalar", fmt("x=%.17g got %.17g expected %.17g; ", t[i], s, ex) + sdv(x) + sdv(y));
        double a = (t[i] - x[k])/(x[k+1] - x[k]), ee = std::sqrt(std::pow(e[k]*(1-a), 2) + std::pow(e[k+1]*a, 2)); check(nearv(pr.first[i], ex, tol) && nearv(pr.second[i], ee, 1e-8*(1 + ee)), "interpolate-error", fmt("x=%.17g got %.17g +/- %.17g expected %.17g +/- %.17g; ", t[i], pr.first[i], pr.second[i], ex, ee) + sdv(x));
        check(nearv(interpolate(y[k], y[k+1], x[k], x[k+1], t[i]), ex, tol), "interpolate-two-points"); auto ie = interpolate_err(y[k], y[k+1], e[k], e[k+1], x[k], x[k+1], t[i]); check(nearv(ie.first, ex, tol) && nearv(ie.second, ee, 1e-8*(1 + ee)), "interpolate_err");
        ev(t[i] < x[0] || t[i] > x[n-1] ? "extrapolated" : "interpolated"); }
    vec1d sh(n-1), one{1.0}; check(guarded([&]{ (void)interpolate(vy, sh, vt); }).rejected() && guarded([&]{ (void)interpolate(vy, sh, 1.0); }).rejected() && guarded([&]{ (void)interpolate(vy, sh, vx, vt); }).rejected() && guarded([&]{ (void)interpolate(one, one, 1.0); }).rejected() && guarded([&]{ (void)interpolate(one, one, vt); }).rejected(), "interpolate-refused"); ev("refused"); sig(fmt("%zu %zu", n, t.size()));
}
// the same with data and positions of other types than real numbers
template<typename TY, typename TX, typename TN> void typed_linear(Rng& rng) { using L = long double;
    size_t n = rng.u(2, 8); bool un = std::is_unsigned<TX>::value || std::is_unsigned<TN>::value; std::vector<TX> x; TX c = un ? (TX)rng.u(0, 20) : (TX)rng.i(-20, 20); for (size_t i = 0; i < n; ++i) { x.push_back(c); c += rng.u(1, 9); } std::vector<TY> y; for (size_t i = 0; i < n; ++i) y.push_back(std::is_unsigned<TY>::value ? (TY)rng.u(0, 30) : (TY)rng.i(-30, 30)); std::vector<TN> t; for (size_t k = rng.u(0, 6); k > 0; --k) { double q = rng.b(0.3) ? (double)x[rng.u(0, n-1)] : rng.d((double)x[0] - 6, (double)x[n-1] + 6); if (un && q < 0) q = 0; t.push_back(std::is_integral<TN>::value ? (TN)std::floor(q) : (TN)q); }
    std::vector<double> e; for (size_t i = 0; i < n; ++i) e.push_back(rng.d(0, 3)); vec<1,TY> vy; vec<1,TX> vx; vec<1,TN> vt; vec1d ve = mk<double>(e); for (auto q : y) vy.push_back(q); for (auto q : x) vx.push_back(q); for (auto q : t) vt.push_back(q); vh::note("interpolate " + svv(vy) + " at " + svv(vt) + " known at " + svv(vx)); auto r = interpolate(vy, vx, vt); auto pr = interpolate(vy, ve, vx, vt); check(r.size() == t.size() && pr.first.size() == t.size() && pr.second.size() == t.size(), "typed-size");
    for (size_t i = 0; i < t.size() && i < r.size(); ++i) { size_t k = 0; while (k + 2 < n && (double)t[i] >= (double)x[k+1]) ++k; L a = ((L)t[i] - (L)x[k])/((L)x[k+1] - (L)x[k]), ex = (L)y[k] + ((L)y[k+1] - (L)y[k])*a, ee = std::sqrt((e[k]*(1-a))*(e[k]*(1-a)) + e[k+1]*a*e[k+1]*a); double tol = 1e-3; check(std::fabs((double)(r[i] - ex)) <= tol && std::fabs((double)(interpolate(vy, vx, t[i]) - ex)) <= tol, "typed-interpolate", fmt("%g: %g expected %Lg", (double)t[i], (double)r[i], ex)); check(std::fabs((double)(pr.first[i] - ex)) <= tol && std::fabs((double)(pr.second[i] - ee)) <= tol, "typed-interpolate-error", fmt("%g: %g +/- %g expected %Lg +/- %Lg", (double)t[i], (double)pr.first[i], (double)pr.second[i], ex, ee)); }
    ev("typed");
}
SCEN(typed_linear_, 3000, 40000) { switch (rng.i(0, 6)) { case 0: typed_linear<uint_t,double,double>(rng); break; case 1: typed_linear<double,int,int>(rng); break; case 2: typed_linear<double,uint_t,uint_t>(rng); break; case 3: typed_linear<float,int,double>(rng); break; case 4: typed_linear<int,float,float>(rng); break; case 5: typed_linear<unsigned char,double,int>(rng); break; default: typed_linear<double,uint_t,int>(rng); } }
SCEN(spline_, 2500, 30000) {
    size_t n = rng.i(2, 14); bool reg = rng.d() < 0.4; VD x = grid(rng, n), y(n), t(rng.i(1, 8)); for (auto& q : y) q = rng.gauss()*3; if (reg) for (size_t i = 0; i < n; ++i) x[i] = i; for (auto& q : t) q = pick_x(rng, x, false);
    VD m = spline_m(x, y); double hmax = 0; for (size_t i = 0; i + 1 < n; ++i) hmax = std::max(hmax, x[i+1] - x[i]); double sc = maxabs(y) + maxabs(m)*hmax*hmax; vec1d vx = mk<double>(x), vy = mk<double>(y), vt = mk<double>(t); vec1d r = interpolate_3spline(vy, vx, vt), rr; if (reg) rr = interpolate_3spline(vy, vt);
    for (size_t i = 0; i < t.size(); ++i) { double ex = spline(x, y, t[i]), out = std::max(0.0, std::max(x[0] - t[i], t[i] - x[n-1])), hmin = hmax; for (size_t k = 0; k + 1 < n; ++k) hmin = std::min(hmin, x[k+1] - x[k]); double tol = 1e-8*sc*(1 + out/hmin);
        check(nearv(r[i], ex, tol), "interpolate_3spline", fmt("x=%.17g got %.17g expected %.17g; ", t[i], r[i], ex) + sdv(x) + sdv(y)); double s = interpolate_3spline(vy, vx, t[i]); check(nearv(s, ex, tol), "interpolate_3spline-scalar", fmt("x=%.17g got %.17g expected %.17g", t[i], s, ex));
        if (reg) { check(nearv(rr[i], ex, tol), "interpolate_3spline-regular", fmt("x=%.17g got %.17g expected %.17g; ", t[i], rr[i], ex) + sdv(y)); check(nearv((double)interpolate_3spline(vy, t[i]), ex, tol), "interpolate_3spline-regular-scalar"); } }
    vec1d one{1.0}; check(guarded([&]{ (void)interpolate_3spline(one, one, vt); }).rejected() && guarded([&]{ vec1d q(n+1); (void)interpolate_3spline(vy, q, vt); }).rejected() && guarded([&]{ (void)interpolate_3spline(one, 0.5); }).rejected(), "spline-refused"); ev("refused"); ev(reg ? "spline-regular" : "spline"); sig(fmt("%zu %d", n, reg));
}
SCEN(maps, 3000, 40000) {
    size_t a = rng.i(0, 9), b = rng.i(0, 9); vec2d m(a, b); for (auto& q : m) q = rng.gauss()*5; auto px = [&](size_t n) { double u = rng.d(); return u < 0.3 ? double(rng.i(-1, n)) : rng.d()*(n + 2.0) - 1.5; }; double x = px(a), y = px(b), def = 123.5;
    vh::note(fmt("%zu x %zu at %.17g %.17g", a, b, x, y));
    if (a < 2 || b < 2) { check(guarded([&]{ (void)bilinear(m, x, y); }).rejected(), "bilinear-too-small-refused"); ev("refused"); (void)bilinear_strict(m, x, y, def); (void)bicubic_strict(m, x, y, def); ev("tiny-map"); return; }
    auto at = [&](double i, double j) { size_t k = i < 0 ? 0 : std::min<size_t>(i, a-2), l = j < 0 ? 0 : std::min<size_t>(j, b-2); double dx = x - k, dy = y - l; return m(k, l)*(1-dx)*(1-dy) + m(k+1, l)*dx*(1-dy) + m(k, l+1)*(1-dx)*dy + m(k+1, l+1)*dx*dy; }; double ex = at(x, y); double tol = 1e-10;
    check(nearv(bilinear(m, x, y), ex, tol), "bilinear", fmt("%zu x %zu at %.17g %.17g got %.17g expected %.17g", a, b, x, y, bilinear(m, x, y), ex));
    bool in = x >= 0 && y >= 0 && x <= a-1 && y <= b-1; double es = in ? ex : def; check(nearv(bilinear_strict(m, x, y, def), es, tol), "bilinear_strict", fmt("%zu x %zu at %.17g %.17g got %.17g expected %.17g", a, b, x, y, bilinear_strict(m, x, y, def), es)); ev(in ? "inside" : "outside");
    bool cub = std::floor(x) >= 1 && std::floor(y) >= 1 && std::floor(x) + 2 < a && std::floor(y) + 2 < b; double ec = def;
    if (cub) { size_t k = std::floor(x) - 1, l = std::floor(y) - 1; VD g{0, 1, 2, 3}, c; for (size_t i = 0; i < 4; ++i) { VD q; for (size_t j = 0; j < 4; ++j) q.push_back(m(k+i, l+j)); c.push_back(spline(g, q, y - l)); } ec = spline(g, c, x - k); ev("bicubic"); }
    check(nearv(bicubic_strict(m, x, y, def), ec, 1e-9), "bicubic_strict", fmt("%zu x %zu at %.17g %.17g got %.17g expected %.17g", a, b, x, y, (double)bicubic_strict(m, x, y, def), ec));
    VD gx = grid(rng, a), gy = grid(rng, b), nx(rng.i(1, 4)), ny(rng.i(1, 4)); for (auto& q : nx) q = pick_x(rng, gx, false); for (auto& q : ny) q = pick_x(rng, gy, false); vec1d vgx = mk<double>(gx), vgy = mk<double>(gy); vec2d rb = rebin(m, vgx, vgy, mk<double>(nx), mk<double>(ny)); bool ok = rb.dims[0] == nx.size() && rb.dims[1] == ny.size(); double worst = 0;
    for (size_t i = 0; ok && i < nx.size(); ++i) for (size_t j = 0; j < ny.size(); ++j) { size_t k = seg(gx, nx[i]), l = seg(gy, ny[j]); double u = (nx[i] - gx[k])/(gx[k+1] - gx[k]), v = (ny[j] - gy[l])/(gy[l+1] - gy[l]); double e2 = m(k, l)*(1-u)*(1-v) + m(k+1, l)*u*(1-v) + m(k, l+1)*(1-u)*v + m(k+1, l+1)*u*v; double sc = (1 + std::fabs(u))*(1 + std::fabs(v))*30; ok = ok && nearv(rb(i, j), e2, 1e-8*sc); worst = std::max(worst, std::fabs(rb(i, j) - e2)); double e3 = bilinear(m, vgx, vgy, nx[i], ny[j]); ok = ok && nearv(e3, e2, 1e-8*sc); }
    { size_t h = rng.u(0, 3), w = rng.u(1, 3); vec2d qx(h, w), qy(h, w); for (auto& q : qx) q = pick_x(rng, gx, false); for (auto& q : qy) q = pick_x(rng, gy, false); auto bv = bilinear(m, vgx, vgy, qx, qy); bool o2 = bv.dims == qx.dims; for (size_t i = 0; o2 && i < bv.size(); ++i) { double w1 = bilinear(m, vgx, vgy, qx.safe[i], qy.safe[i]); o2 = nearv(bv.safe[i], w1, 1e-9*(1 + std::fabs(w1))); } check(o2, "bilinear-many", ""); vec2d bad(h + 1, w); check(guarded([&]{ (void)bilinear(m, vgx, vgy, qx, bad); }).rejected() && guarded([&]{ vec1d q(a + 1); (void)bilinear(m, q, vgy, qx, qy); }).rejected() && guarded([&]{ vec1d q(b + 1); (void)bilinear(m, vgx, q, 0.0, 0.0); }).rejected(), "bilinear-refused"); ev("bilinear-many"); }
    check(ok, "rebin", fmt("worst %g ", worst) + sdv(gx) + sdv(gy) + sdv(nx) + sdv(ny)); check(guarded([&]{ vec1d q(a+1); (void)rebin(m, q, vgy, vgx, vgy); }).rejected(), "rebin-refused"); ev("refused"); sig(fmt("%zu %zu %d %d", a, b, in, cub));
}
SCEN(integrals, 4000, 60000) {
    size_t n = rng.d() < 0.1 ? rng.i(0, 1) : rng.i(2, 20); VD x = grid(rng, n), y(n); for (auto& q : y) q = rng.gauss()*4; vec1d vx = mk<double>(x), vy = mk<double>(y); double all = n >= 2 ? trap(x, y, x[0], x[n-1]) : 0, sc = n >= 2 ? maxabs(y)*(x[n-1] - x[0]) : 1; double tol = 1e-9*sc; vh::note(sdv(x) + sdv(y));
    check(nearv(integrate(vx, vy), all, tol), "integrate", sdv(x) + sdv(y)); vec1d c = cumul(vx, vy); bool ok = c.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = nearv(c[i], i == 0 ? 0.0 : trap(x, y, x[0], x[i]), tol); check(ok, "cumul", sdv(x) + sdv(y) + svv(c));
    if (n == 0) { ev("empty"); check(guarded([&]{ (void)integrate(vx, vy, 0, 1); }).rejected(), "integrate-empty-refused"); return; }
    if (n >= 2) { uint_t hint = npos; double last = x[0]; for (int k = 0; k < 5; ++k) { double p = pick_x(rng, x, true), q = pick_x(rng, x, true); if (p > q) std::swap(p, q); if (rng.d() < 0.1) q = p; double ex = trap(x, y, p, q), g = integrate(vx, vy, p, q); check(nearv(g, ex, tol), "integrate-interval", fmt("[%.17g, %.17g] got %.17g expected %.17g; ", p, q, g, ex) + sdv(x) + sdv(y));
            // hints: a sequence of intervals of increasing position
            double lo = std::max(p, last), hi = std::max(q, lo); uint_t h = rng.b() ? hint : npos; double g2 = integrate_hinted(vx, vy, h, lo, hi); double e2 = trap(x, y, lo, hi); check(nearv(g2, e2, tol), "integrate_hinted", fmt("[%.17g, %.17g] got %.17g expected %.17g; ", lo, hi, g2, e2) + sdv(x) + sdv(y)); check(h < n, "integrate_hinted-hint", fmt("%zu of %zu", h, n)); hint = h; last = hi; if (p == x[n-1]) ev("starts-at-end"); }
        check(guarded([&]{ (void)integrate(vx, vy, x[0] - 1, x[n-1]); }).rejected() && guarded([&]{ (void)integrate(vx, vy, x[0], x[n-1] + 1); }).rejected() && guarded([&]{ vec1d q(n+1); (void)integrate(vx, q); }).rejected() && guarded([&]{ vec1d q(n+1); (void)cumul(vx, q); }).rejected(), "integrate-refused"); ev("refused"); }
    // binned data, with gaps
    size_t nb = rng.i(1, 10); VD ed = grid(rng, 2*nb + 1); bool gap = rng.b(); vec2d b(2, nb); vec1d by(nb); for (size_t i = 0; i < nb; ++i) { b(0, i) = ed[gap ? 2*i : i]; b(1, i) = ed[gap ? 2*i + 1 : i+1]; by[i] = rng.gauss()*3; } double lo = b(0, 0), hi = b(1, nb-1); auto ref = [&](double p, double q) { double s = 0; for (size_t i = 0; i < nb; ++i) { double u = std::max(p, b(0, i)), v = std::min(q, b(1, i)); if (u < v) s += by[i]*(v - u); } return s; }; double bt = 1e-10*(1 + (hi - lo)*10);
    check(nearv(integrate(b, by), ref(lo, hi), bt), "integrate-binned", svv(b) + svv(by)); double p = lo + rng.d()*(hi - lo), q = lo + rng.d()*(hi - lo); if (rng.d() < 0.3) p = b(0, rng.i(0, nb-1)); if (rng.d() < 0.3) q = b(1, rng.i(0, nb-1)); if (p > q) std::swap(p, q); double g = integrate(b, by, p, q); check(nearv(g, ref(p, q), bt), "integrate-binned-interval", fmt("[%.17g, %.17g] got %.17g expected %.17g; ", p, q, g, ref(p, q)) + svv(b) + svv(by)); ev("binned"); ev("integrals"); sig(fmt("%zu %zu %d", n, nb, gap));
}
SCEN(functions_, 400, 4000) {
    int k = rng.i(0, 3); double a = rng.gauss()*2, b = a + rng.d()*3 + 0.1; double c0 = rng.gauss(), c1 = rng.gauss(), c2 = rng.gauss(), c3 = rng.gauss();
    if (k == 0) { auto f = [&](double x) { return c0 + c1*x + c2*x*x + c3*x*x*x; }; auto F = [&](double x) { return c0*x + c1*x*x/2 + c2*x*x*x/3 + c3*x*x*x*x/4; }; double g = integrate_func(f, a, b, 1e-9), e = F(b) - F(a); check(nearv(g, e, 1e-7*(std::fabs(F(b)) + std::fabs(F(a)) + 1)), "integrate_func-polynomial", fmt("got %.17g expected %.17g", g, e)); }
    else if (k == 1) { double g = integrate_func([](double x) { return std::exp(-x*x); }, a, b, 1e-8), e = 0.5*std::sqrt(dpi)*(std::erf(b) - std::erf(a)); check(nearv(g, e, 1e-3*std::max(1e-3, std::fabs(e))), "integrate_func-gaussian", fmt("%g %g got %.17g expected %.17g", a, b, g, e)); double xc = rng.gauss(), xw = rng.d() + 0.3, am = rng.d()*5 + 0.1; double h = integrate_gauss(a, b, xc, xw, am), eh = am*0.5*(std::erf((b - xc)/(std::sqrt(2.0)*xw)) - std::erf((a - xc)/(std::sqrt(2.0)*xw)))/(b - a); check(nearv(h, eh, 1e-10*(std::fabs(am/(b - a)))), "integrate_gauss", fmt("got %.17g expected %.17g", h, eh)); }
    else if (k == 2) { double e = 2.0/3.0*std::pow(b - a, 1.5), tol = std::pow(10.0, -rng.i(3, 8)); double g = integrate_func([&](double x) { return std::sqrt(std::max(0.0, x - a)); }, a, b, tol); check(nearv(g, e, 0.01*e + 200*tol*e), "integrate_func-slow", fmt("accuracy %g got %.17g expected %.17g", tol, g, e)); ev("slow-convergence"); }
    else { double g = integrate_func([&](double x) { return std::sin(x) + 2.0; }, a, b, 1e-9), e = 2*(b - a) - std::cos(b) + std::cos(a); check(nearv(g, e, 1e-7*e), "integrate_func-sine", fmt("got %.17g expected %.17g", g, e)); }
    ev("integrate_func"); sig(fmt("%d", k));
}
SCEN(convolve1d, 600, 6000) {
    size_t n = rng.i(4, 20); VD x = grid(rng, n), y1(n), y2(n); for (auto& q : y1) q = rng.gauss(); for (auto& q : y2) q = rng.gauss(); vec1d r = convolve(mk<double>(x), mk<double>(y1), mk<double>(y2)); bool ok = r.size() == n; double sc = 0, worst = 0; VD e(n), s(n);
    for (size_t i = 0; i < n; ++i) { double dx = i == 0 ? x[1] - x[0] : x[i] - x[i-1]; VD xs(n); for (size_t j = 0; j < n; ++j) xs[j] = x[j] + x[i]; for (size_t j = 0; j < n; ++j) { size_t k = seg(xs, x[j]); double a = std::fabs((x[j] - xs[k])/(xs[k+1] - xs[k])); e[j] += y1[i]*dx*lin(xs, y2, x[j]); s[j] += std::fabs(y1[i]*dx)*5*(1 + a); } }
    for (size_t i = 0; ok && i < n; ++i) { ok = nearv(r[i], e[i], 1e-7*s[i]); } check(ok, "convolve", sdv(x) + sdv(y1) + sdv(y2)); vec1d q(n+1), t(2); check(guarded([&]{ (void)convolve(mk<double>(x), q, q); }).rejected() && guarded([&]{ (void)convolve(t, t, t); }).rejected(), "convolve-refused"); ev("refused"); ev("convolve"); sig(fmt("%zu", n));
}
#endif

#if PART == 3
// ------------------------------------------------------------------ matrices
namespace {
using matrix::mat2d; using matrix::mat;
using LM = std::vector<std::vector<long double>>;
template<typename M> LM lm(const M& m) { LM r(m.dims[0], std::vector<long double>(m.dims[1])); for (size_t i = 0; i < m.dims[0]; ++i) for (size_t j = 0; j < m.dims[1]; ++j) r[i][j] = m.safe(i, j); return r; }
double norm(const LM& a) { long double s = 0; for (auto& r : a) for (auto x : r) s = std::max<long double>(s, std::fabs((double)x)); return s; }
LM mul(const LM& a, const LM& b) { size_t n = a.size(), k = b.size(), m = k ? b[0].size() : 0; LM r(n, std::vector<long double>(m)); for (size_t i = 0; i < n; ++i) for (size_t l = 0; l < k; ++l) for (size_t j = 0; j < m; ++j) r[i][j] += a[i][l]*b[l][j]; return r; }
bool same(const LM& a, const LM& b, double tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) if (!(std::fabs((double)(a[i][j] - b[i][j])) <= tol)) return false; } return true; }
LM eye(size_t n) { LM r(n, std::vector<long double>(n)); for (size_t i = 0; i < n; ++i) r[i][i] = 1; return r; }
LM tr(const LM& a) { size_t n = a.size(), m = n ? a[0].size() : 0; LM r(m, std::vector<long double>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) r[j][i] = a[i][j]; return r; }
long double det(LM a) { size_t n = a.size(); long double d = 1; for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs((double)a[i][k]) > std::fabs((double)a[p][k])) p = i; if (a[p][k] == 0) return 0; if (p != k) { std::swap(a[p], a[k]); d = -d; } d *= a[k][k]; for (size_t i = k+1; i < n; ++i) { long double f = a[i][k]/a[k][k]; for (size_t j = k; j < n; ++j) a[i][j] -= f*a[k][j]; } } return d; }
std::string sm(const mat2d& m) { return sd(m.dims) + svv(m.base); }
mat2d rmat(Rng& rng, size_t n, size_t m) { mat2d r(n, m); bool in = rng.b(); for (auto& x : r) x = in ? rng.i(-5, 5) : rng.gauss(); return r; }
// Well conditioned square matrix, with rows in random order so that pivots are needed
mat2d good(Rng& rng, size_t n) { mat2d r = rmat(rng, n, n); std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); rng.shuffle(p); for (size_t i = 0; i < n; ++i) r(i, p[i]) += (rng.b() ? 1 : -1)*(6.0*n); if (rng.b()) for (size_t i = 0; i < n; ++i) { double s = std::pow(2.0, rng.i(-4, 4)); for (size_t j = 0; j < n; ++j) r(i, j) *= s; } return r; }
mat2d spd(Rng& rng, size_t n) { mat2d b = rmat(rng, n, n); mat2d r(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { for (size_t k = 0; k < n; ++k) r(i, j) += b(i, k)*b(j, k); if (i == j) r(i, j) += 1.0 + n; } return r; }
}
SCEN(algebra, 2500, 30000) {
    size_t n = rng.i(0, 6), k = rng.i(0, 6), m = rng.i(0, 6); mat2d a = rmat(rng, n, k), b = rmat(rng, k, m), c = rmat(rng, n, k); LM la = lm(a), lb = lm(b), lc = lm(c); double s = rng.i(-4, 4); double tl = 1e-10;
    if (k > 0) { auto p = a*b; check(p.dims[0] == n && p.dims[1] == m && same(lm(p), mul(la, lb), tl), "matrix-product", sm(a) + sm(b)); }
    auto ew = [&](const mat2d& r, auto f, const char* w) { bool ok = r.dims[0] == n && r.dims[1] == k; for (size_t i = 0; ok && i < n; ++i) for (size_t j = 0; j < k; ++j) ok = ok && nearv(r.safe(i, j), f(i, j), 1e-12*(1 + std::fabs(f(i, j)))); check(ok, w, sm(a) + sm(c)); };
    ew(a + c, [&](size_t i, size_t j) { return (double)(la[i][j] + lc[i][j]); }, "matrix-add"); ew(a - c, [&](size_t i, size_t j) { return (double)(la[i][j] - lc[i][j]); }, "matrix-subtract"); ew(a*s, [&](size_t i, size_t j) { return (double)(la[i][j]*s); }, "matrix-scale"); ew(s*a, [&](size_t i, size_t j) { return (double)(la[i][j]*s); }, "scale-matrix"); ew(a/(s + 0.5), [&](size_t i, size_t j) { return (double)(la[i][j]/(s + 0.5)); }, "matrix-divide");
    ew(a + s, [&](size_t i, size_t j) { return (double)(la[i][j] + s); }, "matrix+scalar"); ew(s - a, [&](size_t i, size_t j) { return (double)(s - la[i][j]); }, "scalar-matrix"); ew(-a, [&](size_t i, size_t j) { return -(double)la[i][j]; }, "matrix-negate");
    mat2d q = a; q += c; ew(q, [&](size_t i, size_t j) { return (double)(la[i][j] + lc[i][j]); }, "matrix+="); q -= a; ew(q, [&](size_t i, size_t j) { return (double)lc[i][j]; }, "matrix-="); q = a; q *= s; ew(q, [&](size_t i, size_t j) { return (double)(la[i][j]*s); }, "matrix*=scalar"); q = a; q /= 2.0; ew(q, [&](size_t i, size_t j) { return (double)(la[i][j]/2); }, "matrix/=scalar"); check(same(lm(a), la, 0) && same(lm(c), lc, 0), "matrix-operands-unchanged");
    if (k > 0 && n > 0) { mat2d sq = rmat(rng, k, k); mat2d u = a; u *= sq; check(same(lm(u), mul(la, lm(sq)), tl), "matrix*=matrix", sm(a) + sm(sq)); mat2d w = sq; w *= w; check(same(lm(w), mul(lm(sq), lm(sq)), tl), "matrix*=itself", sm(sq));
        vec1d v(k); for (auto& x : v) x = rng.gauss(); vec1d av = a*v; bool ok = av.size() == n; for (size_t i = 0; ok && i < n; ++i) { long double e = 0; for (size_t j = 0; j < k; ++j) e += la[i][j]*v[j]; ok = nearv(av[i], e, tl); } check(ok, "matrix-vector", sm(a)); vec1d w2(n); for (auto& x : w2) x = rng.gauss(); vec1d va = w2*a; ok = va.size() == k; for (size_t j = 0; ok && j < k; ++j) { long double e = 0; for (size_t i = 0; i < n; ++i) e += la[i][j]*w2[i]; ok = nearv(va[j], e, tl); } check(ok, "vector-matrix", sm(a));
        vec1d bad(k+1); check(guarded([&]{ (void)(a*bad); }).rejected() && guarded([&]{ (void)(a*rmat(rng, k+1, 2)); }).rejected() && guarded([&]{ vec1d b2(n+1); (void)(b2*a); }).rejected() && guarded([&]{ (void)(a + rmat(rng, n, k+1)); }).rejected(), "matrix-mismatch-refused"); ev("refused"); }
    check((n == 0 || same(lm(matrix::transpose(a)), tr(la), 0)) && matrix::transpose(a).dims[0] == k && matrix::transpose(a).dims[1] == n, "matrix-transpose", sm(a)); mat2d sy = rmat(rng, n, n); LM l0 = lm(sy); matrix::inplace_symmetrize(sy); bool ok = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ok = ok && sy(i, j) == (double)(i >= j ? l0[i][j] : l0[j][i]); check(ok, "inplace_symmetrize", sm(sy)); vec1d dg = matrix::diagonal(sy); ok = dg.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = dg[i] == (double)l0[i][i]; check(ok, "diagonal"); matrix::diagonal(sy) = 7.0; for (size_t i = 0; i < n; ++i) ok = ok && sy(i, i) == 7.0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) ok = ok && sy(i, j) == (double)l0[i][j]; check(ok, "diagonal-assign");
    check(same(lm(matrix::make_identity(n)), eye(n), 0), "make_identity"); vec1d dv(n); for (auto& x : dv) x = rng.gauss(); mat2d ad = matrix::as_diagonal(dv); ok = ad.dims[0] == n && ad.dims[1] == n; for (size_t i = 0; ok && i < n; ++i) for (size_t j = 0; j < n; ++j) ok = ok && ad(i, j) == (i == j ? dv[i] : 0.0); check(ok, "as_diagonal");
    if (n != k) { check(guarded([&]{ (void)matrix::diagonal(a); }).rejected() && guarded([&]{ mat2d z = a; matrix::inplace_symmetrize(z); }).rejected(), "non-square-refused"); ev("refused"); } ev("algebra"); sig(fmt("%zu %zu %zu", n, k, m));
}
SCEN(transforms, 500, 5000) {
    double sx = rng.gauss(), sy = rng.gauss(), tx = rng.gauss(), ty = rng.gauss(), a = rng.gauss()*3, x = rng.gauss(), y = rng.gauss(); vec1d p{x, y, 1.0}; auto ck = [&](const vec1d& r, double ex, double ey, const char* w) { check(r.size() == 3 && nearv(r[0], ex, 1e-12) && nearv(r[1], ey, 1e-12) && nearv(r[2], 1, 1e-14), w, svv(r)); };
    ck(matrix::make_scale(sx, sy)*p, sx*x, sy*y, "make_scale"); ck(matrix::make_scale(sx)*p, sx*x, sx*y, "make_scale-1"); ck(matrix::make_translation(tx, ty)*p, x + tx, y + ty, "make_translation"); ck(matrix::make_rotation(a)*p, x*std::cos(a) - y*std::sin(a), x*std::sin(a) + y*std::cos(a), "make_rotation");
    vec1d r = matrix::make_translation(tx, ty)*(matrix::make_rotation(a)*(matrix::make_scale(sx, sy)*p)), r2 = (matrix::make_translation(tx, ty)*matrix::make_rotation(a)*matrix::make_scale(sx, sy))*p; check(nearv(r[0], r2[0], 1e-11) && nearv(r[1], r2[1], 1e-11), "transform-composition"); ev("transforms"); sig("t");
}
SCEN(systems, 2500, 30000) {
    size_t n = rng.i(1, 9); mat2d a = good(rng, n); vec1d b(n); for (auto& x : b) x = rng.gauss(); LM la = lm(a); double na = norm(la); vh::note(sm(a));
    matrix::decompose_lu lu; bool ok = lu.decompose(a); check(ok && !lu.bad && lu.size() == n, "lu-regular", sm(a)); auto res = [&](const LM& m, const vec1d& x) { double r = 0; for (size_t i = 0; i < n; ++i) { long double s = -b[i]; for (size_t j = 0; j < n; ++j) s += m[i][j]*x[j]; r = std::max(r, std::fabs((double)s)); } return r; };
    double tl = 1e-9*(na + 1); vec1d x = lu.solve(b); check(x.size() == n && res(la, x) <= tl, "lu-solve", sm(a) + svv(b) + svv(x)); check(same(mul(la, lm(lu.invert())), eye(n), 1e-8), "lu-invert", sm(a)); long double d = det(la); check(nearv(lu.determinant(), d, 1e-9*std::fabs((double)d)), "lu-determinant", sm(a) + fmt(" got %g expected %g", lu.determinant(), (double)d)); check(nearv(matrix::determinant(a), d, 1e-9*std::fabs((double)d)), "determinant", sm(a));
    vec1d y; check(matrix::solve(a, b, y) && y.size() == n && res(la, y) <= tl, "solve", sm(a) + svv(b) + " got " + svv(y)); mat2d a2 = a; vec1d b2 = b; check(matrix::inplace_solve(a2, b2) && res(la, b2) <= tl, "inplace_solve", sm(a) + svv(b)); mat2d inv; check(matrix::invert(a, inv) && same(mul(la, lm(inv)), eye(n), 1e-8), "invert", sm(a)); mat2d ip = a; check(matrix::inplace_invert(ip) && same(mul(lm(ip), la), eye(n), 1e-8), "inplace_invert", sm(a)); check(same(lm(a), la, 0), "solve-leaves-input");
    // diagonally dominant: no pivoting needed
    mat2d dd = rmat(rng, n, n); for (size_t i = 0; i < n; ++i) dd(i, i) = 6.0*n + rng.d(); LM ld = lm(dd); matrix::decompose_lu np; np.no_pivot = true; check(np.decompose(dd) && res(ld, np.solve(b)) <= 1e-8*(norm(ld) + 1) && same(mul(ld, lm(np.invert())), eye(n), 1e-8) && nearv(np.determinant(), det(ld), 1e-9*std::fabs((double)det(ld))), "lu-no-pivot", sm(dd));
    // singular: a null row or column
    mat2d sg = rmat(rng, n, n); size_t z = rng.i(0, n-1); bool row = rng.b(); for (size_t i = 0; i < n; ++i) (row ? sg(z, i) : sg(i, z)) = 0; matrix::decompose_lu ls; mat2d o; vec1d ox; check(!ls.decompose(sg) && ls.bad && !matrix::invert(sg, o) && !matrix::solve(sg, b, ox) && matrix::determinant(sg) == 0.0, "singular-reported", sm(sg)); check(lu.decompose(a) && !lu.bad, "lu-reused"); ev("singular");
    mat2d ns(n, n+1); check(guarded([&]{ matrix::decompose_lu q; q.decompose(ns); }).rejected() && guarded([&]{ mat2d q = ns; matrix::inplace_invert(q); }).rejected() && guarded([&]{ vec1d bb(n+1), xx; (void)matrix::solve(a, bb, xx); }).rejected() && guarded([&]{ vec1d bb(n+1); (void)lu.solve(bb); }).rejected() && guarded([&]{ (void)matrix::determinant(ns); }).rejected(), "systems-refused"); ev("refused"); ev("systems"); sig(fmt("%zu %zu", n, lu.ns));
}
SCEN(symmetric, 2500, 30000) {
    size_t n = rng.i(1, 9); mat2d a = spd(rng, n); LM la = lm(a); vec1d b(n); for (auto& x : b) x = rng.gauss(); double tl = 1e-8*(norm(la) + 1); auto res = [&](const LM& m, const vec1d& x) { double r = 0; for (size_t i = 0; i < n; ++i) { long double s = -b[i]; for (size_t j = 0; j < n; ++j) s += m[i][j]*x[j]; r = std::max(r, std::fabs((double)s)); } return r; }; vh::note(sm(a));
    matrix::decompose_cholesky ch; check(ch.decompose(a) && !ch.bad && ch.size() == n, "cholesky"); LM l = lm(ch.l); bool low = true; for (size_t i = 0; i < n; ++i) for (size_t j = i+1; j < n; ++j) low = low && l[i][j] == 0; check(low && same(mul(l, tr(l)), la, tl), "cholesky-factor", sm(a) + sm(ch.l)); check(res(la, ch.solve(b)) <= tl, "cholesky-solve", sm(a)); check(same(mul(la, lm(ch.invert())), eye(n), 1e-8), "cholesky-invert", sm(a)); check(same(mul(l, lm(ch.lower_inverse())), eye(n), 1e-8), "cholesky-lower-inverse", sm(a)); vec1d f = ch.substitute_forward(b), g = ch.substitute_backward(b); check(res(l, f) <= tl && res(tr(l), g) <= tl, "cholesky-substitute", sm(a)); double sq = std::sqrt((double)det(la)); check(nearv(ch.lower_determinant(), sq, 1e-9*sq) && nearv(ch.log_lower_determinant(), std::log(sq), 1e-9*(1 + std::fabs(std::log(sq)))), "cholesky-determinant");
    mat2d np = a; size_t z = rng.i(0, n-1); np(z, z) = -1 - rng.d(); matrix::decompose_cholesky c2; check(!c2.decompose(np) && c2.bad, "cholesky-not-positive-reported", sm(np)); ev("not-positive");
    // symmetric, not positive: only one triangle may be used
    mat2d s = rmat(rng, n, n); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) s(j, i) = s(i, j); s(i, i) = (rng.b() ? 1 : -1)*(6.0*n); } LM ls = lm(s); double ts = 1e-8*(norm(ls) + 1); mat2d iv; check(matrix::invert_symmetric(s, iv), "invert_symmetric-success", sm(s)); matrix::inplace_symmetrize(iv); check(same(mul(ls, lm(iv)), eye(n), 1e-8), "invert_symmetric", sm(s)); vec1d x; check(matrix::solve_symmetric(s, b, x) && res(ls, x) <= ts, "solve_symmetric", sm(s)); vec1d bi = b; mat2d si = s; check(matrix::inplace_solve_symmetric(si, bi) && res(ls, bi) <= ts, "inplace_solve_symmetric");
#ifndef NO_LAPACK
    vec1d val; mat2d vec_; check(matrix::eigen_symmetric(s, val, vec_) && val.size() == n, "eigen_symmetric"); LM lv = lm(vec_); bool ok = true; for (size_t k = 0; k < n; ++k) { if (k) ok = ok && val[k-1] <= val[k] + 1e-9*norm(ls); for (size_t i = 0; i < n; ++i) { long double t = 0; for (size_t j = 0; j < n; ++j) t += ls[i][j]*lv[k][j]; ok = ok && std::fabs((double)(t - val[k]*lv[k][i])) <= ts; } } check(ok && same(mul(lv, tr(lv)), eye(n), 1e-8), "eigen-vectors", sm(s) + svv(val) + sm(vec_));
    mat2d gm = rmat(rng, n, n); LM lg = lm(gm); matrix::decompose_svd sv_; check(sv_.decompose(gm) && sv_.s.size() == n, "svd"); LM u = lm(sv_.u), vt = lm(sv_.vt), us = u; ok = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) us[i][j] *= sv_.s[j]; for (size_t i = 0; i < n; ++i) ok = ok && sv_.s[i] >= 0 && (!i || sv_.s[i] <= sv_.s[i-1]); check(ok && same(mul(us, vt), lg, 1e-9*(norm(lg) + 1)*n) && same(mul(u, tr(u)), eye(n), 1e-9) && same(mul(vt, tr(vt)), eye(n), 1e-9), "svd-factors", sm(gm)); check(same(lm(gm), lg, 0), "svd-leaves-input");
#endif
    mat2d sg(n, n); mat2d o; vec1d ox; check(!matrix::invert_symmetric(sg, o) && !matrix::solve_symmetric(sg, b, ox), "singular-symmetric-reported"); check(guarded([&]{ mat2d q(n, n+1); (void)matrix::inplace_invert_symmetric(q); }).rejected() && guarded([&]{ mat2d q(n, n+1); matrix::decompose_cholesky c; c.decompose(q); }).rejected()
#ifndef NO_LAPACK
        && guarded([&]{ mat2d q(n, n+1); vec1d v; matrix::inplace_eigen_symmetric(q, v); }).rejected()
#endif
        && guarded([&]{ vec1d q(n+1); (void)ch.solve(q); }).rejected(), "symmetric-refused"); ev("refused"); ev("symmetric"); sig(fmt("%zu", n));
}
// vectors used as matrices in place, constant ones, temporaries; access, iteration, text
SCEN(matrix_forms, 2500, 30000) {
    size_t n = rng.i(1, 6), k = rng.i(1, 6); mat2d a = rmat(rng, n, k), c = rmat(rng, n, k), b = rmat(rng, k, 3); vec2d va = a.base, vb = b.base, vc = c.base; const vec2d& cva = va; const mat2d& ca = a; LM la = lm(a), lb = lm(b), lc = lm(c); double s = rng.i(-4, 4), tl = 1e-10; vh::note(sm(a) + sm(b));
    auto wa = matrix::as_matrix(va), wc = matrix::as_matrix(vc); auto wb = matrix::as_matrix(vb); auto cwa = matrix::as_matrix(cva); auto tm = matrix::as_matrix(vec2d(va)); const auto& cwr = wa;
    check(same(lm(wa*wb), mul(la, lb), tl) && same(lm(cwa*wb), mul(la, lb), tl) && same(lm(a*wb), mul(la, lb), tl) && same(lm(tm*b), mul(la, lb), tl), "wrapper-product", sm(a) + sm(b));
    auto ew = [&](const auto& r, auto f, const char* w) { bool ok = r.dims[0] == n && r.dims[1] == k; for (size_t i = 0; ok && i < n; ++i) for (size_t j = 0; j < k; ++j) ok = ok && nearv(r.safe(i, j), (double)f(i, j), 1e-12*(1 + std::fabs((double)f(i, j)))); check(ok, w, sm(a) + sm(c)); };
    ew(wa + c, [&](size_t i, size_t j) { return la[i][j] + lc[i][j]; }, "wrapper-add"); ew(a - wc, [&](size_t i, size_t j) { return la[i][j] - lc[i][j]; }, "subtract-wrapper"); ew(-wa, [&](size_t i, size_t j) { return -la[i][j]; }, "wrapper-negate"); ew(-cwa, [&](size_t i, size_t j) { return -la[i][j]; }, "const-wrapper-negate"); ew(s + a, [&](size_t i, size_t j) { return la[i][j] + s; }, "scalar+matrix"); ew(a - s, [&](size_t i, size_t j) { return la[i][j] - s; }, "matrix-scalar"); ew(wa*s, [&](size_t i, size_t j) { return la[i][j]*s; }, "wrapper-scale"); ew(+a, [&](size_t i, size_t j) { return la[i][j]; }, "plus"); ew(mat2d(a) + mat2d(c), [&](size_t i, size_t j) { return la[i][j] + lc[i][j]; }, "temporaries-add"); ew(mat2d(a) - c, [&](size_t i, size_t j) { return la[i][j] - lc[i][j]; }, "temporary-subtract"); ew(s - mat2d(a), [&](size_t i, size_t j) { return s - la[i][j]; }, "scalar-temporary");
    mat2d q = a; q += s; ew(q, [&](size_t i, size_t j) { return la[i][j] + s; }, "matrix+=scalar"); q -= s; q -= s; ew(q, [&](size_t i, size_t j) { return la[i][j] - s; }, "matrix-=scalar"); q += wc; ew(q, [&](size_t i, size_t j) { return la[i][j] - s + lc[i][j]; }, "matrix+=wrapper"); q = wa; ew(q, [&](size_t i, size_t j) { return la[i][j]; }, "assign-wrapper"); mat2d qc(cwa), qw(wa), qv(va); ew(qc, [&](size_t i, size_t j) { return la[i][j]; }, "copy-const-wrapper"); ew(qw, [&](size_t i, size_t j) { return la[i][j]; }, "copy-wrapper"); ew(qv, [&](size_t i, size_t j) { return la[i][j]; }, "copy-vector"); mat2d qm(std::move(qv)); ew(qm, [&](size_t i, size_t j) { return la[i][j]; }, "moved"); qv = std::move(qm); ew(qv, [&](size_t i, size_t j) { return la[i][j]; }, "move-assigned");
    // writing through a wrapper changes the vector itself; through the matrix does not
    { size_t i = rng.i(0, n-1), j = rng.i(0, k-1); wa(i, j) = 99; check(va(i, j) == 99 && a(i, j) == (double)la[i][j], "wrapper-writes-vector"); wa[i*k + j] = 98; check(va(i, j) == 98, "wrapper-writes-flat"); va(i, j) = a(i, j); check(ca(i, j) == (double)la[i][j] && cwa(i, j) == (double)la[i][j] && ca[i*k + j] == (double)la[i][j] && cwa[i*k + j] == (double)la[i][j] && &a(i, j) == a.raw_data() + i*k + j && &wa(i, j) == va.raw_data() + i*k + j && ca.raw_data() + i*k + j == &ca.safe(i, j), "matrix-access");
      auto row = a(i, _); auto col = ca(_, j); bool ok = row.size() == k && col.size() == n; for (size_t z = 0; ok && z < k; ++z) ok = row[z] == (double)la[i][z]; for (size_t z = 0; ok && z < n; ++z) ok = col[z] == (double)la[z][j]; check(ok, "matrix-row-column"); check(guarded([&]{ volatile double z = a(n, j); (void)z; }).rejected() && guarded([&]{ volatile double z = wa(i, k); (void)z; }).rejected(), "matrix-outside-refused"); }
    { size_t cnt = 0; bool ok = true; for (auto& x : wa) { ok = ok && &x == va.raw_data() + cnt; ++cnt; } check(ok && cnt == n*k && wa.size() == n*k && cwa.size() == n*k && a.size() == n*k && !a.empty() && !wa.empty() && mat2d().empty(), "matrix-iteration"); cnt = 0; for (auto& x : ca) { ok = ok && &x == ca.raw_data() + cnt; ++cnt; } for (auto& x : cwa) { (void)x; ++cnt; } check(ok && cnt == 2*n*k, "const-matrix-iteration"); }
    { std::ostringstream o; o << a; std::string e; for (size_t i = 0; i < n; ++i) { std::ostringstream t; t << "["; for (size_t j = 0; j < k; ++j) t << (j ? ", " : "") << (double)la[i][j]; t << "]"; e += t.str(); if (i + 1 < n) e += "\n"; } check(o.str() == e, "matrix-text", o.str() + " expected " + e); }
    { mat2d z; z.resize(n, k); check(z.dims[0] == n && z.dims[1] == k && z.size() == n*k, "matrix-resize"); mat2d il = {{1.0, 2.0}, {3.0, 4.0}, {5.0, 6.0}}; check(il.dims[0] == 3 && il.dims[1] == 2 && il(0,1) == 2 && il(2,0) == 5, "matrix-list"); }
    // transposes and diagonals of wrappers and temporaries; a diagonal is written in place
    { check(same(lm(matrix::transpose(wa)), tr(la), 0) && same(lm(matrix::transpose(cwa)), tr(la), 0), "wrapper-transpose"); mat2d g = rmat(rng, n, n); vec2d vg = g.base; auto wg = matrix::as_matrix(vg); matrix::diagonal(wg) = 3.0; matrix::diagonal(wg)(0) = 5; bool ok = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ok = ok && vg(i, j) == (i != j ? g(i, j) : i ? 3.0 : 5.0); check(ok, "wrapper-diagonal", svv(vg)); vec1d dt = matrix::diagonal(mat2d(g)); ok = dt.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = dt[i] == g(i, i); check(ok, "temporary-diagonal"); matrix::inplace_symmetrize(wg); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ok = ok && vg(i, j) == vg(j, i); check(ok, "wrapper-symmetrize"); }
#ifndef NO_LAPACK
    // solving with wrappers
    { mat2d g = good(rng, n); vec2d vg = g.base; auto wg = matrix::as_matrix(vg); LM lg = lm(g); vec1d rb(n), x; for (auto& z : rb) z = rng.gauss(); check(matrix::solve(wg, rb, x), "wrapper-solve"); bool ok = x.size() == n; for (size_t i = 0; ok && i < n; ++i) { long double t = -rb[i]; for (size_t j = 0; j < n; ++j) t += lg[i][j]*x[j]; ok = std::fabs((double)t) <= 1e-8*(norm(lg) + 1); } check(ok && same(lm(wg), lg, 0), "wrapper-solution", sm(g)); check(matrix::inplace_invert(wg) && same(mul(lg, lm(wg)), eye(n), 1e-8), "wrapper-inplace_invert", sm(g)); }
#endif
    ev("forms"); sig(fmt("%zu %zu", n, k));
}
#endif

#if PART == 4
// ------------------------------------------------------------------ fits
namespace {
// Weighted least squares by solving the normal equations in extended precision
bool wls(const std::vector<VD>& m, const VD& y, const VD& e, VD& p, std::vector<VD>& cov, double& chi2) {
    size_t n = m.size(), k = y.size(); std::vector<std::vector<long double>> a(n, std::vector<long double>(2*n)); VD bt(n); std::vector<long double> be(n);
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) for (size_t q = 0; q < k; ++q) a[i][j] += (long double)m[i][q]*m[j][q]/((long double)e[q]*e[q]); for (size_t q = 0; q < k; ++q) be[i] += (long double)m[i][q]*y[q]/((long double)e[q]*e[q]); a[i][n+i] = 1; }
    for (size_t c = 0; c < n; ++c) { size_t b = c; for (size_t i = c; i < n; ++i) if (std::fabs((double)a[i][c]) > std::fabs((double)a[b][c])) b = i; if (std::fabs((double)a[b][c]) < 1e-14) return false; std::swap(a[b], a[c]); long double f = a[c][c]; for (auto& t : a[c]) t /= f; for (size_t i = 0; i < n; ++i) if (i != c) { long double g = a[i][c]; for (size_t j = 0; j < 2*n; ++j) a[i][j] -= g*a[c][j]; } }
    p.assign(n, 0); cov.assign(n, VD(n)); for (size_t i = 0; i < n; ++i) { long double s = 0; for (size_t j = 0; j < n; ++j) { cov[i][j] = a[i][n+j]; s += a[i][n+j]*be[j]; } p[i] = s; }
    chi2 = 0; for (size_t q = 0; q < k; ++q) { double t = y[q]; for (size_t i = 0; i < n; ++i) t -= p[i]*m[i][q]; chi2 += t*t/(e[q]*e[q]); } return true;
}
struct Prob { size_t k; VD x, y, e; std::vector<VD> m; };
Prob problem(Rng& rng, size_t np, bool positive) {
    Prob p; p.k = np + rng.i(2, 25); p.x.resize(p.k); p.y.resize(p.k); p.e.resize(p.k); p.m.assign(np, VD(p.k)); VD c(np); for (auto& t : c) t = positive ? rng.d()*3 + 0.2 : rng.gauss()*3;
    for (size_t q = 0; q < p.k; ++q) { p.x[q] = -1 + 2.0*(q + rng.d()*0.5)/p.k; p.e[q] = 0.1 + rng.d(); for (size_t i = 0; i < np; ++i) p.m[i][q] = i == 0 ? 1 : i == 1 ? p.x[q] : i == 2 ? std::sin(3*p.x[q]) : rng.gauss(); if (positive) for (size_t i = 0; i < np; ++i) p.m[i][q] = std::fabs(p.m[i][q]) + 0.05*rng.d(); for (size_t i = 0; i < np; ++i) p.y[q] += c[i]*p.m[i][q]; p.y[q] += p.e[q]*rng.gauss()*(positive ? 0.02 : 1); } return p;
}
void cmpfit(const linfit_result& r, const VD& p, const std::vector<VD>& cov, double chi2, const char* w, size_t k) {
    size_t n = p.size(); bool ok = r.success && r.params.size() == n && r.errors.size() == n && r.cov.dims[0] == n && r.cov.dims[1] == n; if (!check(ok, std::string(w) + "-shape", fmt("success %d", r.success))) return;
    for (size_t i = 0; i < n; ++i) { double s = std::sqrt(cov[i][i]); ok = ok && nearv(r.params[i], p[i], 1e-6*(std::fabs(p[i]) + s)) && nearv(r.errors[i], s, 1e-6*s); for (size_t j = 0; j < n; ++j) ok = ok && nearv(r.cov(i, j), cov[i][j], 1e-6*s*std::sqrt(cov[j][j])); }
    check(ok, w, svv(r.params) + " expected " + sdv(p)); if (chi2 >= 0) check(nearv(r.chi2, chi2, 1e-6*(chi2 + 1)), std::string(w) + "-chi2", fmt("got %.12g expected %.12g", r.chi2, chi2));
}
}
SCEN(linear_fits, 2000, 25000) {
    size_t np = rng.i(1, 4); Prob p = problem(rng, np, false); VD e; std::vector<VD> cov; double chi2; if (!wls(p.m, p.y, p.e, e, cov, chi2)) return; vec1d y = mk<double>(p.y), ye = mk<double>(p.e); std::vector<vec1d> m; for (auto& t : p.m) m.push_back(mk<double>(t));
    linfit_result r; if (np == 1) r = linfit(y, ye, m[0]); else if (np == 2) r = linfit(y, ye, 1.0, m[1]); else if (np == 3) r = linfit(y, ye, m[0], m[1], m[2]); else r = linfit(y, ye, 1.0, m[1], m[2], m[3]); cmpfit(r, e, cov, chi2, "linfit", p.k);
    vec2d pk(np, p.k); for (size_t i = 0; i < np; ++i) for (size_t q = 0; q < p.k; ++q) pk(i, q) = p.m[i][q]; cmpfit(linfit_pack(y, ye, pk), e, cov, chi2, "linfit_pack", p.k);
    // batch: the same models for several data sets, then with one model replaced
    auto bt = linfit_pack_batch(ye, pk); bt.fit(y); cmpfit(bt.fr, e, cov, chi2, "linfit_batch", p.k); VD y2 = p.y; for (auto& t : y2) t += rng.gauss(); VD e2; std::vector<VD> cov2; double c2; wls(p.m, y2, p.e, e2, cov2, c2); vec1d v2 = mk<double>(y2); bt.fit_nochi2(v2); cmpfit(bt.fr, e2, cov2, -1, "linfit_batch-second", p.k); bt.update_chi2(v2); check(nearv(bt.fr.chi2, c2, 1e-6*(c2 + 1)), "linfit_batch-chi2"); size_t w = rng.i(0, np-1); auto m2 = p.m; for (auto& t : m2[w]) t = rng.gauss(); VD e3; std::vector<VD> cov3; double c3; if (wls(m2, y2, p.e, e3, cov3, c3)) { bt.update_model(w, mk<double>(m2[w])); bt.fit(v2); cmpfit(bt.fr, e3, cov3, c3, "linfit_batch-updated-model", p.k); ev("batch"); }
    // batch with the models given one by one (numbers included), several models replaced at once, and a singular one repaired
    { auto bv = np == 1 ? linfit_batch(ye, m[0]) : np == 2 ? linfit_batch(ye, 1.0, m[1]) : np == 3 ? linfit_batch(ye, m[0], m[1], m[2]) : linfit_batch(ye, 1.0, m[1], m[2], m[3]); bv.fit(y); cmpfit(bv.fr, e, cov, chi2, "linfit_batch-list", p.k); size_t w1 = rng.i(0, np-1), w2 = rng.i(0, np-1); auto m4 = p.m; for (auto& t : m4[w1]) t = rng.gauss(); VD keep = m4[w1]; for (auto& t : m4[w2]) t = rng.gauss(); VD e4; std::vector<VD> c4; double h4; if (wls(m4, y2, p.e, e4, c4, h4)) { bv.update_models(w1, mk<double>(keep), w2, mk<double>(m4[w2])); bv.fit(v2); cmpfit(bv.fr, e4, c4, h4, "linfit_batch-updated-models", p.k); bv.update_model(w1, vec1d(p.k)); bv.fit(v2); bool bad_ = !bv.fr.success; for (double t : bv.fr.params) bad_ = bad_ && std::isnan(t); check(bad_, "linfit_batch-becomes-singular"); bv.update_model(w1, mk<double>(m4[w1])); bv.fit(v2); cmpfit(bv.fr, e4, c4, h4, "linfit_batch-repaired", p.k); ev("batch-repaired"); } }
    { vec1d bad1(p.k + 1); check(guarded([&]{ (void)linfit_pack(bad1, ye, pk); }).rejected() && guarded([&]{ (void)linfit_pack(y, bad1, pk); }).rejected() && guarded([&]{ (void)linfit_nn_pack(bad1, ye, pk); }).rejected() && guarded([&]{ (void)linfit_nn_pack(y, bad1, pk); }).rejected() && guarded([&]{ (void)linfit_nn(y, bad1, m[0]); }).rejected() && guarded([&]{ (void)linfit_nn(y, ye, bad1); }).rejected() && guarded([&]{ (void)linfit_batch(ye, bad1); }).rejected(), "linfit-one-bad"); }
    // 2-D data, and a scalar uncertainty
    if (p.k%2 == 0) { vec2d y2d(2, p.k/2), e2d(2, p.k/2), a2(2, p.k/2), b2(2, p.k/2); y2d.data = y.data; e2d.data = ye.data; a2.data = m[0].data; if (np >= 2) { b2.data = m[1].data; VD e4; std::vector<VD> c4; double ch; std::vector<VD> mm(p.m.begin(), p.m.begin() + 2); if (wls(mm, p.y, p.e, e4, c4, ch)) cmpfit(linfit(y2d, e2d, a2, b2), e4, c4, ch, "linfit-2d", p.k); ev("2-D"); } }
    { VD es(p.k, 0.5), e5; std::vector<VD> c5; double ch; std::vector<VD> mm{p.m[0]}; if (wls(mm, p.y, es, e5, c5, ch)) cmpfit(linfit(y, 0.5, m[0]), e5, c5, ch, "linfit-scalar-error", p.k); }
    // degenerate models are reported
    linfit_result dg = linfit(y, ye, m[0], vec1d(p.k)); bool nn = dg.params.size() == 2; for (double t : dg.params) nn = nn && std::isnan(t); check(!dg.success && nn, "linfit-singular-reported", svv(dg.params)); { vec2d pz(np + 1, p.k); for (size_t i = 0; i < np; ++i) for (size_t q = 0; q < p.k; ++q) pz(i, q) = p.m[i][q]; auto bz = linfit_pack_batch(ye, pz); bz.fit(y); bool nz = !bz.fr.success && bz.fr.params.size() == np + 1 && bz.fr.errors.size() == np + 1 && std::isnan(bz.fr.chi2); for (double t : bz.fr.params) nz = nz && std::isnan(t); for (double t : bz.fr.errors) nz = nz && std::isnan(t); check(nz, "linfit_batch-singular-reported", svv(bz.fr.params)); } ev("singular");
    vec1d bad(p.k + 1); check(guarded([&]{ (void)linfit(y, ye, bad); }).rejected() && guarded([&]{ (void)linfit(y, bad, m[0]); }).rejected() && guarded([&]{ (void)linfit_pack(y, ye, vec2d(np, p.k + 1)); }).rejected() && guarded([&]{ (void)linfit_pack_batch(ye, vec2d(np, p.k - 1)); }).rejected() && guarded([&]{ bt.update_model(0, vec1d(p.k - 1)); }).rejected() && guarded([&]{ bt.update_model(np, mk<double>(p.m[0])); }).rejected() && guarded([&]{ bt.fit(bad); }).rejected(), "linfit-refused"); ev("refused"); ev("linfit"); sig(fmt("%zu %zu", np, p.k));
}
SCEN(positive_fits, 800, 8000) {
    size_t np = rng.i(1, 3); Prob p = problem(rng, np, true); VD e; std::vector<VD> cov; double chi2; if (!wls(p.m, p.y, p.e, e, cov, chi2)) return; vec1d y = mk<double>(p.y), ye = mk<double>(p.e); vec2d pk(np, p.k); for (size_t i = 0; i < np; ++i) for (size_t q = 0; q < p.k; ++q) pk(i, q) = p.m[i][q]; linfit_nn_result r = linfit_nn_pack(y, ye, pk); { linfit_nn_result rl = np == 1 ? linfit_nn(y, ye, mk<double>(p.m[0])) : np == 2 ? linfit_nn(y, ye, mk<double>(p.m[0]), mk<double>(p.m[1])) : linfit_nn(y, ye, mk<double>(p.m[0]), mk<double>(p.m[1]), mk<double>(p.m[2])); check(eqvec(flat(rl.params), flat(r.params)) && rl.success == r.success && eqv(rl.chi2, r.chi2), "linfit_nn-list", svv(rl.params) + svv(r.params)); } bool ok = r.params.size() == np; for (double t : r.params) ok = ok && t >= 0 && std::isfinite(t); check(ok, "linfit_nn-non-negative", svv(r.params)); double c = 0; for (size_t q = 0; ok && q < p.k; ++q) { double t = p.y[q]; for (size_t i = 0; i < np; ++i) t -= r.params[i]*p.m[i][q]; c += t*t/(p.e[q]*p.e[q]); } check(nearv(r.chi2, c, 1e-6*(c + 1)), "linfit_nn-chi2", fmt("got %g expected %g", r.chi2, c)); if (np == 1) { check(r.success, "linfit_nn-success"); check(nearv(r.params[0], e[0], 1e-3*e[0]), "linfit_nn-one-model", fmt("got %g expected %g", r.params[0], e[0])); linfit_nn_result r1 = linfit_nn(y, ye, mk<double>(p.m[0])); check(eqvec(flat(r1.params), flat(r.params)) && r1.success == r.success, "linfit_nn-same"); vec1d neg = -y; linfit_nn_result rn = linfit_nn(neg, ye, mk<double>(p.m[0])); check(rn.params.size() == 1 && rn.params[0] == 0.0, "linfit_nn-zero", svv(rn.params)); } if (r.success) ev("nn-converged"); ev("nn"); sig(fmt("%zu %zu", np, p.k));
}
SCEN(nonlinear_fits, 900, 9000) {
    size_t np = rng.i(1, 3); Prob p = problem(rng, np, false); VD e; std::vector<VD> cov; double chi2; if (!wls(p.m, p.y, p.e, e, cov, chi2)) return; vec1d y = mk<double>(p.y), ye = mk<double>(p.e); std::vector<vec1d> m; for (auto& t : p.m) m.push_back(mk<double>(t)); vec1d x = mk<double>(p.x); size_t calls = 0; auto model = [&](const vec1d&, const vec1d& c) { ++calls; vec1d r(p.k); for (size_t i = 0; i < np; ++i) r += c[i]*m[i]; return r; }; vec1d s(np); for (auto& t : s) t = rng.gauss()*2; vec1d st0 = s;
    auto r = mpfitfun(y, ye, x, model, s); bool ok = r.success && r.params.size() == np && r.errors.size() == np; double c0 = 0; for (size_t q = 0; q < p.k; ++q) { double t = p.y[q]; for (size_t i = 0; i < np; ++i) t -= s[i]*p.m[i][q]; c0 += t*t/(p.e[q]*p.e[q]); } check(ok, "mpfit-success", fmt("reason %d", r.reason)); for (size_t i = 0; ok && i < np; ++i) { double sg = std::sqrt(cov[i][i]); ok = nearv(r.params[i], e[i], 0.02*sg + 1e-5*std::fabs(e[i])) && nearv(r.errors[i], sg, 1e-3*sg); for (size_t j = 0; j < np; ++j) ok = ok && nearv(r.covar(i, j), cov[i][j], 1e-3*sg*std::sqrt(cov[j][j])); } check(ok, "mpfit-linear-solution", svv(r.params) + svv(r.errors) + " expected " + sdv(e)); check(nearv(r.chi2, chi2, 1e-3*(chi2 + 0.01)) && r.chi2 <= c0*(1 + 1e-6) + 1e-9 && r.dof == p.k - np, "mpfit-chi2", fmt("got %g expected %g start %g", r.chi2, chi2, c0)); check(eqvec(flat(s), flat(st0)) && calls > 1, "mpfit-leaves-start"); ev("mpfit");
    // frozen and limited parameters, any derivative
    mpfit_options o(np); size_t fz = rng.i(0, np); std::vector<bool> fr(np); if (fz < np && np > 1) { o.frozen[fz] = true; fr[fz] = true; } bool active = false; for (size_t i = 0; i < np; ++i) { if (rng.b()) o.lower_limit[i] = s[i] - rng.d()*4; if (rng.b()) o.upper_limit[i] = s[i] + rng.d()*4; if (rng.d() < 0.3) o.max_step[i] = 0.3; o.deriv[i] = rng.pick<int>({0, 1, -1, 2}); } auto q = mpfitfun(y, ye, x, model, s, o); bool in = true, keep = true; for (size_t i = 0; i < np; ++i) { if (q.params[i] < o.lower_limit[i] || q.params[i] > o.upper_limit[i]) in = false; if (fr[i] && q.params[i] != s[i]) keep = false; if (q.params[i] == o.lower_limit[i] || q.params[i] == o.upper_limit[i]) active = true; } check(in, "mpfit-limits", svv(q.params) + svv(o.lower_limit) + svv(o.upper_limit)); check(keep, "mpfit-frozen", svv(q.params) + svv(s)); check(q.chi2 <= c0*(1 + 1e-6) + 1e-9, "mpfit-not-worse", fmt("%g start %g", q.chi2, c0)); ev(active ? "limit-reached" : "limits-free");
    // limits that do not exclude the solution do not change it
    mpfit_options w(np); for (size_t i = 0; i < np; ++i) { double a = std::min(s[i], e[i]), b = std::max(s[i], e[i]); if (rng.d() < 0.7) w.lower_limit[i] = a - 0.5 - rng.d(); if (rng.d() < 0.7) w.upper_limit[i] = b + 0.5 + rng.d(); } auto u = mpfitfun(y, ye, x, model, s, w); ok = u.success; for (size_t i = 0; ok && i < np; ++i) ok = nearv(u.params[i], e[i], 0.05*std::sqrt(cov[i][i]) + 1e-4*std::fabs(e[i])); check(ok, "mpfit-inactive-limits", svv(u.params) + " expected " + sdv(e) + " start " + svv(s) + svv(w.lower_limit) + svv(w.upper_limit)); ev("inactive-limits");
    check(guarded([&]{ (void)mpfitfun(y, ye, x, model, s, mpfit_options(np + 1)); }).rejected() && guarded([&]{ (void)mpfitfun(vec1d(p.k + 1), ye, x, model, s); }).rejected(), "mpfit-refused"); ev("refused"); sig(fmt("%zu %zu %d", np, p.k, active));
}
// classical problems with a known minimum, from starts of several scales
SCEN(known_problems, 600, 6000) {
    double f = std::pow(10.0, rng.d(-0.3, 1.5)); int k = rng.i(0, 5); auto jit = [&](double x) { return x*f*(1 + 0.1*rng.d(-1, 1)); }; mpfit_result r; double best = 0; VD sol; vec1d start; vec1d x(20); for (size_t i = 0; i < 20; ++i) x[i] = i/5.0; mpfit_options o; vec1d lo, up; size_t evals = 0;
    auto run = [&](vec1d s, std::function<vec1d(const vec1d&)> d) { start = s; o = mpfit_options(s.size()); if (rng.b(0.3)) o.nocovar = true; if (rng.b(0.2)) o.deriv[_] = 2; r = mpfit([&](const vec1d& p) { ++evals; return d(p); }, s, o); return d; }; std::function<vec1d(const vec1d&)> d;
    if (k == 0) { d = run(vec1d{jit(-1.2), jit(1)}, [](const vec1d& p) { return vec1d{10*(p[1]-p[0]*p[0]), 1-p[0]}; }); sol = {1, 1}; }
    else if (k == 1) d = run(vec1d{jit(3), jit(-1), 0, jit(1)}, [](const vec1d& p) { return vec1d{p[0]+10*p[1], sqrt(5.0)*(p[2]-p[3]), sqr(p[1]-2*p[2]), sqrt(10.0)*sqr(p[0]-p[3])}; });
    else if (k == 2) { d = run(vec1d{jit(-1), 0.001, 0}, [](const vec1d& p) { double t = atan2(p[1],p[0])/(2*dpi); return vec1d{10*(p[2]-10*t), 10*(sqrt(sqr(p[0])+sqr(p[1]))-1), p[2]}; }); sol = {1, 0, 0}; }
    else if (k == 3) { double a = rng.d(1, 4), b = rng.d(0.6, 2), c = rng.d(-1, 1); vec1d y = a*exp(-b*x) + c; d = run(vec1d{1, b*rng.d(0.5, 1.5), 0}, [=](const vec1d& p) { return vec1d((y - (p[0]*exp(-p[1]*x)+p[2]))/0.1); }); sol = {a, b, c}; }
    else if (k == 4) { double a = rng.d(1, 4), b = rng.d(1, 3), c = rng.d(0.3, 1.5); vec1d y = a*exp(-sqr(x-b)/c); d = run(vec1d{a*rng.d(0.5, 1.5), b + 0.2*rng.d(-1, 1), c*rng.d(0.8, 1.3)}, [=](const vec1d& p) { return vec1d((y - p[0]*exp(-sqr(x-p[1])/p[2]))/0.1); }); sol = {a, b, c}; }
    else { double a = rng.gauss(), b = rng.gauss(); d = run(vec1d{jit(1), jit(1)}, [=](const vec1d& p) { return vec1d{p[0]-a, p[1]-b, 1.0}; }); best = 1; sol = {a, b}; }
    vh::note(fmt("problem %d start ", k) + svv(start)); vec1d at = d(r.params); double c = 0, c0 = 0; for (double t : at) c += t*t; for (double t : vec1d(d(start))) c0 += t*t; check(eqv(r.chi2, c) || close(r.chi2, c, 1e-9, 1e-300), "known-chi2", fmt("%g %g", r.chi2, c)); check(c <= c0*(1 + 1e-12), "known-not-worse", fmt("%g from %g", c, c0)); check(r.success && r.reason >= mpfit_result::gtol && close(r.chi2, best, 1e-6, 1e-7), "known-minimum", fmt("problem %d: success %d reason %d chi2 %g ", k, (int)r.success, (int)r.reason, r.chi2) + svv(r.params)); bool ok = true; for (size_t i = 0; i < sol.size(); ++i) ok = ok && close(r.params[i], sol[i], 1e-4, 1e-4); check(ok, "known-solution", svv(r.params) + " expected " + sdv(sol)); check(r.iter >= 1 && r.iter <= 200, "known-iterations", fmt("%zu", (size_t)r.iter));
    // stopping early is reported
    { mpfit_options q(start.size()); q.max_iter = rng.i(1, 3); q.ftol = q.xtol = q.gtol = 1e-15; mpfit_result e = mpfit(d, start, q); vec1d ea = d(e.params); double ce = 0; for (double t : ea) ce += t*t; check(e.iter <= q.max_iter + 1 && (e.reason != mpfit_result::max_iter || !e.success), "max_iter", fmt("iter %zu of %zu reason %d success %d", (size_t)e.iter, (size_t)q.max_iter, (int)e.reason, (int)e.success)); check(ce <= c0*(1 + 1e-12) && close(e.chi2, ce, 1e-9, 1e-300), "max_iter-not-worse", fmt("%g from %g", ce, c0)); if (!e.success) ev("stopped"); }
    ev("known-problem"); sig(fmt("%d %zu", k, (size_t)r.iter));
}
SCEN(minimize, 500, 5000) {
    size_t n = rng.i(1, 4); VD c(n), w(n); for (auto& t : c) t = rng.gauss()*3; for (auto& t : w) t = 0.5 + rng.d()*4; vec1d s(n); for (auto& t : s) t = rng.gauss()*4; size_t nv = 0, nd = 0; auto f = [&](const vec1d& p, minimize_function_output o) { vec1d r(n + 1); if (o != minimize_function_output::derivatives) { ++nv; for (size_t i = 0; i < n; ++i) r[0] += w[i]*sqr(p[i] - c[i]); r[0] += 7.5; } if (o != minimize_function_output::value) { ++nd; for (size_t i = 0; i < n; ++i) r[i+1] = 2*w[i]*(p[i] - c[i]); } return r; };
    minimize_params o; o.ftol = 1e-3; minimize_result r = minimize_bfgs(o, s, f); bool ok = r.success && r.params.size() == n && r.niter <= o.max_iter; double v = 7.5; for (size_t i = 0; ok && i < n; ++i) { ok = nearv(r.params[i], c[i], 0.02); v += w[i]*sqr(r.params[i] - c[i]); } check(ok, "minimize", svv(r.params) + " expected " + sdv(c)); check(nearv(r.value, v, 1e-9*(1 + v)), "minimize-value", fmt("%.12g %.12g", r.value, v)); check(nv > 0 && nd > 0, "minimize-called"); { minimize_params ol = o; ol.max_iter = rng.i(1, 4); ol.ftol = 1e-9; minimize_result rl = minimize_bfgs(ol, s, f); check(rl.niter <= ol.max_iter && rl.niter >= 1 && (rl.success || rl.niter == ol.max_iter), "minimize-max_iter", fmt("%zu of %zu", (size_t)rl.niter, (size_t)ol.max_iter)); double v0 = 7.5, v1 = 7.5; for (size_t i = 0; i < n; ++i) { v0 += w[i]*sqr(s[i] - c[i]); v1 += w[i]*sqr(rl.params[i] - c[i]); } check(v1 <= v0*(1 + 1e-12) && nearv(rl.value, v1, 1e-9*(1 + v1)), "minimize-improves", fmt("%g from %g", v1, v0)); if (!rl.success) ev("stopped"); } ev("minimize"); sig(fmt("%zu %zu", n, r.niter));
}
#endif

#if PART == 5
// ------------------------------------------------------------------ random numbers
namespace {
template<typename V> bool eqf(const V& a, const V& b) { return a.dims == b.dims && eqvec(flat(a), flat(b)); }
// Chi-squared of counts against expected numbers; limit beyond 8 sigma
bool chi2ok(const std::vector<size_t>& c, const VD& e, double& x) { x = 0; size_t k = 0; for (size_t i = 0; i < c.size(); ++i) { if (e[i] <= 0) { if (c[i]) return false; continue; } x += std::pow(c[i] - e[i], 2)/e[i]; ++k; } double nu = std::max<double>(1, k - 1.0); double z = (std::cbrt(x/nu) - (1 - 2/(9*nu)))/std::sqrt(2/(9*nu)); return z < 7; }
}
SCEN(reproducible, 600, 6000) {
    uint_t sd0 = rng.next() & 0x7fffffff; auto a = make_seed(sd0), b = make_seed(sd0), c = make_seed(sd0 + 1); size_t n = rng.i(1, 30), m = rng.i(1, 4); check(eqf(randomn(a, n), randomn(b, n)), "randomn-reproducible"); check(eqf(randomu(a, n, m), randomu(b, n, m)), "randomu-reproducible"); check(eqf(randomi(a, -4, 9, n), randomi(b, -4, 9, n)), "randomi-reproducible"); check(randomi(a, -4, 9) == randomi(b, -4, 9) && randomn(a) == randomn(b) && randomu(a) == randomu(b) && random_coin(a, 0.4) == random_coin(b, 0.4), "scalar-reproducible"); vec1d px{1, 2, 8, 9}, py{0, 1, 1, 0}; check(eqf(random_pdf(a, px, py, n), random_pdf(b, px, py, n)) && random_pdf(a, px, py) == random_pdf(b, px, py), "random_pdf-reproducible"); check(eqf(random_coin(a, 0.3, n), random_coin(b, 0.3, n)), "random_coin-reproducible"); vec1u v = indgen<uint_t>(n); check(eqf(shuffle(a, v), shuffle(b, v)), "shuffle-reproducible"); check(a == b, "same-state"); auto a2 = make_seed(sd0); check(!eqf(randomu(a2, 8), randomu(c, 8)), "different-seeds-differ");
    vec2d q = randomn(a, n, m); check(q.dims[0] == n && q.dims[1] == m, "random-dims"); vec3d u = randomu(a, std::array<uint_t,3>{{n, m, 2}}); check(u.dims[0] == n && u.dims[1] == m && u.dims[2] == 2, "random-dims-array"); ev("reproducible"); sig(fmt("%zu %zu", n, m));
}
SCEN(uniform, 250, 2500) {
    auto s = make_seed(rng.next() & 0x7fffffff); size_t n = 4000; vec1d u = randomu(s, n); std::vector<size_t> c(20); bool in = true; for (double x : u) { in = in && x >= 0 && x <= 1; ++c[std::min<size_t>(19, std::max(0.0, x*20))]; } double x2; check(in, "randomu-range"); check(chi2ok(c, VD(20, n/20.0), x2), "randomu-uniform", fmt("chi2 %g", x2));
    int mi = rng.i(-12, 3), ma = mi + rng.i(0, 12); vec1i v = randomi(s, mi, ma, n); std::vector<size_t> k(ma - mi + 1), k1(ma - mi + 1); in = true; for (int x : v) { if (x < mi || x > ma) in = false; else ++k[x - mi]; } check(in, "randomi-range", fmt("[%d, %d]", mi, ma)); check(chi2ok(k, VD(k.size(), double(n)/k.size()), x2), "randomi-uniform", fmt("[%d, %d] chi2 %g counts ", mi, ma, x2) + sv(k)); in = true; for (size_t i = 0; i < n; ++i) { int x = randomi(s, mi, ma); if (x < mi || x > ma) in = false; else ++k1[x - mi]; } check(in && chi2ok(k1, VD(k.size(), double(n)/k.size()), x2), "randomi-scalar-uniform", fmt("[%d, %d] chi2 %g", mi, ma, x2)); uint_t uo = rng.i(0, 5), ub = uo + rng.i(0, 8); vec1u w = randomi(s, uo, ub, 500); in = true; for (uint_t x : w) in = in && x >= uo && x <= ub; check(in, "randomi-unsigned-range"); if (mi < 0) ev("negative-range"); ev("draws", 3*n); sig(fmt("%d %d", mi, ma));
}
SCEN(distributions, 250, 2500) {
    auto s = make_seed(rng.next() & 0x7fffffff); size_t n = 4000; vec1d g = randomn(s, n); std::vector<size_t> c(12); VD e(12); auto cdf = [](double x) { return 0.5*std::erfc(-x/std::sqrt(2.0)); }; for (double x : g) ++c[x < -2.5 ? 0 : x >= 2.5 ? 11 : 1 + (int)((x + 2.5)*2)]; e[0] = e[11] = n*cdf(-2.5); for (int i = 0; i < 10; ++i) e[1+i] = n*(cdf(-2.5 + 0.5*(i+1)) - cdf(-2.5 + 0.5*i)); double x2; check(chi2ok(c, e, x2), "randomn-normal", fmt("chi2 %g", x2) + sv(c)); std::fill(c.begin(), c.end(), 0); std::vector<size_t> cu(20); bool inu = true; for (size_t i = 0; i < n; ++i) { double x = randomn(s); ++c[x < -2.5 ? 0 : x >= 2.5 ? 11 : 1 + (int)((x + 2.5)*2)]; x = randomu(s); inu = inu && x >= 0 && x <= 1; ++cu[std::min<size_t>(19, std::max(0.0, x*20))]; } check(chi2ok(c, e, x2), "randomn-scalar-normal", fmt("chi2 %g", x2) + sv(c)); check(inu && chi2ok(cu, VD(20, n/20.0), x2), "randomu-scalar-uniform", fmt("chi2 %g", x2) + sv(cu));
    double p = rng.d() < 0.2 ? rng.i(0, 1) : rng.d(); vec1b b = random_coin(s, p, n); size_t h = count(b), h1 = 0; for (size_t i = 0; i < n; ++i) h1 += random_coin(s, p); double sg = std::sqrt(n*p*(1-p)); check(std::fabs(h - n*p) <= 8*sg + 1e-9, "random_coin", fmt("p %g got %zu of %zu", p, h, n)); check(std::fabs(h1 - n*p) <= 8*sg + 1e-9, "random_coin-scalar", fmt("p %g got %zu of %zu", p, h1, n)); vec1d pv(40); for (auto& q : pv) q = rng.i(0, 1); vec1b bv = random_coin(s, pv); bool ok = bv.size() == 40; for (size_t i = 0; ok && i < 40; ++i) ok = bv[i] == (pv[i] == 1.0); check(ok, "random_coin-vector");
    // piecewise linear density
    size_t k = rng.i(2, 6); VD px(k), py(k); double t = rng.gauss(); for (auto& q : px) { q = t; t += rng.d() + 0.1; } for (auto& q : py) q = rng.d() < 0.2 ? 0 : rng.d(); py[rng.i(0, k-1)] += 0.5; vec1d vx = mk<double>(px), vy = mk<double>(py); vec1d d = random_pdf(s, vx, vy, n); VD ex(2*(k-1)); std::vector<size_t> ct(2*(k-1)); double tot = 0; for (size_t i = 0; i + 1 < k; ++i) { double w = (px[i+1] - px[i])/2, m = 0.5*(py[i] + py[i+1]); ex[2*i] = 0.5*(py[i] + m)*w; ex[2*i+1] = 0.5*(m + py[i+1])*w; tot += ex[2*i] + ex[2*i+1]; } for (auto& q : ex) q *= n/tot; bool in = true; for (double x : d) { if (!(x >= px[0] && x <= px[k-1])) { in = false; continue; } size_t i = 0; while (i + 2 < k && px[i+1] <= x) ++i; ++ct[2*i + (x >= 0.5*(px[i] + px[i+1]))]; } check(in, "random_pdf-range"); check(chi2ok(ct, ex, x2), "random_pdf", fmt("chi2 %g ", x2) + sdv(px) + sdv(py) + sv(ct)); double o = random_pdf(s, vx, vy); check(o >= px[0] && o <= px[k-1], "random_pdf-scalar");
    size_t nw = rng.i(1, 6); VD wt(nw); for (auto& q : wt) q = rng.d() < 0.3 ? 0 : rng.d(); wt[rng.i(0, nw-1)] += 0.3; double tw = 0; for (double q : wt) tw += q; vec1u di = random_pdf_discrete(s, mk<double>(wt), n); std::vector<size_t> cd(nw); in = true; for (uint_t x : di) { if (x >= nw) in = false; else ++cd[x]; } VD ed(nw); for (size_t i = 0; i < nw; ++i) ed[i] = n*wt[i]/tw; check(in && chi2ok(cd, ed, x2), "random_pdf_discrete", sdv(wt) + sv(cd)); for (int q = 0; q < 20; ++q) { uint_t x = random_pdf_discrete(s, mk<double>(wt)); check(x < nw && wt[x] > 0, "random_pdf_discrete-one"); double y = random_pdf(s, vx, vy); check(y >= px.front() && y <= px.back(), "random_pdf-one"); } ev("draws", 4*n); ev("distributions"); sig(fmt("%zu %zu", k, nw));
}
SCEN(shuffles, 1200, 12000) {
    auto s = make_seed(rng.next() & 0x7fffffff); size_t n = pick_size(rng); VD d = data(rng, n, false, false, 5); vec1d v = mk<double>(d); vec1d r = shuffle(s, v); check(eqvec(finite_sorted(flat(r)), finite_sorted(d)) && r.dims == v.dims && eqvec(flat(v), d), "shuffle-permutation", sdv(d) + svv(r)); inplace_shuffle(s, v); check(eqvec(finite_sorted(flat(v)), finite_sorted(d)), "inplace_shuffle-permutation"); vec1s st; for (double x : d) st.push_back(to_string(x)); vec1s s2 = shuffle(s, st); auto a = flat(s2), b = flat(st); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); check(a == b, "shuffle-strings"); ev("shuffles"); sig(fmt("%zu", n));
}
SCEN(shuffle_uniform, 60, 600) {
    auto s = make_seed(rng.next() & 0x7fffffff); std::vector<size_t> c(24); size_t n = 4800; for (size_t i = 0; i < n; ++i) { vec1u v = shuffle(s, vec1u{0, 1, 2, 3}); size_t p[4] = {v[0], v[1], v[2], v[3]}, r = 0; for (int a = 0; a < 4; ++a) { size_t k = 0; for (int b = a+1; b < 4; ++b) k += p[b] < p[a]; r = r*(4 - a) + k; } ++c[r]; } double x2; check(chi2ok(c, VD(24, n/24.0), x2), "shuffle-uniform", fmt("chi2 %g", x2) + sv(c)); ev("shuffle-draws", n); sig("u");
}
#endif

#if PART == 6
// ------------------------------------------------------------------ Fourier transforms
namespace {
using C = std::complex<double>;
std::vector<C> dft(const std::vector<C>& v, size_t a, size_t b, int sg) { std::vector<C> r(a*b); for (size_t k = 0; k < a; ++k) for (size_t l = 0; l < b; ++l) { C s = 0; for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) s += v[i*b + j]*std::polar(1.0, sg*2*dpi*(double((k*i)%a)/a + double((l*j)%b)/b)); r[k*b + l] = s; } return r; }
}
SCEN(transforms_, 900, 9000) {
    size_t a = rng.i(1, 12), b = rng.i(1, 12); vec2d v(a, b); vec2cd z(a, b); double sc = 0; for (auto& x : v) { x = rng.gauss(); sc += std::fabs(x); } for (auto& x : z) { x = C(rng.gauss(), rng.gauss()); sc += std::abs(x); } std::vector<C> fv, fz; for (double x : v) fv.push_back(x); for (auto& x : z) fz.push_back(x); double tl = 1e-11*(sc + 1); vec2d v0 = v; vec2cd z0 = z; vh::note(fmt("%zu x %zu", a, b));
    auto cmp = [&](const vec2cd& r, const std::vector<C>& e, const char* w) { bool ok = r.dims[0] == a && r.dims[1] == b; for (size_t i = 0; ok && i < a*b; ++i) ok = std::abs(r.data[i] - e[i]) <= tl; check(ok, w, fmt("%zu x %zu", a, b)); }; auto e = dft(fv, a, b, -1), ez = dft(fz, a, b, -1), ei = dft(fz, a, b, 1); vec2cd t = fft_c2c(z); cmp(t, ez, "fft_c2c"); cmp(ifft_c2c(z), ei, "ifft_c2c"); vec2cd bk = ifft_c2c(t); std::vector<C> en; for (auto& x : fz) en.push_back(x*double(a*b)); cmp(bk, en, "ifft_c2c-inverse"); vec2cd o(a, b); fft_c2c(z, o); cmp(o, ez, "fft_c2c-out"); ifft_c2c(z, o); cmp(o, ei, "ifft_c2c-out");
    // real transform: the non-redundant half, packed
    vec2cd h = fft(v); size_t hb = b/2 + 1; bool ok = true; for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < hb; ++j) ok = ok && std::abs(h.data[i*hb + j] - e[i*b + j]) <= tl; check(ok, "fft-real", fmt("%zu x %zu", a, b)); vec2cd h0 = h; vec2d rv = ifft(h); ok = rv.dims[0] == a && rv.dims[1] == b; for (size_t i = 0; ok && i < a*b; ++i) ok = std::fabs(rv.data[i] - v.data[i]*a*b) <= tl*a*b; check(ok, "ifft-inverse", fmt("%zu x %zu", a, b)); vec2d r2(a, b); ifft(h, r2); ok = true; for (size_t i = 0; ok && i < a*b; ++i) ok = std::fabs(r2.data[i] - rv.data[i]) <= tl; check(ok, "ifft-out"); check(eqvec(flat(v), flat(v0)) && z.data == z0.data && h.data == h0.data, "fft-leaves-input", fmt("%zu x %zu", a, b)); ev("transforms"); sig(fmt("%zu %zu", a, b));
}
// FFTW documents that only fftw_execute may be called by several threads at once: count the threads inside the planner
namespace { std::atomic<int> planner{0}, planner_clash{0}; std::atomic<long> planner_calls{0}; bool slow_planner = false;
struct planning { planning() { ++planner_calls; if (planner.fetch_add(1) > 0) ++planner_clash; if (slow_planner) std::this_thread::sleep_for(std::chrono::microseconds(60)); } ~planning() { planner.fetch_sub(1); } }; }
extern "C" {
fftw_plan __real_fftw_plan_dft_2d(int, int, fftw_complex*, fftw_complex*, int, unsigned); fftw_plan __wrap_fftw_plan_dft_2d(int a, int b, fftw_complex* i, fftw_complex* o, int s, unsigned f) { planning p; return __real_fftw_plan_dft_2d(a, b, i, o, s, f); }
fftw_plan __real_fftw_plan_dft_r2c_2d(int, int, double*, fftw_complex*, unsigned); fftw_plan __wrap_fftw_plan_dft_r2c_2d(int a, int b, double* i, fftw_complex* o, unsigned f) { planning p; return __real_fftw_plan_dft_r2c_2d(a, b, i, o, f); }
fftw_plan __real_fftw_plan_dft_c2r_2d(int, int, fftw_complex*, double*, unsigned); fftw_plan __wrap_fftw_plan_dft_c2r_2d(int a, int b, fftw_complex* i, double* o, unsigned f) { planning p; return __real_fftw_plan_dft_c2r_2d(a, b, i, o, f); }
void __real_fftw_destroy_plan(fftw_plan); void __wrap_fftw_destroy_plan(fftw_plan q) { planning p; __real_fftw_destroy_plan(q); }
}
SCEN(parallel_transforms, 12, 100) {
    // several threads at once: planning is shared, results are not
    size_t n = rng.i(2, 8), nt = rng.i(2, 6); std::vector<vec2d> in(nt*4); std::vector<vec2d> out(nt*4); for (auto& v : in) { v = vec2d(n + rng.i(0, 3), n + rng.i(0, 3)); for (auto& x : v) x = rng.gauss(); } slow_planner = true; std::vector<std::vector<vec2cd>> cz(nt); std::vector<std::thread> th; for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t]() { for (size_t k = 0; k < 4; ++k) for (int q = 0; q < 3; ++q) { out[t*4 + k] = ifft(fft(in[t*4 + k])); vec2cd z(in[t*4 + k].dims); for (size_t i = 0; i < z.size(); ++i) z.data[i] = in[t*4 + k].data[i]; cz[t].push_back(ifft_c2c(fft_c2c(z))); } }); for (auto& t : th) t.join(); slow_planner = false; check(planner_clash == 0, "planner-one-thread-at-a-time", fmt("%d clashes in %ld calls", (int)planner_clash, (long)planner_calls)); planner_clash = 0; bool okc = true; for (size_t t = 0; t < nt; ++t) for (size_t k = 0; k < 12; ++k) { auto& v = in[t*4 + k/3]; auto& z = cz[t][k]; for (size_t i = 0; i < v.size(); ++i) okc = okc && std::abs(z.data[i] - C(v.data[i]*v.size())) < 1e-9*v.size(); } check(okc, "parallel-complex"); ev("planner-calls", planner_calls); planner_calls = 0; bool ok = true; for (size_t i = 0; i < in.size(); ++i) for (size_t k = 0; k < in[i].size(); ++k) ok = ok && std::fabs(out[i].data[k] - in[i].data[k]*in[i].size()) <= 1e-9*in[i].size(); check(ok, "fft-parallel"); ev("parallel-transforms", nt*12); sig(fmt("%zu %zu", n, nt));
}
#endif

#if PART == 7
// ------------------------------------------------------------------ convex hull
namespace {
double crs(double ax, double ay, double bx, double by, double cx, double cy) { return (bx - ax)*(cy - ay) - (by - ay)*(cx - ax); }
double segd(double px, double py, double ax, double ay, double bx, double by) { double dx = bx - ax, dy = by - ay, l = dx*dx + dy*dy, t = l > 0 ? ((px - ax)*dx + (py - ay)*dy)/l : 0; t = std::max(0.0, std::min(1.0, t)); return std::hypot(px - ax - t*dx, py - ay - t*dy); }
}
SCEN(hulls, 3000, 40000) {
    size_t n = rng.d() < 0.1 ? rng.i(0, 2) : rng.i(3, 40); int sp = rng.i(1, 8); bool lattice = rng.b(); VD x(n), y(n); for (size_t i = 0; i < n; ++i) { x[i] = lattice ? rng.i(-sp, sp) : rng.gauss(); y[i] = lattice ? rng.i(-sp, sp) : rng.gauss(); } vec1d vx = mk<double>(x), vy = mk<double>(y); vh::note(sdv(x) + sdv(y));
    bool flat_ = true; for (size_t i = 0; i < n && flat_; ++i) for (size_t j = 0; j < n && flat_; ++j) if (crs(x[0], y[0], x[i], y[i], x[j], y[j]) != 0) flat_ = false;
    if (n == 0) { convex_hull<double> h = build_convex_hull(vx, vy); check(h.size() == 0, "hull-of-nothing"); check(guarded([&]{ (void)in_convex_hull(0.0, 0.0, h); }).rejected(), "empty-hull-refused"); ev("refused"); ev("tiny"); return; }
    convex_hull<double> h = build_convex_hull(vx, vy); if (flat_) { ev("degenerate"); for (size_t i = 0; i < h.size(); ++i) { bool f = false; for (size_t j = 0; j < n; ++j) f = f || (x[j] == h.x[i] && y[j] == h.y[i]); check(f, "hull-vertex-from-points"); } return; }
    size_t m = h.size(); if (!check(m >= 4 && h.x[0] == h.x[m-1] && h.y[0] == h.y[m-1] && h.closed, "hull-closed", fmt("%zu vertices", m))) return;
    // strictly convex, counter-clockwise, made of given points, contains all points
    bool conv = true, from = true, all = true; for (size_t i = 0; i + 1 < m; ++i) { size_t k = i + 2 < m ? i + 2 : 1; if (!(crs(h.x[i], h.y[i], h.x[i+1], h.y[i+1], h.x[k], h.y[k]) > 0)) conv = false; bool f = false; for (size_t j = 0; j < n; ++j) f = f || (x[j] == h.x[i] && y[j] == h.y[i]); from = from && f; for (size_t j = 0; j < n; ++j) if (crs(h.x[i], h.y[i], h.x[i+1], h.y[i+1], x[j], y[j]) < -1e-12) all = false; } check(conv, "hull-convex-ccw", svv(h.x) + svv(h.y) + " of " + sdv(x) + sdv(y)); check(from, "hull-vertex-from-points"); check(all, "hull-contains-points", svv(h.x) + svv(h.y) + " of " + sdv(x) + sdv(y));
    // the same hull given by the user: any starting vertex, either orientation, with extra vertices on the edges
    VD ux, uy; size_t st0 = rng.i(0, m-2); for (size_t i = 0; i + 1 < m; ++i) { size_t a = (st0 + i)%(m-1), b = (a + 1)%(m-1); ux.push_back(h.x[a]); uy.push_back(h.y[a]); int ex = lattice ? rng.i(0, 2) : 0; for (int q = 1; q <= ex; ++q) { ux.push_back(h.x[a] + (h.x[b] - h.x[a])*q/4.0); uy.push_back(h.y[a] + (h.y[b] - h.y[a])*q/4.0); } } ux.push_back(ux[0]); uy.push_back(uy[0]); bool rev = rng.b(); if (rev) { std::reverse(ux.begin(), ux.end()); std::reverse(uy.begin(), uy.end()); } convex_hull<double> u(mk<double>(ux), mk<double>(uy)); check(u.closed && u.orient == (rev ? -1 : 1), "hull-orientation", sdv(ux) + sdv(uy) + fmt(" got %d", (int)u.orient));
    VD qx, qy; for (int k = 0; k < 12; ++k) { double w = rng.d(); if (w < 0.3) { size_t j = rng.i(0, n-1); qx.push_back(x[j]); qy.push_back(y[j]); } else if (w < 0.5) { size_t i = rng.i(0, m-2); qx.push_back(0.5*(h.x[i] + h.x[i+1])); qy.push_back(0.5*(h.y[i] + h.y[i+1])); } else { qx.push_back(rng.gauss()*sp*0.7); qy.push_back(rng.gauss()*sp*0.7); } } vec1d vqx = mk<double>(qx), vqy = mk<double>(qy); vec1b in = in_convex_hull(vqx, vqy, h), iu = in_convex_hull(vqx, vqy, u); vec1d d = convex_hull_distance(vqx, vqy, h), du = convex_hull_distance(vqx, vqy, u);
    for (size_t k = 0; k < qx.size(); ++k) { double mn = 1e300, md = 1e300; for (size_t i = 0; i + 1 < m; ++i) { mn = std::min(mn, crs(h.x[i], h.y[i], h.x[i+1], h.y[i+1], qx[k], qy[k])/std::hypot(h.x[i+1] - h.x[i], h.y[i+1] - h.y[i])); md = std::min(md, segd(qx[k], qy[k], h.x[i], h.y[i], h.x[i+1], h.y[i+1])); } bool e = mn >= 0; std::string s = fmt("point %.17g %.17g hull ", qx[k], qy[k]) + svv(h.x) + svv(h.y);
        if (std::fabs(mn) > 1e-9) { check(in[k] == e && in_convex_hull(qx[k], qy[k], h) == e, "in_convex_hull", s); check(iu[k] == e, "in_convex_hull-user", s + " user " + sdv(ux) + sdv(uy)); check((d[k] >= 0) == e, "hull-distance-sign", s); ev(e ? "inside" : "outside"); } else ev("on-edge");
        check(nearv(std::fabs(d[k]), md, 1e-9*(1 + md)), "hull-distance", s + fmt(" got %.17g expected %.17g", d[k], md)); check(nearv(std::fabs(du[k]), md, 1e-9*(1 + md)) && ((du[k] >= 0) == e || std::fabs(mn) <= 1e-9), "hull-distance-user", s + fmt(" got %.17g expected %.17g", du[k], md)); check(nearv(convex_hull_distance(qx[k], qy[k], h), d[k], 1e-12), "hull-distance-scalar", s); }
    check(guarded([&]{ convex_hull<double> q(vec1d{1, 2}, vec1d{1, 2}); }).rejected() && guarded([&]{ convex_hull<double> q(vec1d{1, 2, 3}, vec1d{1, 2}); }).rejected() && guarded([&]{ convex_hull<double> q(vec1d{0, 1, 1, 0}, vec1d{0, 0, 1, 1}); (void)in_convex_hull(0.5, 0.5, q); }).rejected() && guarded([&]{ (void)build_convex_hull(vx, vec1d(n+1)); }).rejected() && guarded([&]{ convex_hull<double> q; (void)in_convex_hull(0.5, 0.5, q); }).rejected(), "hull-refused"); ev("refused"); ev("hull"); sig(fmt("%zu %zu %d", n, m, lattice));
}
#endif

