// Searching, ordering, set and rearrangement functions against brute force.
#include "model.hpp"
using namespace vif;
using namespace vh;

// values with many ties; doubles may include infinities and (if asked) NaN
template<typename T> T tie(Rng& r, int span, bool) { return (T)r.i(-span, span); }
template<> uint_t tie<uint_t>(Rng& r, int span, bool) { return (uint_t)r.i(0, 2*span); }
template<> double tie<double>(Rng& r, int span, bool nan) {
    if (nan && r.b(0.12)) return NAN; if (r.b(0.02)) return r.b() ? INFINITY : -INFINITY;
    return r.i(-span, span)*0.5;
}
template<> std::string tie<std::string>(Rng& r, int span, bool) { std::string s; size_t n = r.u(0, 3); for (size_t k = 0; k < n; ++k) s += (char)r.i('a', 'a' + std::min(25, span)); if (r.b(0.1)) s += "_a rather long string with a suffix"; return s; }
template<typename T> std::vector<T> rv(Rng& r, size_t n, int span, bool nan = false) { std::vector<T> v; for (size_t k = 0; k < n; ++k) v.push_back(tie<T>(r, span, nan)); return v; }
template<typename T> vec<1,T> tov(const std::vector<T>& m) { vec<1,T> v; for (size_t k = 0; k < m.size(); ++k) v.push_back(m[k]); return v; }
template<typename T> bool less_(const T& a, const T& b) { return a < b; }
template<> bool less_(const double& a, const double& b) { if (std::isnan(a)) return false; if (std::isnan(b)) return true; return a < b; }
size_t rsize(Rng& r) { double q = r.d(); return q < 0.05 ? 0 : q < 0.1 ? 1 : q < 0.6 ? r.u(2, 12) : q < 0.8 ? r.u(13, 62) : q < 0.9 ? r.u(63, 66) : r.u(67, 200); }
std::string sizeclass(size_t n) { return n < 4 ? s1(n) : n < 13 ? "s" : n < 63 ? "m" : n < 67 ? s1(n) : "l"; }
typedef std::vector<size_t> ids_t;
ids_t ii(const vec1u& v) { return flat(v); }
#define EQI(what, got, exp) vh::checkf(eqvec(got, exp), what, [&]() { return "got " + sv(got) + " expected " + sv(exp); })

// a container, a view of a larger vector and a 2-D vector holding the same values: all must agree
template<typename T, typename F> void forms(Rng& rng, const std::vector<T>& m, F f) {
    vec<1,T> v = tov(m); f(v, "vec"); vh::check(eqvec(flat(v), m), "argument-modified", "");
    // scattered inside a bigger vector
    size_t n = m.size(); vec<1,T> big(2*n + 3); vec1u where_; for (size_t k = 0; k < n; ++k) { where_.push_back(2*k + 1); big.safe[2*k + 1] = m[k]; }
    f(big[where_], "view"); const vec<1,T>& cb = big; f(cb[where_], "constview");
    size_t d = n % 3 == 0 ? 3 : n % 2 == 0 ? 2 : 1; f(reform(v, n/d, d), "2-D");
}

#if PART == 0
SCEN(where_, 12000, 200000) {
    size_t n = rsize(rng); double p = rng.pick(std::vector<double>{0, 0.05, 0.5, 0.95, 1}); std::vector<bool> b; ids_t e; for (size_t k = 0; k < n; ++k) { b.push_back(rng.b(p)); if (b[k]) e.push_back(k); }
    vec1b v(n); for (size_t k = 0; k < n; ++k) v.safe[k] = (bool)b[k];
    vh::note("where on " + svv(v)); vh::sig(sizeclass(n) + s1(p));
    EQI("where", ii(where(v)), e); vh::check(where_first(v) == (e.empty() ? npos : e.front()), "where_first", s1(where_first(v))); vh::check(where_last(v) == (e.empty() ? npos : e.back()), "where_last", s1(where_last(v)));
    size_t d = n % 3 == 0 ? 3 : n % 2 == 0 ? 2 : 1; vec2b w = reform(v, n/d, d); EQI("where-2d", ii(where(w)), e); vh::check(where_first(w) == (e.empty() ? npos : e.front()) && where_last(w) == (e.empty() ? npos : e.back()), "where-ends-2d", "");
    vec1u rev; for (size_t k = n; k-- > 0;) rev.push_back(k); ids_t er; for (size_t k = 0; k < n; ++k) if (b[n-1-k]) er.push_back(k); EQI("where-view", ii(where(v[rev])), er);
    EQI("where-view-first", (ids_t{where_first(v[rev]), where_last(v[rev])}), (er.empty() ? ids_t{npos, npos} : ids_t{er.front(), er.back()}));
    ids_t ec; for (size_t k = 0; k < n; ++k) if (!b[k]) ec.push_back(k); vec1u sel = where(v); EQI("complement", ii(complement(v, sel)), ec);
    if (!sel.empty() && sel.size() < n) { vec1u dup = sel; std::vector<uint_t> t = sel.data; while (dup.size() < n && rng.b(0.8)) dup.push_back(rng.pick(t)); EQI("complement-dup", ii(complement(v, dup)), ec); ev("complement-dup"); }
    if (n) { vec1u bad = {n + rng.u(0, 3)}; if (n > 1) vh::check(guarded([&]() { complement(v, bad); }).refused(), "complement-invalid-accepted", ""); }
    ev("where");
}
template<typename T> void search(Rng& rng, bool nan) {
    int span = (int)rng.pick(std::vector<int>{1, 4, 30}); auto m = rv<T>(rng, rsize(rng), span, nan), s = rv<T>(rng, rsize(rng), span, nan); auto vs = tov(s);
    vh::note(fmt("is_any_of %s ", tname<T>()) + sv(m) + " in " + sv(s)); std::vector<bool> e; for (auto& x : m) { bool f = false; for (auto& y : s) f = f || x == y; e.push_back(f); }
    forms(rng, m, [&](const auto& v, const char* f) { auto r = is_any_of(v, vs); bool ok = r.size() == e.size() && r.dims == v.dims; for (size_t k = 0; ok && k < e.size(); ++k) ok = r.safe[k] == e[k]; vh::check(ok, std::string("is_any_of-") + f, svv(r)); });
    if (!m.empty()) vh::check(is_any_of(m[0], vs) == (bool)e[0], "is_any_of-scalar", "");
    vh::sig(fmt("%s%d", tname<T>(), span) + sizeclass(m.size()) + sizeclass(s.size())); ev("is_any_of");
}
SCEN(any_int, 4000, 60000) { search<int>(rng, false); }
SCEN(any_double, 4000, 60000) { search<double>(rng, true); }
SCEN(any_string, 4000, 60000) { search<std::string>(rng, false); }
// match: every v1 element that has an equal in v2 is paired with the first of them
template<typename T> void domatch(Rng& rng, bool nan) {
    int span = (int)rng.pick(std::vector<int>{1, 5, 60, 1000}); auto a = rv<T>(rng, rsize(rng), span, nan), b = rv<T>(rng, rng.b(0.3) ? a.size() : rsize(rng), span, nan);
    vh::note(fmt("match %s ", tname<T>()) + sv(a, 80) + " with " + sv(b, 80)); std::map<size_t,size_t> e; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i] == b[j]) { e[i] = j; break; }
    forms(rng, a, [&](const auto& v, const char* f) { vec1u i1 = {7, 8}, i2 = {9}; match(v, tov(b), i1, i2); bool ok = i1.size() == i2.size() && i1.size() == e.size() && vh::consistent(i1) && vh::consistent(i2); std::map<size_t,size_t> g; for (size_t k = 0; ok && k < i1.size(); ++k) g[i1.safe[k]] = i2.safe[k];
        vh::checkf(ok && g == e, std::string("match-") + f, [&]() { return svv(i1, 80) + svv(i2, 80) + fmt(" expected %zu pairs", e.size()); }); });
    vh::sig(fmt("%s%d", tname<T>(), span) + sizeclass(a.size()) + sizeclass(b.size())); ev(std::min(a.size(), b.size()) >= 64 ? "match-large" : "match-small");
}
SCEN(match_int, 6000, 100000) { domatch<int>(rng, false); }
SCEN(match_double, 6000, 100000) { domatch<double>(rng, true); }
SCEN(match_string, 3000, 60000) { domatch<std::string>(rng, false); }
template<typename T> void dobounds(Rng& rng) {
    int span = (int)rng.pick(std::vector<int>{1, 4, 30, 200}); auto m = rv<T>(rng, rsize(rng), span); std::sort(m.begin(), m.end()); T x = rng.b(0.5) && !m.empty() ? rng.pick(m) : tie<T>(rng, span + 2, false), y = tie<T>(rng, span + 2, false); if (y < x) std::swap(x, y);
    size_t lo = npos, up = npos, up2 = npos, f0 = npos, f1 = npos; for (size_t k = 0; k < m.size(); ++k) { if (!(x < m[k])) lo = k; if (up == npos && x < m[k]) up = k; if (up2 == npos && y < m[k]) up2 = k; if (m[k] == x) { if (f0 == npos) f0 = k; f1 = k; } }
    vh::note(fmt("bounds %s ", tname<T>()) + sv(m) + " of " + s1(x) + "," + s1(y));
    forms(rng, m, [&](const auto& v, const char* f) { std::string F = f;
        vh::check(lower_bound(v, x) == lo, "lower_bound-" + F, s1(lower_bound(v, x)) + " expected " + s1(lo)); vh::check(upper_bound(v, x) == up, "upper_bound-" + F, s1(upper_bound(v, x)) + " expected " + s1(up));
        auto b = bounds(v, x); vh::check(b[0] == lo && b[1] == up, "bounds-" + F, sd(b)); auto b2 = bounds(v, x, y); vh::check(b2[0] == lo && b2[1] == up2, "bounds2-" + F, sd(b2)); auto q = equal_range(v, x); vh::check(q[0] == f0 && q[1] == f1, "equal_range-" + F, sd(q)); });
    ev("bounds"); vh::sig(fmt("%s%d", tname<T>(), span) + sizeclass(m.size()) + (lo == npos ? "L" : up == npos ? "H" : "M") + (f0 == npos ? "a" : "p"));
}
SCEN(bounds_int, 6000, 100000) { dobounds<int>(rng); }
SCEN(bounds_double, 6000, 100000) { dobounds<double>(rng); }
SCEN(bounds_string, 3000, 40000) { dobounds<std::string>(rng); }
// the vector and what is searched do not have the same type: values are compared, never converted to one another
template<typename T, typename U> void mixed(Rng& rng) {
    auto val = [&](auto z) { using Z = decltype(z); double d = rng.i(-12, 12); if (std::is_unsigned<Z>::value || std::is_unsigned<T>::value || std::is_unsigned<U>::value) d = std::fabs(d); if (std::is_floating_point<Z>::value) { int c = (int)rng.i(0, 3); if (c == 1) d += 0.5; else if (c == 2) d += rng.pick(std::vector<double>{0.1, -0.1, 1e-9, 0.3}); if (std::is_unsigned<T>::value || std::is_unsigned<U>::value) d = std::fabs(d); } return (Z)d; };
    size_t n = rng.u(0, 12); std::vector<T> m; for (size_t k = 0; k < n; ++k) m.push_back(val(T())); std::vector<T> raw = m; std::sort(m.begin(), m.end()); U x = val(U()), y = val(U()); if (y < x) std::swap(x, y); std::vector<U> o; for (size_t k = rng.u(0, 12); k > 0; --k) o.push_back(val(U())); using L = long double;
    vh::note(fmt("%s and %s: ", tname<T>(), tname<U>()) + sv(m) + " of " + s1(x) + "," + s1(y) + " " + sv(o)); size_t lo = npos, up = npos, up2 = npos, f0 = npos, f1 = npos; for (size_t k = 0; k < m.size(); ++k) { if ((L)m[k] <= (L)x) lo = k; if (up == npos && (L)x < (L)m[k]) up = k; if (up2 == npos && (L)y < (L)m[k]) up2 = k; if ((L)m[k] == (L)x) { if (f0 == npos) f0 = k; f1 = k; } }
    forms(rng, m, [&](const auto& v, const char* f) { std::string F = f; vh::check(lower_bound(v, x) == lo, "mixed-lower_bound-" + F, s1(lower_bound(v, x)) + " expected " + s1(lo)); vh::check(upper_bound(v, x) == up, "mixed-upper_bound-" + F, s1(upper_bound(v, x)) + " expected " + s1(up)); auto b = bounds(v, x); vh::check(b[0] == lo && b[1] == up, "mixed-bounds-" + F, sd(b)); auto b2 = bounds(v, x, y); vh::check(b2[0] == lo && b2[1] == up2, "mixed-bounds2-" + F, sd(b2)); auto q = equal_range(v, x); vh::check(q[0] == f0 && q[1] == f1, "mixed-equal_range-" + F, sd(q)); });
    std::map<size_t,size_t> e; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < o.size(); ++j) if ((L)raw[i] == (L)o[j]) { e[i] = j; break; } auto vr = tov(raw); auto vo = tov(o); vec1u i1, i2; match(vr, vo, i1, i2); std::map<size_t,size_t> g; bool ok = i1.size() == i2.size() && i1.size() == e.size(); for (size_t k = 0; ok && k < i1.size(); ++k) g[i1.safe[k]] = i2.safe[k]; vh::check(ok && g == e, "mixed-match", svv(i1) + svv(i2)); auto an = is_any_of(vr, vo); ok = an.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = (bool)an.safe[k] == (e.count(k) > 0); vh::check(ok, "mixed-is_any_of", svv(an)); ev("mixed"); vh::sig(fmt("%s%s%zu%zu%zu", tname<T>(), tname<U>(), n, lo, e.size()));
}
SCEN(mixed_types, 8000, 100000) { switch (rng.i(0, 4)) { case 0: mixed<int,double>(rng); break; case 1: mixed<float,double>(rng); break; case 2: mixed<double,int>(rng); break; case 3: mixed<uint_t,double>(rng); break; default: mixed<double,float>(rng); } }
// nearest true pixel (4-connected distance = Manhattan distance on a full grid)
SCEN(nearest_pixel, 6000, 100000) {
    size_t nx = rng.u(1, 9), ny = rng.u(1, 9); vec2b m(nx, ny); double p = rng.pick(std::vector<double>{0, 0.03, 0.1, 0.5}); for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) m.safe(i,j) = rng.b(p);
    uint_t x = rng.u(0, nx + 1), y = rng.u(0, ny + 1), cx = std::min<uint_t>(x, nx-1), cy = std::min<uint_t>(y, ny-1), ox = x, oy = y; long best = -1; for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) if (m.safe(i,j)) { long d = labs((long)i-(long)cx) + labs((long)j-(long)cy); if (best < 0 || d < best) best = d; }
    vh::note(fmt("nearest true pixel from %zu,%zu in ", (size_t)x, (size_t)y) + svv(m, 90)); bool f = astar_find(m, x, y); vh::check(f == (best >= 0), "found", f ? "found" : "not found");
    if (f && best >= 0) { bool in = x < nx && y < ny; vh::check(in, "outside", ""); if (in) { vh::check(m.safe(x,y), "not-true", ""); vh::check(labs((long)x-(long)cx) + labs((long)y-(long)cy) == best, "not-nearest", fmt("%zu,%zu", (size_t)x, (size_t)y)); } }
    ev("astar"); vh::sig(fmt("%zu %zu %ld", nx, ny, best)); (void)ox; (void)oy;
}
#elif PART == 1
template<typename T> void dosort(Rng& rng, bool nan) {
    int span = (int)rng.pick(std::vector<int>{1, 5, 60, 1000}); auto m = rv<T>(rng, rsize(rng), span, nan); ids_t e(m.size()); std::iota(e.begin(), e.end(), 0); std::stable_sort(e.begin(), e.end(), [&](size_t a, size_t b) { return less_<T>(m[a], m[b]); });
    std::vector<T> es; for (auto k : e) es.push_back(m[k]); vh::note(fmt("sort %s ", tname<T>()) + sv(m, 80)); bool so = true; for (size_t k = 1; k < m.size(); ++k) if (less_<T>(m[k], m[k-1])) so = false;
    forms(rng, m, [&](const auto& v, const char* f) { std::string F = f; EQI("sort-" + F, ii(sort(v)), e); vh::check(is_sorted(v) == so, "is_sorted-" + F, ""); });
    vec<1,T> v = tov(m); inplace_sort(v); vh::check(vh::consistent(v) && eqvec(flat(v), es), "inplace_sort", svv(v)); vh::check(is_sorted(v), "sorted-after", "");
    // with a comparison function, descending: ties keep their order
    ids_t d(m.size()); std::iota(d.begin(), d.end(), 0); std::stable_sort(d.begin(), d.end(), [&](size_t a, size_t b) { return less_<T>(m[b], m[a]); }); vec<1,T> w = tov(m); EQI("sort-comp", ii(sort(w, [](const T& a, const T& b) { return less_<T>(b, a); })), d);
    std::vector<T> ds; for (auto k : d) ds.push_back(m[k]); inplace_sort(w, [](const T& a, const T& b) { return less_<T>(b, a); }); vh::check(eqvec(flat(w), ds), "inplace_sort-comp", "");
    { vec<1,uint_t> q(m.size()), q0; std::vector<uint_t> eq; for (size_t k = 0; k < m.size(); ++k) q[k] = rng.u(0, 3)*100000 + k; q0 = q; eq = flat(q); auto key = [](uint_t a, uint_t b) { return a/100000 < b/100000; }; std::stable_sort(eq.begin(), eq.end(), key); inplace_sort(q, key); vh::check(eqvec(flat(q), eq), "inplace_sort-comp-stable", svv(q0)); std::vector<uint_t> g2; for (uint_t k : sort(q0, key)) g2.push_back(q0[k]); vh::check(eqvec(g2, eq), "sort-comp-stable", svv(q0)); }
    size_t n = m.size(), c = n % 3 == 0 ? 3 : 1; vec<2,T> w2 = reform(tov(m), n/c, c); inplace_sort(w2); vh::check(w2.dims[0] == n/c && w2.dims[1] == c && eqvec(flat(w2), es), "inplace_sort-2d", "");
    ev("sort"); if (nan) ev("sort-nan"); vh::sig(fmt("%s%d%d", tname<T>(), span, (int)so) + sizeclass(n));
}
SCEN(sort_int, 6000, 100000) { dosort<int>(rng, false); }
SCEN(sort_double, 6000, 100000) { dosort<double>(rng, true); }
SCEN(sort_uint, 3000, 40000) { dosort<uint_t>(rng, false); }
SCEN(sort_string, 3000, 60000) { dosort<std::string>(rng, false); }
// sorting a view permutes the selected elements of the viewed vector only
SCEN(sort_view, 4000, 60000) {
    auto m = rv<double>(rng, rng.u(1, 40), 6, true); auto v = tov(m); std::vector<size_t> pos(m.size()); std::iota(pos.begin(), pos.end(), 0); rng.shuffle(pos); pos.resize(rng.u(0, m.size())); vec1u ids; std::vector<double> sel; for (auto p : pos) { ids.push_back(p); sel.push_back(m[p]); }
    vh::note("inplace_sort of a selection of " + sv(m)); auto w = v[ids]; inplace_sort(w); std::stable_sort(sel.begin(), sel.end(), less_<double>);
    std::vector<double> got; for (size_t k = 0; k < w.size(); ++k) got.push_back(w.safe[k]); vh::check(eqvec(got, sel), "view-order", sv(got) + " expected " + sv(sel)); std::vector<double> a = flat(v), b = m; std::sort(a.begin(), a.end(), less_<double>); std::sort(b.begin(), b.end(), less_<double>); vh::check(eqvec(a, b), "elements-lost", "");
    vh::sig(fmt("%zu/%zu", pos.size(), m.size()));
}
template<typename T> void dounique(Rng& rng) {
    int span = (int)rng.pick(std::vector<int>{0, 1, 5, 60}); auto m = rv<T>(rng, rsize(rng), span); std::map<T,size_t> first; for (size_t k = 0; k < m.size(); ++k) if (!first.count(m[k])) first[m[k]] = k; ids_t e; std::vector<T> ev_; for (auto& p : first) { e.push_back(p.second); ev_.push_back(p.first); }
    vh::note(fmt("unique %s ", tname<T>()) + sv(m, 80));
    forms(rng, m, [&](const auto& v, const char* f) { std::string F = f; EQI("unique_ids-" + F, ii(unique_ids(v)), e); EQI("unique_ids-sid-" + F, ii(unique_ids(v, sort(v))), e); vh::check(eqvec(flat(unique_values(v)), ev_) && eqvec(flat(unique_values(v, sort(v))), ev_), "unique_values-" + F, ""); });
    std::sort(m.begin(), m.end()); ids_t es; for (size_t k = 0; k < m.size(); ++k) if (k == 0 || !(m[k] == m[k-1])) es.push_back(k);
    forms(rng, m, [&](const auto& v, const char* f) { std::string F = f; EQI("unique_ids_sorted-" + F, ii(unique_ids_sorted(v)), es); vh::check(eqvec(flat(unique_values_sorted(v)), ev_), "unique_values_sorted-" + F, ""); });
    ev("unique"); vh::sig(fmt("%s%d", tname<T>(), span) + sizeclass(m.size()) + sizeclass(e.size()));
}
SCEN(unique_int, 6000, 100000) { dounique<int>(rng); }
SCEN(unique_double, 3000, 60000) { dounique<double>(rng); }
SCEN(unique_string, 3000, 60000) { dounique<std::string>(rng); }
template<typename T> void dosets(Rng& rng) {
    int span = (int)rng.pick(std::vector<int>{0, 2, 6, 60}); auto a = rv<T>(rng, rsize(rng), span), b = rv<T>(rng, rsize(rng), span); std::map<T,size_t> ca, cb, all; for (auto x : a) { ++ca[x]; ++all[x]; } for (auto x : b) { ++cb[x]; ++all[x]; }
    std::vector<T> ei, eu; for (auto& p : all) { size_t p1 = ca.count(p.first) ? ca[p.first] : 0, p2 = cb.count(p.first) ? cb[p.first] : 0; for (size_t k = 0; k < std::min(p1, p2); ++k) ei.push_back(p.first); for (size_t k = 0; k < std::max(p1, p2); ++k) eu.push_back(p.first); }
    vh::note(fmt("sets %s ", tname<T>()) + sv(a) + sv(b)); auto va = tov(a), vb = tov(b); auto I = set_intersection(va, vb); auto U = set_union(va, vb);
    vh::check(vh::consistent(I) && eqvec(flat(I), ei), "intersection", svv(I) + " expected " + sv(ei)); vh::check(vh::consistent(U) && eqvec(flat(U), eu), "union", svv(U) + " expected " + sv(eu));
    vh::check(eqvec(flat(set_intersection(vb, va)), ei) && eqvec(flat(set_union(vb, va)), eu), "symmetry", ""); vh::check(eqvec(flat(va), a) && eqvec(flat(vb), b), "argument-modified", "");
    inplace_sort(va); inplace_sort(vb); auto Is = set_intersection_sorted(va, vb); auto Us = set_union_sorted(va, vb); vh::check(vh::consistent(Is) && vh::consistent(Us) && eqvec(flat(Is), ei) && eqvec(flat(Us), eu), "sorted-variants", "");
    ev("sets"); vh::sig(fmt("%s%d", tname<T>(), span) + sizeclass(a.size()) + sizeclass(b.size()) + sizeclass(ei.size()));
}
SCEN(sets_int, 6000, 100000) { dosets<int>(rng); }
template<typename T, typename U> void mixsets(Rng& rng) {
    std::vector<T> a; std::vector<U> b; int s = (int)rng.pick(std::vector<int>{2, 6, 30}); for (size_t k = rng.u(0, 15); k > 0; --k) a.push_back((T)(rng.i(-s, s) + (std::is_floating_point<T>::value ? rng.i(0, 3)*0.25 : 0))); for (size_t k = rng.u(0, 15); k > 0; --k) b.push_back((U)(rng.i(-s, s) + (std::is_floating_point<U>::value ? rng.i(0, 3)*0.25 : 0))); std::map<double,size_t> ca, cb, all; for (auto x : a) { ++ca[x]; ++all[x]; } for (auto x : b) { ++cb[x]; ++all[x]; }
    std::vector<double> ei, eu; for (auto& p : all) { size_t p1 = ca.count(p.first) ? ca[p.first] : 0, p2 = cb.count(p.first) ? cb[p.first] : 0; for (size_t k = 0; k < std::min(p1, p2); ++k) ei.push_back(p.first); for (size_t k = 0; k < std::max(p1, p2); ++k) eu.push_back(p.first); }
    vh::note(fmt("sets of %s and %s ", tname<T>(), tname<U>()) + sv(a) + sv(b)); vec<1,double> I = set_intersection(tov(a), tov(b)), U_ = set_union(tov(a), tov(b)); vh::check(vh::consistent(I) && eqvec(flat(I), ei), "mixed-intersection", svv(I) + " expected " + sv(ei)); vh::check(vh::consistent(U_) && eqvec(flat(U_), eu), "mixed-union", svv(U_) + " expected " + sv(eu)); ev("mixed-sets"); vh::sig(fmt("mix%d%s", s, tname<T>()) + sizeclass(a.size()) + sizeclass(ei.size()));
}
SCEN(sets_mixed, 4000, 60000) { switch (rng.i(0, 2)) { case 0: mixsets<int,double>(rng); break; case 1: mixsets<double,int>(rng); break; default: mixsets<float,double>(rng); } }
SCEN(sets_double, 4000, 60000) { dosets<double>(rng); }
#elif PART == 2
template<typename T> void rearr(Rng& rng) {
    auto m = rv<T>(rng, rsize(rng), 500); auto v = tov(m); size_t n = m.size(); long long s = rng.b(0.8) ? rng.i(-(long long)n - 3, (long long)n + 3) : rng.i(-500, 500); vh::note(fmt("rearrange %s shift %lld ", tname<T>(), s) + sv(m));
    std::vector<T> r(m.rbegin(), m.rend()), sh(n); for (size_t k = 0; k < n; ++k) sh[(size_t)(((((long long)k + s) % (long long)n) + (long long)n) % (long long)n)] = m[k];
    vh::check(eqvec(flat(reverse(v)), r), "reverse", ""); auto q = shift(v, s); vh::check(vh::consistent(q) && eqvec(flat(q), sh), "shift", svv(q) + " expected " + sv(sh)); auto w = v; inplace_shift(w, s); vh::check(eqvec(flat(w), sh), "inplace_shift", ""); vh::check(eqvec(flat(v), m), "argument-modified", "");
    vh::check(eqvec(flat(shift(shift(v, s), -s)), m), "shift-inverse", "");
    ev("rearrange"); vh::sig(fmt("%s", tname<T>()) + sizeclass(n) + (s < 0 ? "-" : "+") + (std::llabs(s) > (long long)n ? "w" : ""));
}
SCEN(rearr_int, 4000, 60000) { rearr<int>(rng); }
SCEN(rearr_string, 3000, 40000) { rearr<std::string>(rng); }
template<typename T> void trans(Rng& rng) {
    vec<2,T> v; Model<2,T> m; make(rng, rdims<2>(rng, 7), v, m); vh::note("transpose " + sm(m)); Model<2,T> e; e.dims = {{m.dims[1], m.dims[0]}}; e.data.resize(m.data.size()); for (size_t i = 0; i < m.dims[0]; ++i) for (size_t j = 0; j < m.dims[1]; ++j) e.data[j*m.dims[0]+i] = m.data[i*m.dims[1]+j];
    auto t = transpose(v); vh::check(same(t, e), "transpose", svv(t)); vh::check(same(v, m), "argument-modified", ""); vh::check(same(transpose(t), m), "involution", "");
    vec<1,T> f = flatten(v); vh::check(f.dims[0] == m.data.size() && eqvec(flat(f), m.data), "flatten", ""); auto tv = v; vec<1,T> f2 = flatten(std::move(tv)); vh::check(eqvec(flat(f2), m.data) && vh::consistent(f2), "flatten-rvalue", ""); vh::check(tv.empty() && vh::consistent(tv), "flatten-moved-from", "");
    std::array<size_t,3> d3 = {{1, m.dims[1], m.dims[0]}}; auto r = reform(v, d3); vh::check(r.dims == d3 && eqvec(flat(r), m.data), "reform", ""); auto r2 = reform(f, m.dims[0], m.dims[1]); vh::check(same(r2, m), "reform-args", "");
    auto tw = v; auto r3 = reform(std::move(tw), m.dims[1], m.dims[0]); vh::check(r3.dims[0] == m.dims[1] && eqvec(flat(r3), m.data), "reform-rvalue", ""); vh::check(tw.empty() && vh::consistent(tw), "reform-moved-from", "");
    size_t bad = m.data.size() + rng.u(1, 4); vh::check(guarded([&]() { reform(v, bad); }).refused(), "reform-bad-accepted", ""); vh::check(guarded([&]() { reform(vec<2,T>(v), bad); }).refused(), "reform-bad-rvalue-accepted", ""); ev("refused");
    // a reformed view still writes through
    auto z = v; if (z.size()) { auto w = reform(z(_,_), z.size()); T x = Val<T>::get(rng); size_t k = rng.u(0, z.size()-1); w[k] = x; Model<2,T> mm = m; mm.data[k] = x; vh::check(same(z, mm), "reform-view-write", ""); auto w2 = flatten(z(_,_)); auto zv = z(_,_); auto w3 = flatten(zv); vh::check(vh::consistent(w2) && vh::consistent(w3) && w2.dims[0] == z.size() && w3.dims[0] == z.size() && eqvec(flat(w3), mm.data), "flatten-view-dims", ""); vh::check(w2.size() == z.size() && eqvec(flat(w2), mm.data), "flatten-view", ""); }
    ev("transpose"); vh::sig(sd(m.dims) + tname<T>());
}
SCEN(trans_int, 4000, 60000) { trans<int>(rng); }
SCEN(trans_string, 2000, 30000) { trans<std::string>(rng); }
SCEN(replic, 4000, 60000) {
    vec<1,int> v; Model<1,int> m; make(rng, rdims<1>(rng, 5, 0.1), v, m); size_t a = rng.b(0.1) ? 0 : rng.u(1, 4), b = rng.b(0.1) ? 0 : rng.u(1, 4); vh::note(fmt("replicate %zu %zu ", a, b) + sm(m));
    Model<3,int> e; e.dims = {{a, b, m.dims[0]}}; for (size_t k = 0; k < a*b; ++k) e.data.insert(e.data.end(), m.data.begin(), m.data.end()); auto r = replicate(v, a, b); vh::check(same(r, e), "replicate-vec", svv(r));
    vec<2,int> v2; Model<2,int> m2; make(rng, rdims<2>(rng, 4, 0.06), v2, m2); Model<3,int> e2; e2.dims = {{a, m2.dims[0], m2.dims[1]}}; for (size_t k = 0; k < a; ++k) e2.data.insert(e2.data.end(), m2.data.begin(), m2.data.end()); vh::check(same(replicate(v2, a), e2), "replicate-2d", "");
    std::string s = Val<std::string>::get(rng); auto rs = replicate(s, a, b); vh::check(rs.dims[0] == a && rs.dims[1] == b && rs.size() == a*b && eqvec(flat(rs), std::vector<std::string>(a*b, s)), "replicate-scalar", ""); auto ra = replicate(4.5, v2.dims, a); vh::check(ra.dims[0] == m2.dims[0] && ra.dims[1] == m2.dims[1] && ra.dims[2] == a && eqvec(flat(ra), std::vector<double>(m2.total()*a, 4.5)), "replicate-dims", "");
    auto ig = indgen(a, b); bool ok = ig.dims[0] == a && ig.dims[1] == b; for (size_t k = 0; k < ig.size(); ++k) ok = ok && ig.safe[k] == k; vh::check(ok, "indgen", ""); auto id = indgen<double>(a*b); ok = id.size() == a*b; for (size_t k = 0; k < id.size(); ++k) ok = ok && id.safe[k] == (double)k; vh::check(ok, "indgen-double", "");
    ev("replicate"); vh::sig(fmt("%zu %zu %zu", a, b, m.dims[0]));
}
template<std::size_t D, typename T> void rem(Rng& rng) {
    vec<D,T> v; Model<D,T> m; make(rng, rdims<D>(rng, D == 1 ? 20 : 6, 0.04), v, m); size_t n = m.dims[0], pitch = n ? m.data.size()/n : 0; std::vector<size_t> ids(n); std::iota(ids.begin(), ids.end(), 0); rng.shuffle(ids); ids.resize(n ? rng.u(0, n) : 0);
    bool bad = rng.b(0.3); std::string kind = "ok"; if (bad) { int c = (int)rng.i(0, 2); if (c == 0 || ids.empty()) { ids.insert(ids.begin() + rng.u(0, ids.size()), n + (rng.b() ? 0 : rng.u(0, 5))); kind = "oob"; } else if (c == 1) { ids.insert(ids.begin() + rng.u(0, ids.size()), rng.pick(ids)); kind = "dup"; } else { ids.push_back(npos); kind = "npos"; } }
    vh::note(fmt("remove<%zu> ", D) + sv(ids) + " from " + sm(m)); vec1u vi; for (auto k : ids) vi.push_back(k); vec<D,T> w = v; Outcome o = guarded([&]() { inplace_remove(w, vi); });
    if (bad) { vh::check(o.refused(), "invalid-accepted", kind); ev("refused"); vh::check(guarded([&]() { remove(v, vi); }).refused(), "invalid-accepted-copy", kind); }
    else { vh::check(o.ok(), "valid-refused", o.str()); Model<D,T> e = m; e.dims[0] = n - ids.size(); e.data.clear(); std::set<size_t> S(ids.begin(), ids.end()); for (size_t k = 0; k < n; ++k) if (!S.count(k)) e.data.insert(e.data.end(), m.data.begin() + k*pitch, m.data.begin() + (k+1)*pitch); vh::check(same(w, e), "inplace_remove", svv(w) + " expected " + sm(e)); vh::check(same(remove(v, vi), e), "remove", ""); vh::check(same(v, m), "argument-modified", ""); vh::check(eqvec(flat(vi), ids), "ids-modified", ""); ev("remove"); }
    vh::sig(kind + fmt("%zu %zu %zu", D, n, ids.size()));
}
SCEN(remove1, 6000, 80000) { rem<1,int>(rng); }
SCEN(remove2, 4000, 60000) { rem<2,std::string>(rng); }
template<std::size_t N, std::size_t D, typename T> void app(Rng& rng, bool pre) {
    vec<D,T> a, b; Model<D,T> ma, mb; auto d = rdims<D>(rng, 4, 0.04); make(rng, d, a, ma); auto d2 = d; d2[N] = rng.b(0.08) ? 0 : rng.u(1, 4); bool bad = false; if (rng.b(0.3)) { for (size_t k = 0; k < D; ++k) if (k != N && rng.b()) d2[k] = rng.u(1, 4); if (rng.b(0.4) && D > 2) { size_t p = (N+1)%D, q = (N+2)%D; d2 = d; std::swap(d2[p], d2[q]); } } make(rng, d2, b, mb); for (size_t k = 0; k < D; ++k) if (k != N && d[k] != d2[k]) bad = true;
    vh::note(fmt("%s<%zu,%zu> ", pre ? "prepend" : "append", N, D) + sm(ma) + " with " + sm(mb)); if (ma.data.empty() || mb.data.empty()) bad = false;
    vec<D,T> w = a; Outcome o = guarded([&]() { if (pre) prepend<N>(w, b); else append<N>(w, b); }); if (bad) { vh::check(o.refused(), "mismatch-accepted", ""); ev("refused"); return; }
    vh::check(o.ok(), "valid-refused", o.str()); Model<D,T> e; if (ma.data.empty()) e = mb; else if (mb.data.empty()) e = ma; else { const Model<D,T>& x = pre ? mb : ma; const Model<D,T>& y = pre ? ma : mb; e.dims = x.dims; e.dims[N] += y.dims[N]; e.data.resize(e.total()); std::array<size_t,D> ix; ix.fill(0); do { auto j = ix; T val; if (j[N] < x.dims[N]) val = x.data[x.off(j)]; else { j[N] -= x.dims[N]; val = y.data[y.off(j)]; } e.data[e.off(ix)] = val; } while (e.next(ix)); }
    vh::check(same(w, e), pre ? "prepend" : "append", svv(w) + " expected " + sm(e)); vh::check(same(b, mb), "argument-modified", ""); ev("append"); vh::sig(fmt("%d%zu%zu", (int)pre, N, D) + sd(d) + sd(d2));
}
SCEN(append_axis, 8000, 100000) { bool p = rng.b(); switch (rng.i(0, 4)) { case 0: app<0,2,int>(rng, p); break; case 1: app<1,2,int>(rng, p); break; case 2: app<0,3,std::string>(rng, p); break; case 3: app<1,3,std::string>(rng, p); break; default: app<2,3,std::string>(rng, p); } }
// a vector joined with itself, or with a selection of itself, along any axis
template<std::size_t N, std::size_t D, typename T> struct Own; // selection of some layers along axis N
template<typename T> struct Own<0,2,T> { template<typename V> static auto get(V& v, const vec1u& i) -> decltype(v(i,_)) { return v(i,_); } };
template<typename T> struct Own<1,2,T> { template<typename V> static auto get(V& v, const vec1u& i) -> decltype(v(_,i)) { return v(_,i); } };
template<typename T> struct Own<1,3,T> { template<typename V> static auto get(V& v, const vec1u& i) -> decltype(v(_,i,_)) { return v(_,i,_); } };
template<std::size_t N, std::size_t D, typename T> void appown(Rng& rng) {
    vec<D,T> w; Model<D,T> m; make(rng, rdims<D>(rng, 4, 0), w, m); bool pre = rng.b(), self = rng.b(0.4), cst = rng.b(); vec1u ids; size_t nl = m.dims[N]; if (self) for (size_t k = 0; k < nl; ++k) ids.push_back(k); else { size_t k = rng.u(1, 5); for (size_t q = 0; q < k; ++q) ids.push_back(rng.u(0, nl-1)); }
    vh::note(fmt("%s<%zu,%zu> with %s ", pre ? "prepend" : "append", N, D, self ? "itself" : "its own layers") + svv(ids) + " " + sm(m)); const vec<D,T>& c = w; Outcome o = guarded([&]() { if (self) { if (pre) prepend<N>(w, w); else append<N>(w, w); } else if (cst) { auto s = Own<N,D,T>::get(c, ids); if (pre) prepend<N>(w, s); else append<N>(w, s); } else { auto s = Own<N,D,T>::get(w, ids); if (pre) prepend<N>(w, s); else append<N>(w, s); } });
    if (!vh::check(o.ok(), "own-refused", o.str())) return; Model<D,T> e; e.dims = m.dims; e.dims[N] += ids.size(); e.data.resize(e.total()); std::array<size_t,D> ix; ix.fill(0); do { auto j = ix; bool own = pre ? j[N] < ids.size() : j[N] >= nl; if (own) j[N] = ids[pre ? j[N] : j[N] - nl]; else if (pre) j[N] -= ids.size(); e.data[e.off(ix)] = m.data[m.off(j)]; } while (e.next(ix)); vh::check(same(w, e), pre ? "prepend-own" : "append-own", svv(w) + " expected " + sm(e)); ev("append-own"); vh::sig(fmt("own%d%d%zu%zu", (int)pre, (int)self, N, D) + sd(m.dims));
}
SCEN(append_own, 4000, 60000) { switch (rng.i(0, 2)) { case 0: appown<0,2,std::string>(rng); break; case 1: appown<1,2,int>(rng); break; default: appown<1,3,std::string>(rng); } }
SCEN(append_flat, 4000, 60000) {
    auto a = rv<std::string>(rng, rng.u(0, 9), 20), b = rv<std::string>(rng, rng.u(0, 9), 20); auto v = tov(a), w = tov(b); vh::note("append 1-D " + sv(a) + sv(b)); append(v, w); std::vector<std::string> e = a; e.insert(e.end(), b.begin(), b.end()); vh::check(vh::consistent(v) && eqvec(flat(v), e), "append", ""); prepend(v, w); e.insert(e.begin(), b.begin(), b.end()); vh::check(vh::consistent(v) && eqvec(flat(v), e), "prepend", "");
    append(v, v); auto e2 = e; e2.insert(e2.end(), e.begin(), e.end()); vh::check(vh::consistent(v) && eqvec(flat(v), e2), "append-self", ""); if (v.size()) { vec1u ids; std::vector<std::string> add; for (size_t k = 0; k < 5; ++k) { ids.push_back(rng.u(0, v.size()-1)); add.push_back(e2[ids.back()]); } prepend(v, v[ids]); e2.insert(e2.begin(), add.begin(), add.end()); vh::check(vh::consistent(v) && eqvec(flat(v), e2), "prepend-own-view", ""); }
    ev("append-alias"); vh::sig(fmt("%zu %zu", a.size(), b.size()));
}
// flat index <-> multi-dimensional index, and traversal
template<std::size_t D> void bij(Rng& rng) {
    Model<D,int> m; m.dims = rdims<D>(rng, 5, 0); size_t n = m.total(); std::array<uint_t,D> dims; for (size_t k = 0; k < D; ++k) dims[k] = m.dims[k]; vec<D,int> v(dims); vh::note("indices of " + sd(m.dims)); std::array<size_t,D> ix; ix.fill(0); vec1u cur(D), nn(D); for (size_t k = 0; k < D; ++k) nn.safe[k] = m.dims[k]; vec1u all = indgen(n); vec2u mm = mult_ids(v, all), md = mult_ids(dims, all); bool ok = mm.dims[0] == D && mm.dims[1] == n;
    for (size_t f = 0; f < n; ++f) { vec1u i = mult_ids(v, f), j = mult_ids(dims, f); for (size_t k = 0; k < D; ++k) ok = ok && i.safe[k] == ix[k] && j.safe[k] == ix[k] && mm.safe(k,f) == ix[k] && md.safe(k,f) == ix[k] && cur.safe[k] == ix[k]; ok = ok && i.size() == D; increment_index_list(cur, nn); bool more = m.next(ix); ok = ok && (more || f + 1 == n); }
    for (size_t k = 0; k < D; ++k) ok = ok && cur.safe[k] == 0; vh::check(ok, "mult_ids", sd(m.dims)); vh::sig(sd(m.dims)); ev("indices");
    size_t q = rng.u(1, 4); vec1u c2(D); size_t tot = 1; for (size_t k = 0; k < D; ++k) tot *= q; bool o2 = true; for (size_t f = 0; f < tot; ++f) { size_t ff = 0; for (size_t k = 0; k < D; ++k) ff = ff*q + c2.safe[k]; o2 = o2 && ff == f; increment_index_list(c2, q); } for (size_t k = 0; k < D; ++k) o2 = o2 && c2.safe[k] == 0; vh::check(o2, "increment-uniform", "");
}
SCEN(bijection, 3000, 40000) { switch (rng.i(0, 3)) { case 0: bij<1>(rng); break; case 1: bij<2>(rng); break; case 2: bij<3>(rng); break; default: bij<4>(rng); }
    size_t a = rng.u(1, 6), b = rng.u(1, 6), c = rng.u(1, 6); vec<3,int> v(a, b, c); size_t i = rng.u(0, a-1), j = rng.u(0, b-1), k = rng.u(0, c-1); vh::check(flat_id(v, i, j, k) == (i*b + j)*c + k && flat_id(v.dims, i, j, k) == (i*b + j)*c + k, "flat_id", ""); vec1u mi = mult_ids(v, flat_id(v, i, j, k)); vh::check(mi[0] == i && mi[1] == j && mi[2] == k, "inverse", "");
}
#endif
