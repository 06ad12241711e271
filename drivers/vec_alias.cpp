// Assignments and compound assignments between a vector and (overlapping) selections of itself
// must behave as if the right-hand side had been copied first.
#include "model.hpp"
using namespace vif;
using namespace vh;

template<typename T> struct Ops { // all values small integers, so that +,-,* are exact
    static T val(Rng& r) { return (T)r.i(1, 9); }
};
template<> struct Ops<std::string> { static std::string val(Rng& r) { return Val<std::string>::get(r); } };

template<typename T> void ap(int op, T& a, T b) { switch (op) { case 0: a = b; break; case 1: a += b; break; case 2: a -= b; break; case 3: a *= b; break; case 4: a /= b; break; } }
template<> void ap<std::string>(int op, std::string& a, std::string b) { if (op == 0) a = b; else a += b; }
template<typename L, typename R> void apv(int op, L&& l, const R& r) { switch (op) { case 0: l = r; break; case 1: l += r; break; case 2: l -= r; break; case 3: l *= r; break; case 4: l /= r; break; } }
template<typename L, typename R> void aps(int op, L&& l, const R& r) { if (op == 0) l = r; else l += r; }
static const char* opn[] = {"=", "+=", "-=", "*=", "/="};

// random permutation-like destination (no repeated element), arbitrary source (repeats allowed)
static std::vector<size_t> distinct(Rng& r, size_t n, size_t k) { std::vector<size_t> a(n); std::iota(a.begin(), a.end(), 0); r.shuffle(a); a.resize(k); return a; }
static vec1u tou(const std::vector<size_t>& a) { vec1u v; for (auto x : a) v.push_back(x); return v; }

// form of the source expression over v, all selecting sel
template<typename T, typename F> void source(int form, vec<1,T>& v, const std::vector<size_t>& sel, Rng& rng, F&& f) {
    const vec<1,T>& cv = v; vec1u ids = tou(sel);
    switch (form) {
    case 0: f(v[ids]); break;
    case 1: f(cv[ids]); break;
    case 2: f(v(ids)); break;
    case 3: f(cv(ids)); break;
    case 4: { auto w = v[ids]; f(w[_]); break; }
    case 5: { const auto w = cv[ids]; f(w[_]); break; }
    case 6: { auto w = v[ids]; f(w(_)); break; }
    case 7: { // view of a view by indices: reverse twice
        std::vector<size_t> rs(sel.rbegin(), sel.rend()); vec1u rid = tou(rs); vec1u back; for (size_t k = sel.size(); k-- > 0;) back.push_back(k);
        auto w = v[rid]; f(w[back]); break; }
    case 8: { vec1u rid; std::vector<size_t> rs(sel.rbegin(), sel.rend()); rid = tou(rs); vec1u back; for (size_t k = sel.size(); k-- > 0;) back.push_back(k);
        const auto w = cv[rid]; f(w(back)); break; }
    }
}
template<typename T, typename S> void do_apply(int op, int df, vec<1,T>& v, const vec1u& did, const S& src) {
    if (df == 0) { auto w = v[did]; apv(op, w, src); }
    else if (df == 1) { auto w = v(did); apv(op, w, src); }
    else { auto w0 = v[did]; auto w = w0[_]; apv(op, w, src); }
}
template<typename S> void do_apply(int op, int df, vec<1,std::string>& v, const vec1u& did, const S& src) {
    if (df == 0) { auto w = v[did]; aps(op, w, src); }
    else if (df == 1) { auto w = v(did); aps(op, w, src); }
    else { auto w0 = v[did]; auto w = w0[_]; aps(op, w, src); }
}
template<typename T, typename S> void whole(int op, vec<1,T>& v, const S& s) { apv(op, v, s); }
template<typename S> void whole(int op, vec<1,std::string>& v, const S& s) { aps(op, v, s); }

template<typename T> int nops() { return 5; }
template<> int nops<std::string>() { return 2; }

template<typename T> void dst_view(Rng& rng) {
    size_t n = rng.u(1, 12); vec<1,T> v(n); std::vector<T> m(n);
    for (size_t k = 0; k < n; ++k) { m[k] = Ops<T>::val(rng); v[k] = m[k]; }
    size_t k = rng.u(0, n); auto d = distinct(rng, n, k); std::vector<size_t> s; for (size_t q = 0; q < k; ++q) s.push_back(rng.u(0, n-1));
    int op = (int)rng.i(0, nops<T>()-1), form = (int)rng.i(0, 8), df = (int)rng.i(0, 2);
    vh::note(fmt("v[%s] %s source form %d %s, dest form %d, v=%s", sv(d).c_str(), opn[op], form, sv(s).c_str(), df, sv(m).c_str()));
    std::vector<T> t; for (auto x : s) t.push_back(m[x]);
    for (size_t q = 0; q < k; ++q) ap<T>(op, m[d[q]], t[q]);
    vec1u did = tou(d);
    source(form, v, s, rng, [&](const auto& src) { do_apply(op, df, v, did, src); });
    vh::check(eqvec(flat(v), m), fmt("view%s", opn[op]), svv(v) + " expected " + sv(m));
    std::set<size_t> a(d.begin(), d.end()); size_t ov = 0; for (auto x : s) ov += a.count(x); if (ov) ev("overlapping"); ev(std::string("op") + opn[op]);
    vh::sig(fmt("%s%d%d%d%zu%zu", tname<T>(), op, form, df, k, ov));
}
template<typename T> void dst_vec(Rng& rng) { // the whole vector is the destination; with = it may change size
    size_t n = rng.u(1, 12); vec<1,T> v(n); std::vector<T> m(n);
    if (rng.b(0.3)) v.reserve(64);
    for (size_t k = 0; k < n; ++k) { m[k] = Ops<T>::val(rng); v[k] = m[k]; }
    int op = (int)rng.i(0, nops<T>()-1), form = (int)rng.i(0, 8); size_t k = op == 0 ? rng.u(0, 20) : n;
    std::vector<size_t> s; for (size_t q = 0; q < k; ++q) s.push_back(rng.u(0, n-1));
    vh::note(fmt("v %s source form %d %s, v=%s", opn[op], form, sv(s).c_str(), sv(m).c_str()));
    std::vector<T> t; for (auto x : s) t.push_back(m[x]);
    if (op == 0) m = t; else for (size_t q = 0; q < k; ++q) ap<T>(op, m[q], t[q]);
    source(form, v, s, rng, [&](const auto& src) { whole(op, v, src); });
    vh::check(consistent(v), fmt("vec%s-shape", opn[op]), svv(v));
    vh::check(eqvec(flat(v), m), fmt("vec%s", opn[op]), svv(v) + " expected " + sv(m));
    ev(std::string("whole") + opn[op]);
    vh::sig(fmt("%s%d%d%zu%zu", tname<T>(), op, form, k, n));
}
SCEN(view_int, 40000, 400000) { dst_view<int>(rng); }
SCEN(view_double, 20000, 200000) { dst_view<double>(rng); }
SCEN(view_string, 15000, 150000) { dst_view<std::string>(rng); }
SCEN(whole_int, 30000, 300000) { dst_vec<int>(rng); }
SCEN(whole_string, 15000, 150000) { dst_vec<std::string>(rng); }

// scalar operand that is an element of the destination
SCEN(scalar_element, 20000, 200000) {
    size_t n = rng.u(1, 8); vec1d v(n); std::vector<double> m(n); for (size_t k = 0; k < n; ++k) { m[k] = (double)rng.i(1, 9); v[k] = m[k]; }
    size_t e = rng.u(0, n-1); int op = (int)rng.i(0, 4); bool view = rng.b();
    auto d = distinct(rng, n, rng.u(1, n)); vh::note(fmt("%s %s v[%zu], v=%s", view ? ("v[" + sv(d) + "]").c_str() : "v", opn[op], e, sv(m).c_str()));
    double x = m[e]; const vec1d& cv = v; bool c = rng.b();
    if (!view && op == 0) op = 1;
    if (view) { for (auto q : d) ap<double>(op, m[q], x); vec1u id = tou(d); auto w = v[id]; if (c) apv(op, w, cv[e]); else apv(op, w, v[e]); }
    else { for (auto& q : m) ap<double>(op, q, x); switch (op) { case 1: v += v[e]; break; case 2: v -= v[e]; break; case 3: v *= cv[e]; break; case 4: v /= v[e]; break; } }
    vh::check(eqvec(flat(v), m), fmt("%s%s", view ? "view" : "vec", opn[op]), svv(v) + " expected " + sv(m)); ev("scalar-element");
    vh::sig(fmt("%d%d%zu%zu", view, op, n, e));
}
// 2-D: rows, columns, transposed selections
SCEN(rows_cols, 25000, 250000) {
    vec2d v; Model<2,double> m; size_t n = rng.u(1, 5); std::array<size_t,2> d = {{n, n}}; make(rng, d, v, m); const vec2d& cv = v;
    int op = (int)rng.i(0, 3); size_t a = rng.u(0, n-1), b = rng.u(0, n-1); int f = (int)rng.i(0, 6);
    vh::note(fmt("2-D form %d op %s a=%zu b=%zu ", f, opn[op], a, b) + sm(m));
    auto o = m; auto at = [&](Model<2,double>& q, size_t i, size_t j) -> double& { return q.data[i*n+j]; };
    for (size_t k = 0; k < n; ++k) switch (f) {
        case 0: case 1: ap<double>(op, at(m, a, k), at(o, k, b)); break;          // row a  op  column b
        case 2: ap<double>(op, at(m, k, a), at(o, b, k)); break;                   // column a op row b
        case 3: ap<double>(op, at(m, a, k), at(o, b, n-1-k)); break;               // row a op reversed row b
        case 4: for (size_t j = 0; j < n; ++j) ap<double>(op, at(m, k, j), at(o, n-1-k, j)); break; // flip rows
        case 5: case 6: for (size_t j = 0; j < n; ++j) ap<double>(op, at(m, k, j), at(o, k, n-1-j)); break; // flip columns
    }
    vec1u r; for (size_t k = n; k-- > 0;) r.push_back(k);
    switch (f) {
        case 0: { auto w = v(a,_); apv(op, w, v(_,b)); break; }
        case 1: { auto w = v(a,_); apv(op, w, cv(_,b)); break; }
        case 2: { auto w = v(_,a); apv(op, w, v(b,_)); break; }
        case 3: { auto w = v(a,_); apv(op, w, v(b,r)); break; }
        case 4: { if (rng.b()) { auto w = v(_,_); apv(op, w, v(r,_)); } else apv(op, v, v(r,_)); break; }
        case 5: { auto w = v(_,_); apv(op, w, cv(_,r)); break; }
        case 6: { apv(op, v, cv(_,r)); break; }
    }
    vh::check(same(v, m), fmt("form%d%s", f, opn[op]), svv(v) + " expected " + sm(m)); ev("2-D");
    vh::sig(fmt("%d%d%zu%zu%zu", f, op, n, a, b));
}
// sub-blocks that overlap partially, 3-D
SCEN(blocks, 15000, 150000) {
    vec3i v; Model<3,int_t> m; auto d = rdims<3>(rng, 4, 0); make(rng, d, v, m); int op = (int)rng.i(0, 3);
    std::array<std::vector<size_t>,3> ds, ss; std::array<vec1u,3> du, su;
    for (int k = 0; k < 3; ++k) { size_t c = rng.u(1, d[k]); ds[k] = distinct(rng, d[k], c); for (size_t q = 0; q < c; ++q) ss[k].push_back(rng.u(0, d[k]-1)); du[k] = tou(ds[k]); su[k] = tou(ss[k]); }
    vh::note("3-D block " + sd(d) + " dst " + sv(ds[0]) + sv(ds[1]) + sv(ds[2]) + opn[op] + sv(ss[0]) + sv(ss[1]) + sv(ss[2]));
    auto o = m;
    for (size_t i = 0; i < ds[0].size(); ++i) for (size_t j = 0; j < ds[1].size(); ++j) for (size_t k = 0; k < ds[2].size(); ++k)
        ap<int_t>(op, m.data[m.off({{ds[0][i], ds[1][j], ds[2][k]}})], o.data[o.off({{ss[0][i], ss[1][j], ss[2][k]}})]);
    auto w = v(du[0], du[1], du[2]); const vec3i& cv = v;
    if (rng.b()) apv(op, w, v(su[0], su[1], su[2])); else apv(op, w, cv(su[0], su[1], su[2]));
    vh::check(same(v, m), fmt("block%s", opn[op]), svv(v) + " expected " + sm(m));
    vh::sig(fmt("%d%zu%zu%zu", op, ds[0].size(), ds[1].size(), ds[2].size()));
}
// aliased operands in expressions, element copies and push_back
SCEN(expressions, 15000, 150000) {
    size_t n = rng.u(2, 8); vec1d v(n); std::vector<double> m(n); for (size_t k = 0; k < n; ++k) { m[k] = (double)rng.i(1, 9); v[k] = m[k]; }
    vec1u r; for (size_t k = n; k-- > 0;) r.push_back(k); auto o = m; int f = (int)rng.i(0, 6); vh::note(fmt("expression form %d ", f) + sv(m));
    switch (f) {
    case 0: v = v[r] + v; for (size_t k = 0; k < n; ++k) m[k] = o[n-1-k] + o[k]; break;
    case 1: v[_] = v - v[r]; for (size_t k = 0; k < n; ++k) m[k] = o[k] - o[n-1-k]; break;
    case 2: v = 2.0*v[r]; for (size_t k = 0; k < n; ++k) m[k] = 2*o[n-1-k]; break;
    case 3: v += v; for (auto& x : m) x += x; break;
    case 4: v *= v[r]*v; for (size_t k = 0; k < n; ++k) m[k] = o[k]*(o[n-1-k]*o[k]); break;
    case 5: v[1-_] = v[_-(n-2)]; for (size_t k = 1; k < n; ++k) m[k] = o[k-1]; break;
    case 6: v[_-(n-2)] += v[1-_]; for (size_t k = 0; k+1 < n; ++k) m[k] = o[k] + o[k+1]; break;
    }
    vh::check(eqvec(flat(v), m), fmt("form%d", f), svv(v) + " expected " + sv(m));
    vh::sig(fmt("%d%zu", f, n));
}
// mismatching sizes are refused and leave the destination alone
SCEN(mismatch, 8000, 80000) {
    size_t n = rng.u(2, 9); vec1i v(n); std::vector<int_t> m(n); for (size_t k = 0; k < n; ++k) { m[k] = rng.i(1, 9); v[k] = m[k]; }
    size_t a = rng.u(1, n), b = rng.u(0, 12); vec1u id = tou(distinct(rng, n, a)); vec1i w(b); for (auto& x : w) x = rng.i(10, 20);
    int op = (int)rng.i(0, 3); bool whole = rng.b() && op != 0; vh::note(fmt("%zu %s %zu values", whole ? n : a, opn[op], b));
    Outcome o = guarded([&]() { if (whole) apv(op, v, w); else { auto q = v[id]; apv(op, q, w); } });
    size_t need = whole ? n : a;
    if (b == need) vh::check(o.ok(), "valid-refused", o.str());
    else { vh::check(o.refused(), "mismatch-accepted", svv(v)); vh::check(eqvec(flat(v), m), "mismatch-modified", svv(v)); ev("refused"); }
    vh::sig(fmt("%zu%zu%d%d", need, b, op, whole));
}
