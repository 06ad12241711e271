// Indexing: every access form resolves to exactly the addressed elements, or is refused.
// The oracle resolves the index expression on a plain model.
#include "model.hpp"
using namespace vif;
using namespace vh;

#ifndef PART
#define PART 0
#endif

enum IK { I_INT, I_UINT, I_FULL, I_LEFT, I_RIGHT, I_LR, I_VU, I_VI, I_NARROW, NKIND };
struct Idx {
    int kind; long long a = 0, b = 0; std::vector<long long> ids;
    std::string str() const {
        switch (kind) {
        case I_INT: return fmt("%lld", a); case I_UINT: return fmt("%lluu", (unsigned long long)a);
        case I_NARROW: return fmt("int8(%lld)", a);
        case I_FULL: return "_"; case I_LEFT: return fmt("_-%lld", b); case I_RIGHT: return fmt("%lld-_", a);
        case I_LR: return fmt("%lld-_-%lld", a, b); case I_VU: return "u" + sv(ids); default: return "i" + sv(ids);
        }
    }
    bool scalar() const { return kind == I_INT || kind == I_UINT || kind == I_NARROW; }
    // resolve against one dimension; false if invalid
    bool resolve(size_t n, std::vector<size_t>& out) const {
        out.clear(); long long N = n;
        auto one = [&](long long x, bool sgn) { if (sgn && x < 0) x += N; if (x < 0 || x >= N) return false; out.push_back(x); return true; };
        switch (kind) {
        case I_INT: case I_NARROW: return one(a, true);
        case I_UINT: return one(a, false);
        case I_FULL: for (long long k = 0; k < N; ++k) out.push_back(k); return true;
        case I_LEFT: if (b >= N) return false; for (long long k = 0; k <= b; ++k) out.push_back(k); return true;
        case I_RIGHT: if (a >= N) return false; for (long long k = a; k < N; ++k) out.push_back(k); return true;
        case I_LR: if (a >= N || b >= N || a > b) return false; for (long long k = a; k <= b; ++k) out.push_back(k); return true;
        case I_VU: for (auto x : ids) if (!one(x, false)) return false; return true;
        case I_VI: for (auto x : ids) if (!one(x, true)) return false; return true;
        }
        return false;
    }
};
// n: dimension; bad: aim for an invalid index
static Idx gen(Rng& r, size_t n, bool bad, int kind = -1) {
    Idx x; x.kind = kind >= 0 ? kind : (int)r.i(0, NKIND-1);
    if (bad && x.kind == I_FULL) x.kind = I_INT;
    long long N = n;
    auto good1 = [&](bool sgn) -> long long { return sgn && r.b(0.4) ? r.i(-N, -1) : r.i(0, N-1); };
    // indices below -N are not generated: what they mean is not documented
    auto bad1 = [&]() -> long long { return r.b(0.6) ? N : r.b(0.5) ? N + r.i(1, 20) : N + r.i(1000, 1000000); };
    switch (x.kind) {
    case I_INT: x.a = bad ? bad1() : good1(true); break;
    case I_NARROW: x.a = bad ? std::min<long long>(127, bad1()) : good1(true); if (x.a < -128 || x.a > 127 || (bad && x.a < N)) { x.kind = I_INT; if (bad) x.a = bad1(); } break;
    case I_UINT: x.a = bad ? bad1() : good1(false); break;
    case I_LEFT: x.b = bad ? bad1() : r.i(0, N-1); break;
    case I_RIGHT: x.a = bad ? bad1() : r.i(0, N-1); break;
    case I_LR: if (bad) { if (r.b(0.3) && N >= 3) { x.b = r.i(0, N-3); x.a = x.b + r.i(2, N-1-x.b); } else { x.a = r.i(0, N); x.b = std::max(x.a, bad1()); } }
        else { x.a = r.i(0, N-1); x.b = r.i(x.a, N-1); } break;
    case I_VU: case I_VI: { size_t k = bad ? r.u(1, 6) : r.u(0, 6); for (size_t q = 0; q < k; ++q) x.ids.push_back(good1(x.kind == I_VI));
        if (bad) x.ids[r.u(0, k-1)] = bad1(); break; }
    }
    return x;
}
template<typename F> void with(const Idx& x, F&& f) {
    switch (x.kind) {
    case I_INT: f((int_t)x.a); break;
    case I_UINT: f((uint_t)x.a); break;
    case I_NARROW: f((int8_t)x.a); break;
    case I_FULL: f(_); break;
    case I_LEFT: f(_-(uint_t)x.b); break;
    case I_RIGHT: f((uint_t)x.a-_); break;
    case I_LR: f((uint_t)x.a-_-(uint_t)x.b); break;
    case I_VU: { vec1u v; for (auto k : x.ids) v.push_back((uint_t)k); f(v); break; }
    case I_VI: { vec1i v; for (auto k : x.ids) v.push_back((int_t)k); f(v); break; }
    }
}
// same, with fewer kinds (used where the number of combinations would be too large)
template<typename F> void with_few(const Idx& x, F&& f) {
    switch (x.kind) {
    case I_INT: case I_UINT: case I_NARROW: f((int_t)x.a); break;
    case I_FULL: f(_); break;
    case I_LEFT: case I_RIGHT: case I_LR: f((uint_t)x.a-_-(uint_t)x.b); break;
    case I_VU: case I_VI: { vec1i v; for (auto k : x.ids) v.push_back((int_t)k); f(v); break; }
    }
}
static void fewer(Idx& x, size_t n) {
    if (x.kind == I_UINT || x.kind == I_NARROW) x.kind = I_INT;
    if (x.kind == I_LEFT) { x.a = 0; x.kind = I_LR; }
    if (x.kind == I_RIGHT) { x.b = std::max<long long>(x.a, (long long)n-1); x.kind = I_LR; }
    if (x.kind == I_VU) x.kind = I_VI;
}

// what an access produced: addresses of the elements, in order, and the shape
struct Got { std::vector<const void*> p; std::vector<size_t> dims; bool scalar = false; };
template<std::size_t D, typename T> void collect(Got& g, const vec<D,T*>& v) {
    g.dims.assign(v.dims.begin(), v.dims.end());
    for (size_t k = 0; k < v.size(); ++k) g.p.push_back(&v.safe[k]);
}
template<typename T> void collect(Got& g, const T& x) { g.scalar = true; g.p.push_back(&x); }

struct Want { bool valid; std::vector<size_t> off; std::vector<size_t> dims; bool scalar; };
template<std::size_t D> Want want(const std::array<size_t,D>& dims, const std::vector<Idx>& ix) {
    Want w; w.valid = true; w.scalar = true;
    std::vector<std::vector<size_t>> sel(D);
    for (size_t k = 0; k < D; ++k) {
        if (!ix[k].resolve(dims[k], sel[k])) w.valid = false;
        if (!ix[k].scalar()) { w.scalar = false; w.dims.push_back(sel[k].size()); }
    }
    if (!w.valid) return w;
    w.off.push_back(0);
    for (size_t k = 0; k < D; ++k) {
        std::vector<size_t> n;
        for (auto o : w.off) for (auto s : sel[k]) n.push_back(o*dims[k] + s);
        w.off = n;
    }
    return w;
}
template<std::size_t D> std::string ixs(const char* what, const std::array<size_t,D>& d, const std::vector<Idx>& ix) {
    std::string s = what; s += " on [" + sd(d) + "] ("; for (size_t k = 0; k < ix.size(); ++k) s += (k ? ", " : "") + ix[k].str(); return s + ")";
}
// elem(off) gives the address of the off-th element of the host
template<typename E>
void verdict(const std::string& form, const Outcome& o, const Got& g, const Want& w, E&& elem) {
    if (!w.valid) {
        ev("invalid-access");
        vh::check(o.refused(), form + ":out-of-bounds-accepted", "an invalid index was accepted, giving " + s1(g.p.size()) + " element(s)");
        return;
    }
    ev("valid-access");
    if (!vh::check(o.ok(), form + ":valid-refused", o.str())) return;
    bool ok = g.p.size() == w.off.size() && g.scalar == w.scalar && (g.scalar || g.dims == w.dims);
    if (!vh::check(ok, form + ":shape", fmt("%zu elements in shape ", g.p.size()) + sv(g.dims) + " expected " + sv(w.dims))) return;
    for (size_t k = 0; k < g.p.size(); ++k)
        if (!vh::check(g.p[k] == elem(w.off[k]), form + ":wrong-element", fmt("element %zu of the result is not source element %zu", k, w.off[k]))) return;
}
static bool want_bad(Rng& r) { return r.b(0.35); }

template<std::size_t D> std::vector<Idx> genall(Rng& rng, const std::array<size_t,D>& d, bool few) {
    std::vector<Idx> ix; bool bad = want_bad(rng); size_t which = rng.u(0, D-1);
    for (size_t k = 0; k < D; ++k) {
        Idx x = gen(rng, d[k], bad && (k == which || rng.b(0.2)));
        if (few) fewer(x, d[k]);
        ix.push_back(x);
    }
    // An invalid index in one dimension is only an access if the others select something
    bool anybad = false, anyempty = false; std::vector<size_t> t;
    for (size_t k = 0; k < D; ++k) { if (!ix[k].resolve(d[k], t)) anybad = true; else if (t.empty()) anyempty = true; }
    if (anybad && anyempty) for (size_t k = 0; k < D; ++k) if (ix[k].resolve(d[k], t) && t.empty()) { ix[k].kind = few ? I_INT : I_UINT; ix[k].a = 0; }
    return ix;
}
static std::string kinds(const std::vector<Idx>& ix) { std::string s; for (auto& x : ix) s += (char)('a'+x.kind); return s; }

#if PART == 0
// ---- 1-D: operator() and operator[], owning vectors and views, const or not
template<typename V> void oneD(Rng& rng, V& v, size_t n, const char* what, std::function<const void*(size_t)> elem, bool paren) {
    std::array<size_t,1> d = {{n}};
    auto ix = genall(rng, d, false);
    vh::note(ixs(what, d, ix)); Want w = want(d, ix); Got g;
    Outcome o = guarded([&]() { with(ix[0], [&](const auto& i) { if (paren) collect(g, v(i)); else collect(g, v[i]); }); });
    verdict(std::string(what) + (paren ? "()" : "[]"), o, g, w, elem);
    vh::sig(std::string(what) + kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()) + (paren ? "p" : "b") + s1(n));
}
template<typename T> void all1(Rng& rng) {
    vec<1,T> v; Model<1,T> m; size_t n = rng.b(0.1) ? rng.u(120, 300) : rng.u(1, 9); make(rng, {{n}}, v, m);
    const vec<1,T>& cv = v;
    auto ev_ = [&](size_t k) -> const void* { return (const char*)v.raw_data() + k*sizeof(T); };
    for (int pr = 0; pr < 2; ++pr) {
        oneD(rng, v, n, "vec", ev_, pr);
        oneD(rng, cv, n, "const-vec", ev_, pr);
        // a view with arbitrary order
        vec1u ids; std::vector<size_t> sel; size_t k = rng.u(1, 8); for (size_t q = 0; q < k; ++q) { size_t z = rng.u(0, n-1); ids.push_back(z); sel.push_back(z); }
        auto w = v[ids]; const auto& cw = w; const auto ww = cv[ids];
        auto ew = [&](size_t z) -> const void* { return (const char*)v.raw_data() + sel[z]*sizeof(T); };
        oneD(rng, w, k, "view", ew, pr);
        oneD(rng, cw, k, "const-view", ew, pr);
        oneD(rng, ww, k, "view-of-const", ew, pr);
    }
}
SCEN(one_dim_int, 12000, 200000) { all1<int>(rng); }
SCEN(one_dim_string, 6000, 100000) { all1<std::string>(rng); }
SCEN(one_dim_bool, 6000, 100000) { all1<bool>(rng); }

// ---- flat access to multi-dimensional vectors with operator[]
SCEN(flat_access, 12000, 200000) {
    vec<2,int> v; Model<2,int> m; auto d = rdims<2>(rng, 5, 0); make(rng, d, v, m); const vec<2,int>& cv = v;
    std::array<size_t,1> fd = {{v.size()}};
    auto ix = genall(rng, fd, false); vh::note(ixs("flat", fd, ix)); Want w = want(fd, ix); Got g;
    auto el = [&](size_t k) -> const void* { return v.raw_data() + k; };
    Outcome o;
    if (rng.b()) { o = guarded([&]() { with(ix[0], [&](const auto& i) { collect(g, v[i]); }); }); verdict("flat", o, g, w, el); }
    else { o = guarded([&]() { with(ix[0], [&](const auto& i) { collect(g, cv[i]); }); }); verdict("flat-const", o, g, w, el); }
    vh::sig(kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()) + sd(d));
}
// accesses to empty vectors
SCEN(empty_access, 600, 6000) {
    vec1i v; vec2i w(rng.u(0,1), 0); int k = (int)rng.i(0, 9); bool ref = true; vh::note(fmt("empty access form %d", k));
    volatile int sink = 0; (void)sink;
    Outcome o = guarded([&]() {
        switch (k) {
        case 0: sink = v[0]; break; case 1: sink = v[-1]; break; case 2: sink = v[0u]; break;
        case 3: { vec1u i = {0}; auto q = v[i]; break; } case 4: { auto q = v[_-0]; break; } case 5: { auto q = v[0-_]; break; }
        case 6: sink = w(0,0); break; case 7: sink = w[0]; break; case 8: sink = v(-1); break;
        case 9: { auto q = v[_]; vh::check(q.empty(), "full-range-of-empty", ""); ref = false; break; }
        }
    });
    if (ref) vh::check(o.refused(), "accepted", fmt("form %d", k)); else vh::check(o.ok(), "refused", o.str());
    vh::sig(s1(k));
}
#endif

#if PART == 1
// ---- 2-D, all index kinds
template<typename T> void two(Rng& rng) {
    vec<2,T> v; Model<2,T> m; auto d = rdims<2>(rng, 6, 0); make(rng, d, v, m);
    auto ix = genall(rng, d, false); vh::note(ixs("vec2", d, ix)); Want w = want(d, ix); Got g;
    Outcome o = guarded([&]() { with(ix[0], [&](const auto& i) { with(ix[1], [&](const auto& j) { collect(g, v(i, j)); }); }); });
    verdict("vec2", o, g, w, [&](size_t k) -> const void* { return (const char*)v.raw_data() + k*sizeof(T); });
    // write through it
    if (w.valid && o.ok() && !w.off.empty()) {
        T x = Val<T>::get(rng);
        guarded([&]() { with(ix[0], [&](const auto& i) { with(ix[1], [&](const auto& j) { v(i, j) = x; }); }); });
        for (auto k : w.off) m.data[k] = x;
        vh::check(same(v, m), "vec2:write", "after writing one value: " + svv(v) + " expected " + sm(m)); ev("write");
    }
    vh::sig(kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()));
}
SCEN(two_dim_int, 30000, 400000) { two<int>(rng); }
SCEN(two_dim_string, 8000, 100000) { two<std::string>(rng); }
#endif

#if PART == 2
SCEN(two_dim_const, 30000, 300000) {
    vec<2,double> v0; Model<2,double> m; auto d = rdims<2>(rng, 6, 0); make(rng, d, v0, m); const vec<2,double>& v = v0;
    auto ix = genall(rng, d, false); vh::note(ixs("const-vec2", d, ix)); Want w = want(d, ix); Got g;
    Outcome o = guarded([&]() { with(ix[0], [&](const auto& i) { with(ix[1], [&](const auto& j) { collect(g, v(i, j)); }); }); });
    verdict("const-vec2", o, g, w, [&](size_t k) -> const void* { return v.raw_data() + k; });
    vh::sig(kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()));
}
#endif

#if PART == 3
// ---- 3-D and 4-D, and views of views
SCEN(three_dim, 40000, 400000) {
    vec<3,int> v; Model<3,int> m; auto d = rdims<3>(rng, 5, 0); make(rng, d, v, m); const vec<3,int>& cv = v; bool c = rng.b();
    auto ix = genall(rng, d, true); vh::note(ixs(c ? "const-vec3" : "vec3", d, ix)); Want w = want(d, ix); Got g;
    auto el = [&](size_t k) -> const void* { return v.raw_data() + k; };
    Outcome o = guarded([&]() { with_few(ix[0], [&](const auto& i) { with_few(ix[1], [&](const auto& j) { with_few(ix[2], [&](const auto& k) {
        if (c) collect(g, cv(i, j, k)); else collect(g, v(i, j, k)); }); }); }); });
    verdict(c ? "const-vec3" : "vec3", o, g, w, el);
    vh::sig(kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()));
}
SCEN(view_of_view, 30000, 300000) {
    // v(rows, cols) -> 2-D view, then index the view again
    vec<2,int> v; Model<2,int> m; auto d = rdims<2>(rng, 6, 0); make(rng, d, v, m);
    vec1u a, b; size_t na = rng.u(1, 5), nb = rng.u(1, 5); for (size_t k = 0; k < na; ++k) a.push_back(rng.u(0, d[0]-1)); for (size_t k = 0; k < nb; ++k) b.push_back(rng.u(0, d[1]-1));
    auto w1 = v(a, b); const auto& cw1 = w1; std::array<size_t,2> vd = {{na, nb}};
    auto el = [&](size_t k) -> const void* { return v.raw_data() + a[k/nb]*d[1] + b[k%nb]; };
    Got g; 
    if (rng.b()) {
        auto ix = genall(rng, vd, true); vh::note("on view " + svv(a) + "x" + svv(b) + ": " + ixs("view2", vd, ix)); Want w = want(vd, ix); bool c = rng.b();
        Outcome o = guarded([&]() { with_few(ix[0], [&](const auto& i) { with_few(ix[1], [&](const auto& j) { if (c) collect(g, cw1(i, j)); else collect(g, w1(i, j)); }); }); });
        verdict(c ? "const-view2" : "view2", o, g, w, el); vh::sig("2" + kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()));
    } else {
        std::array<size_t,1> fd = {{na*nb}};
        auto ix = genall(rng, fd, false); vh::note("on view " + svv(a) + "x" + svv(b) + ": " + ixs("view2-flat", fd, ix)); Want w = want(fd, ix); bool c = rng.b();
        Outcome o = guarded([&]() { with(ix[0], [&](const auto& i) { if (c) collect(g, cw1[i]); else collect(g, w1[i]); }); });
        verdict(c ? "const-view2-flat" : "view2-flat", o, g, w, el); vh::sig("1" + kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size()));
    }
}
// strides iterate exactly one line of the array
SCEN(strides, 8000, 80000) {
    vec<3,int> v; Model<3,int> m; auto d = rdims<3>(rng, 5, 0); make(rng, d, v, m); const vec<3,int>& cv = v;
    size_t i = rng.u(0, d[0]-1), j = rng.u(0, d[1]-1), k = rng.u(0, d[2]-1); int ax = (int)rng.i(0, 2); bool c = rng.b();
    vh::note(fmt("stride axis %d at %zu,%zu,%zu of ", ax, i, j, k) + sd(d));
    std::vector<int> got, exp;
    for (size_t q = 0; q < d[ax]; ++q) exp.push_back(m.data[((ax == 0 ? q : i)*d[1] + (ax == 1 ? q : j))*d[2] + (ax == 2 ? q : k)]);
    auto run = [&](auto&& s) { for (auto& x : s) got.push_back(x); };
    if (c) { if (ax == 0) run(cv.stride(_,j,k)); else if (ax == 1) run(cv.stride(i,_,k)); else run(cv.stride(i,j,_)); }
    else { if (ax == 0) run(v.stride(_,j,k)); else if (ax == 1) run(v.stride(i,_,k)); else run(v.stride(i,j,_)); }
    vh::check(got == exp, "content", sv(got) + " expected " + sv(exp));
    size_t bi = d[0] + rng.u(0, 3);
    Outcome o = guarded([&]() { for (auto& x : v.stride(bi, j, _)) { (void)x; } });
    vh::check(o.refused(), "out-of-bounds-accepted", fmt("index %zu of %zu", bi, d[0]));
    vh::sig(fmt("%d%d", ax, c) + sd(d));
}
#endif

#if PART == 4
// ---- the unchecked accessor, index lists given as views or in braces, ends, strides of views, assignments of lists to views
// (ranges through a constant accessor do not compile)
template<typename S> void saferange(Got& g, S& s, const Idx& x) { switch (x.kind) { case I_FULL: collect(g, s[_]); break; case I_LEFT: collect(g, s[_-(uint_t)x.b]); break; case I_RIGHT: collect(g, s[(uint_t)x.a-_]); break; default: collect(g, s[(uint_t)x.a-_-(uint_t)x.b]); } }
template<typename S> void saferange(Got& g, const S& s, const Idx& x) {}
template<typename V, typename S, typename F> void safe1(Rng& rng, V& v, S& sv_, size_t n, const char* what, F&& elem) {
    std::array<size_t,1> d = {{n}}; std::vector<Idx> ix = {gen(rng, n, false)};
    if (ix[0].kind == I_INT || ix[0].kind == I_NARROW) { ix[0].kind = I_UINT; ix[0].a = rng.i(0, n-1); }
    if (ix[0].kind == I_VI || (std::is_const<S>::value && ix[0].kind != I_UINT)) ix[0] = gen(rng, n, false, I_VU);
    vh::note(ixs(what, d, ix)); Want w = want(d, ix); Got g; int form = (int)rng.i(0, 2);
    Outcome o = guarded([&]() {
        if (ix[0].kind == I_VU && form == 1) { vec1u t; for (auto k : ix[0].ids) { t.push_back(999999); t.push_back((uint_t)k); } vec1u s; for (size_t k = 0; k < ix[0].ids.size(); ++k) s.push_back(2*k+1);
            const vec1u& ct = t; if (rng.b()) collect(g, sv_[t[s]]); else collect(g, sv_[t.safe[s]]); }
        else switch (ix[0].kind) { case I_UINT: collect(g, sv_[(uint_t)ix[0].a]); break; case I_FULL: case I_LEFT: case I_RIGHT: case I_LR: saferange(g, sv_, ix[0]); break; default: { vec1u t; for (auto k : ix[0].ids) t.push_back((uint_t)k); collect(g, sv_[t]); } }
    });
    verdict(what, o, g, w, elem); vh::sig(std::string(what) + kinds(ix) + s1(w.off.size()) + s1(form)); ev("safe");
}
template<typename T> void safeall(Rng& rng) {
    vec<1,T> v; Model<1,T> m; size_t n = rng.u(1, 9); make(rng, {{n}}, v, m); const vec<1,T>& cv = v;
    vec1u ids; std::vector<size_t> sel; size_t k = rng.u(1, 8); for (size_t q = 0; q < k; ++q) { size_t z = rng.u(0, n-1); ids.push_back(z); sel.push_back(z); }
    auto w = v[ids]; const auto& cw = w; const auto ww = cv[ids];
    auto ev_ = [&](size_t z) -> const void* { return (const char*)v.raw_data() + z*sizeof(T); };
    auto ew = [&](size_t z) -> const void* { return (const char*)v.raw_data() + sel[z]*sizeof(T); };
    safe1(rng, v, v.safe, n, "safe-vec", ev_); safe1(rng, cv, cv.safe, n, "safe-const-vec", ev_);
    safe1(rng, w, w.safe, k, "safe-view", ew); safe1(rng, cw, cw.safe, k, "safe-const-view", ew); safe1(rng, ww, ww.safe, k, "safe-view-of-const", ew);
    // ends
    vh::check((const void*)&w.front() == ew(0) && (const void*)&w.back() == ew(k-1) && (const void*)&cw.front() == ew(0) && (const void*)&cw.back() == ew(k-1) && (const void*)&ww.front() == ew(0) && (const void*)&ww.back() == ew(k-1), "view-ends", fmt("view of %zu of %zu", k, n));
    vh::check((const void*)&v.front() == ev_(0) && (const void*)&v.back() == ev_(n-1) && (const void*)&cv.front() == ev_(0) && (const void*)&cv.back() == ev_(n-1), "ends", fmt("%zu elements", n)); ev("ends");
    // iteration in order, both ways of constness
    { std::vector<const void*> a, b, c, e; for (auto& x : w) a.push_back(&x); for (auto& x : cw) b.push_back(&x); for (auto& x : v) c.push_back(&x); for (auto& x : cv) e.push_back(&x);
      bool ok = a.size() == k && b.size() == k && c.size() == n && e.size() == n; for (size_t q = 0; ok && q < k; ++q) ok = a[q] == ew(q) && b[q] == ew(q); for (size_t q = 0; ok && q < n; ++q) ok = c[q] == ev_(q) && e[q] == ev_(q);
      vh::check(ok, "iteration", fmt("%zu of %zu", k, n)); }
    // whole-vector views
    { auto f = w[_]; const auto cf = cw[_]; auto h = w[(uint_t)0-_]; vh::check(f.size() == k && cf.size() == k && h.size() == k && (const void*)&f.safe[k-1] == ew(k-1) && (const void*)&cf.safe[0] == ew(0) && (const void*)&h.safe[0] == ew(0), "view-of-all", ""); }
}
SCEN(safe_int, 8000, 100000) { safeall<int>(rng); }
SCEN(safe_string, 4000, 50000) { safeall<std::string>(rng); }
SCEN(safe_bool, 4000, 50000) { safeall<bool>(rng); }

// index lists that are themselves views, checked access
template<typename V, typename E> void by_view(Rng& rng, V& v, size_t n, const char* what, E&& elem) {
    std::array<size_t,1> d = {{n}}; std::vector<Idx> ix = {gen(rng, n, rng.b(0.3), rng.b() ? I_VU : I_VI)};
    vh::note(ixs(what, d, ix)); Want w = want(d, ix); Got g; bool c = rng.b();
    Outcome o = guarded([&]() {
        vec1u s; for (size_t k = 0; k < ix[0].ids.size(); ++k) s.push_back(ix[0].ids.size()-1-k);
        if (ix[0].kind == I_VU) { vec1u t; for (auto k : ix[0].ids) t.push_back((uint_t)k); std::reverse(t.begin(), t.end()); const vec1u& ct = t; if (c) collect(g, v[ct[s]]); else collect(g, v[t[s]]); }
        else { vec1i t; for (auto k : ix[0].ids) t.push_back((int_t)k); std::reverse(t.begin(), t.end()); const vec1i& ct = t; if (c) collect(g, v[ct[s]]); else collect(g, v[t[s]]); }
    });
    verdict(what, o, g, w, elem); vh::sig(std::string(what) + kinds(ix) + (w.valid ? "v" : "x") + s1(w.off.size())); ev("by-view");
}
SCEN(index_by_view, 10000, 100000) {
    vec1i v; Model<1,int_t> m; size_t n = rng.u(1, 9); make(rng, {{n}}, v, m); const vec1i& cv = v;
    vec1u ids; std::vector<size_t> sel; size_t k = rng.u(1, 8); for (size_t q = 0; q < k; ++q) { size_t z = rng.u(0, n-1); ids.push_back(z); sel.push_back(z); }
    auto w = v[ids]; const auto& cw = w;
    auto ev_ = [&](size_t z) -> const void* { return v.raw_data() + z; }; auto ew = [&](size_t z) -> const void* { return v.raw_data() + sel[z]; };
    by_view(rng, v, n, "vec-by-view", ev_); by_view(rng, cv, n, "const-vec-by-view", ev_); by_view(rng, w, k, "view-by-view", ew); by_view(rng, cw, k, "const-view-by-view", ew);
    // v(view of indices)
    { Got g; vec1u t = ids; Outcome o = guarded([&]() { vec1u s; for (size_t z = 0; z < k; ++z) s.push_back(z); collect(g, v(t[s])); }); Want wa; wa.valid = true; wa.scalar = false; wa.dims = {k}; wa.off = sel; verdict("call-by-view", o, g, wa, ev_); }
}
// braces
SCEN(braces, 8000, 80000) {
    vec1i v; Model<1,int_t> m; size_t n = rng.u(1, 7); make(rng, {{n}}, v, m);
    vec1u ids; std::vector<size_t> sel; size_t k = rng.u(1, 8); for (size_t q = 0; q < k; ++q) { size_t z = rng.u(0, n-1); ids.push_back(z); sel.push_back(z); }
    auto w = v[ids]; bool bad = rng.b(0.3), view = rng.b(), usafe = !bad && rng.b(0.3); long long N = view ? k : n;
    auto el = [&](size_t z) -> const void* { return v.raw_data() + (view ? sel[z] : z); };
    int_t a = rng.i(usafe ? 0 : -N, N-1), b = rng.i(usafe ? 0 : -N, N-1), c = bad ? N + rng.i(0, 3) : rng.i(usafe ? 0 : -N, N-1);
    vh::note(fmt("%s[{%lld,%lld,%lld}] of %lld%s", view ? "view" : "vec", (long long)a, (long long)b, (long long)c, N, usafe ? " safe" : ""));
    Got g; Want wa; wa.valid = !bad; wa.scalar = false; wa.dims = {3}; for (long long x : {(long long)a, (long long)b, (long long)c}) wa.off.push_back(x < 0 ? x + N : x);
    Outcome o = guarded([&]() {
        uint_t ua = a, ub = b, uc = c;
        if (usafe) { if (view) collect(g, w.safe[{ua, ub, uc}]); else collect(g, v.safe[{ua, ub, uc}]); }
        else if (view) collect(g, w[{a, b, c}]); else collect(g, v[{a, b, c}]);
    });
    verdict("braces", o, g, wa, el); vh::sig(fmt("%d%d%d%lld", bad, view, usafe, N)); ev("braces");
    // assigning a list to a selection
    if (!bad) {
        bool wrong = rng.b(0.25); int_t x = rng.i(-50, 50), y = rng.i(-50, 50), z = rng.i(-50, 50); vec1u t = {(uint_t)wa.off[0], (uint_t)wa.off[1], (uint_t)wa.off[2]};
        Outcome o2 = guarded([&]() { auto q = view ? w[t] : v[t]; if (wrong) q = {x, y}; else q = {x, y, z}; });
        if (wrong) { vh::check(o2.refused(), "list-of-wrong-size-accepted", ""); vh::check(same(v, m), "list-of-wrong-size-written", svv(v) + " was " + sm(m)); }
        else { size_t p[3]; for (int q = 0; q < 3; ++q) p[q] = view ? sel[t[q]] : t[q]; m.data[p[0]] = x; m.data[p[1]] = y; m.data[p[2]] = z;
            vh::check(o2.ok(), "list-refused", o2.str()); vh::check(same(v, m), "list-assigned", svv(v) + " expected " + sm(m)); ev("list-assigned"); }
    }
    // and a nested list to a block
    { vec2i u; Model<2,int_t> mu; size_t h = rng.u(2, 5), l = rng.u(3, 5); make(rng, {{h, l}}, u, mu); size_t i = rng.u(0, h-2), j = rng.u(0, l-3); int_t q[6]; for (auto& e : q) e = rng.i(-99, 99); int wrong = rng.b(0.3) ? (int)rng.i(1, 2) : 0;
      vh::note(fmt("block %zu,%zu of %zux%zu = {{..},{..}} wrong=%d", i, j, h, l, wrong));
      Outcome o3 = guarded([&]() { auto bl = u(i-_-(i+1), j-_-(j+2)); if (wrong == 1) bl = {{q[0], q[1], q[2]}}; else if (wrong == 2) bl = {{q[0], q[1], q[2]}, {q[3], q[4]}}; else bl = {{q[0], q[1], q[2]}, {q[3], q[4], q[5]}}; });
      if (wrong) vh::check(o3.refused(), "nested-list-of-wrong-shape-accepted", "");
      else { for (int a = 0; a < 2; ++a) for (int b = 0; b < 3; ++b) mu.data[(i+a)*l + j+b] = q[a*3+b]; vh::check(o3.ok() && same(u, mu), "nested-list", o3.str() + " " + svv(u) + " expected " + sm(mu)); } }
}
// a random walk with every operation of an iterator stays on the line of elements that it iterates over
template<typename I> void walk(Rng& rng, const char* what, I first, I last, const std::vector<const int*>& line) {
    long n = (long)line.size(); if (!vh::check(last - first == n && (first == last) == (n == 0) && (first != last) == (n != 0) && (first < last) == (n != 0) && first <= last && !(first > last) && (first >= last) == (n == 0), std::string(what) + "-range", fmt("%ld elements, expected %ld", (long)(last - first), n))) return;
    I a = first, b = rng.b() ? first : last; long pa = 0, pb = b == first ? 0 : n; if (n == 0) pb = 0;
    for (int k = 0; k < 12; ++k) {
        int op = (int)rng.i(0, 7); long t = rng.i(0, n), dl = t - pa; I old = a; long po = pa;
        switch (op) { case 0: if (pa < n) { I& r = ++a; ++pa; if (!(r == a)) vh::check(false, std::string(what) + "-increment-result", ""); } break; case 1: if (pa > 0) { I& r = --a; --pa; if (!(r == a)) vh::check(false, std::string(what) + "-decrement-result", ""); } break;
            case 2: if (pa < n) { old = a++; ++pa; } break; case 3: if (pa > 0) { old = a--; --pa; } break; case 4: a += dl; pa = t; break; case 5: a -= -dl; pa = t; break; case 6: a = a + dl; pa = t; break; default: a = a - (-dl); pa = t; }
        vh::check(old - first == po && a - first == pa && a - b == pa - pb && b - a == pb - pa, std::string(what) + "-position", fmt("operation %d: %ld, expected %ld of %ld", op, (long)(a - first), pa, n));
        vh::check((a == b) == (pa == pb) && (a != b) == (pa != pb) && (a < b) == (pa < pb) && (a <= b) == (pa <= pb) && (a > b) == (pa > pb) && (a >= b) == (pa >= pb), std::string(what) + "-comparison", fmt("%ld and %ld of %ld", pa, pb, n));
        if (pa < n) vh::check((const int*)&*a == line[pa], std::string(what) + "-element", fmt("%ld of %ld", pa, n));
        if (rng.b(0.3)) { std::swap(a, b); std::swap(pa, pb); }
    }
}
SCEN(iterator_walks, 8000, 80000) {
    vec<2,int> v; Model<2,int> m; auto d = rdims<2>(rng, 6, 0); make(rng, d, v, m); const auto& cv = v;
    vec1u ids; size_t n = rng.u(0, 7); for (size_t k = 0; k < n; ++k) ids.push_back(rng.u(0, v.size()-1));
    auto w = v[ids]; const auto& cw = w; std::vector<const int*> all, sel, row, col; for (size_t k = 0; k < v.size(); ++k) all.push_back(v.raw_data() + k); for (auto k : ids) sel.push_back(v.raw_data() + k);
    size_t i = rng.u(0, d[0]-1), j = rng.u(0, d[1]-1); for (size_t k = 0; k < d[1]; ++k) row.push_back(v.raw_data() + i*d[1] + k); for (size_t k = 0; k < d[0]; ++k) col.push_back(v.raw_data() + k*d[1] + j);
    vh::note(fmt("iterators of %zux%zu, %zu selected", (size_t)d[0], (size_t)d[1], n));
    walk(rng, "vector", v.begin(), v.end(), all); walk(rng, "const-vector", cv.begin(), cv.end(), all); walk(rng, "view", w.begin(), w.end(), sel); walk(rng, "const-view", cw.begin(), cw.end(), sel);
    { auto s = v.stride(i, _); walk(rng, "row", s.begin(), s.end(), row); } { auto s = v.stride(_, j); walk(rng, "column", s.begin(), s.end(), col); } { auto s = cv.stride(_, j); walk(rng, "const-column", s.begin(), s.end(), col); }
    // algorithms of the standard library through the iterators of a view only touch the selected elements
    { std::vector<size_t> u(v.size()); std::iota(u.begin(), u.end(), 0); rng.shuffle(u); u.resize(rng.u(0, v.size())); vec1u id; for (auto k : u) id.push_back(k); auto p = v[id]; std::vector<int> t; for (auto k : u) t.push_back(m.data[k]); int what = (int)rng.i(0, 2);
      long f = -1; if (what == 0) { std::reverse(t.begin(), t.end()); auto a = p.begin(), b = p.end(); while (a != b && a != --b) { std::swap(*a, *b); ++a; } } else if (what == 1) { int x = 7; for (auto& e : p) e = x++; x = 7; for (auto& e : t) e = x++; } else { int x = t.empty() ? 3 : t[rng.u(0, t.size()-1)]; f = std::find(p.begin(), p.end(), x) - p.begin(); vh::check(f == std::find(t.begin(), t.end(), x) - t.begin(), "find", s1(f)); }
      for (size_t k = 0; k < u.size(); ++k) m.data[u[k]] = t[k]; vh::check(same(v, m), "through-iterators", svv(v) + " expected " + sm(m)); }
    ev("iterators"); vh::sig(sd(d) + s1(n));
}
// strides of views, raw strides
SCEN(view_strides, 8000, 80000) {
    vec<2,int> v; Model<2,int> m; auto d = rdims<2>(rng, 6, 0); make(rng, d, v, m);
    vec1u a, b; size_t na = rng.u(1, 5), nb = rng.u(1, 5); for (size_t k = 0; k < na; ++k) a.push_back(rng.u(0, d[0]-1)); for (size_t k = 0; k < nb; ++k) b.push_back(rng.u(0, d[1]-1));
    auto w = v(a, b); const auto& cw = w; const auto& cv = v; bool row = rng.b(); size_t i = rng.u(0, (row ? na : nb)-1); int form = (int)rng.i(0, 3);
    vh::note(fmt("stride of a view: %s %zu of %zux%zu, form %d", row ? "row" : "column", i, na, nb, form));
    std::vector<const int*> got, exp; size_t n = row ? nb : na;
    for (size_t k = 0; k < n; ++k) exp.push_back(v.raw_data() + a[row ? i : k]*d[1] + b[row ? k : i]);
    auto run = [&](auto&& s) { for (auto& x : s) got.push_back(&x); };
    auto rraw = [&](auto&& s) { for (auto x : s) got.push_back(x); };
    if (form == 0) { if (row) run(w.stride(i,_)); else run(w.stride(_,i)); }
    else if (form == 1) { if (row) run(cw.stride(i,_)); else run(cw.stride(_,i)); }
    else if (form == 2) { if (row) rraw(w.raw_stride(i,_)); else rraw(w.raw_stride(_,i)); }
    else { if (row) rraw(cw.raw_stride(i,_)); else rraw(cw.raw_stride(_,i)); }
    vh::check(got == exp, "elements", fmt("%zu elements, expected %zu", got.size(), exp.size()));
    // raw strides of plain vectors
    { size_t q = rng.u(0, (row ? d[0] : d[1])-1), n2 = row ? d[1] : d[0]; std::vector<const int*> g2; bool c = rng.b();
      auto rr = [&](auto&& s) { for (auto& x : s) g2.push_back((const int*)&x); };
      if (c) { if (row) rr(cv.raw_stride(q,_)); else rr(cv.raw_stride(_,q)); } else { if (row) rr(v.raw_stride(q,_)); else rr(v.raw_stride(_,q)); }
      bool ok = g2.size() == n2; for (size_t k = 0; ok && k < n2; ++k) ok = g2[k] == v.raw_data() + (row ? q*d[1] + k : k*d[1] + q); vh::check(ok, "raw", fmt("%zu", g2.size())); }
    // writing through a stride changes exactly that line
    { size_t q = rng.u(0, d[0]-1); int x = (int)rng.i(-99, 99); for (auto& e : v.stride(q,_)) e = x++; x -= (int)d[1]; for (size_t k = 0; k < d[1]; ++k) m.data[q*d[1]+k] = x++; vh::check(same(v, m), "write-row", svv(v)); 
      q = rng.u(0, d[1]-1); for (auto& e : v.stride(_,q)) e = x++; x -= (int)d[0]; for (size_t k = 0; k < d[0]; ++k) m.data[k*d[1]+q] = x++; vh::check(same(v, m), "write-column", svv(v)); }
    // the iterators of a stride move and compare like pointers
    { auto s = v.stride(_, (uint_t)0); auto it = s.begin(), e = s.end(); size_t k = rng.u(0, d[0]-1); auto it2 = it + k; vh::check(&*it2 == v.raw_data() + k*d[1] && (size_t)(e - it) == d[0] && (size_t)(it2 - it) == k && (k == 0) == (it2 == it) && (it2 > it) == (k > 0) && it2 < e, "iterator", fmt("%zu of %zu", k, d[0]));
      auto it3 = it2; if (k) { --it3; vh::check(&*it3 == v.raw_data() + (k-1)*d[1], "iterator-back", ""); auto it4 = it2 - k; vh::check(it4 == it, "iterator-minus", ""); it4 += k; vh::check(it4 == it2, "iterator-plus-assign", ""); it4 -= k; vh::check(it4 == it, "iterator-minus-assign", ""); auto it5 = it2--; vh::check(&*it5 == v.raw_data() + k*d[1] && it2 == it3, "iterator-post-decrement", ""); } 
      size_t cnt = 0; for (auto r = s.begin(); r != s.end(); r++) ++cnt; vh::check(cnt == d[0], "iterator-post-increment", s1(cnt)); ev("stride-iterator"); }
    vh::sig(fmt("%d%d", row, form) + sd(d));
}
// iterators of vectors and views
SCEN(iterators, 6000, 60000) {
    vec1i v; Model<1,int_t> m; size_t n = rng.u(1, 9); make(rng, {{n}}, v, m); const vec1i& cv = v; vec1b bv; Model<1,bool> mb; make(rng, {{n}}, bv, mb); const vec1b& cbv = bv;
    size_t k = rng.u(0, n-1), q = rng.u(0, n-1); vh::note(fmt("iterators %zu and %zu of %zu", k, q, n));
    auto test = [&](auto&& s, const char* what) {
        auto b = s.begin(), e = s.end(); auto x = b + k, y = b; y += q; const void* base = &*b; typedef typename std::decay<decltype(*b)>::type E;
        bool ok = (size_t)(e - b) == n && (long long)(y - x) == (long long)q - (long long)k && (x == y) == (k == q) && (x != y) == (k != q) && (x < y) == (k < q) && (x > y) == (k > q) && (x <= y) == (k <= q) && (x >= y) == (k >= q) && (const void*)&*x == (const char*)base + k*sizeof(E);
        vh::check(ok, std::string(what) + ":arithmetic", fmt("%zu %zu of %zu", k, q, n));
        auto z = x; ++z; auto z2 = x; auto old = z2++; vh::check(z == z2 && old == x && (z - x) == 1, std::string(what) + ":increment", ""); --z; vh::check(z == x, std::string(what) + ":decrement", ""); auto o2 = z2--; vh::check(z2 == x && o2 - x == 1, std::string(what) + ":post-decrement", "");
        auto u = e - (n - k); vh::check(u == x, std::string(what) + ":minus", ""); u -= k; vh::check(u == b, std::string(what) + ":minus-assign", "");
    };
    test(v, "vec"); test(cv, "const-vec"); test(bv, "bool-vec"); test(cbv, "const-bool-vec");
    // standard algorithms through the iterators, on vectors and views
    { vec1u rv; for (size_t z = 0; z < n; ++z) rv.push_back(n-1-z); auto w = v[rv]; std::vector<int_t> t(w.begin(), w.end()), t2(v.begin(), v.end()); bool ok = t.size() == n; for (size_t z = 0; ok && z < n; ++z) ok = t[z] == m.data[n-1-z] && t2[z] == m.data[z]; vh::check(ok, "copy-out", "");
      auto it = std::find(w.begin(), w.end(), m.data[k]); vh::check(it != w.end() && *it == m.data[k], "find", ""); std::sort(v.begin(), v.end()); auto s = m.data; std::sort(s.begin(), s.end()); m.data = s; vh::check(same(v, m), "std-sort", svv(v)); }
    vh::sig(fmt("%zu%zu%zu", k, q, n)); ev("iterators");
}
// more dimensions
SCEN(four_dim, 8000, 80000) {
    vec<4,int> v; Model<4,int> m; auto d = rdims<4>(rng, 4, 0); make(rng, d, v, m);
    bool bad = rng.b(0.3); size_t wb = rng.u(0, 3); std::array<long long,4> p; std::array<size_t,4> u; for (int k = 0; k < 4; ++k) { long long N = d[k]; p[k] = bad && (size_t)k == wb ? N + rng.i(0, 3) : rng.i(-N, N-1); u[k] = p[k] < 0 ? p[k] + N : p[k]; }
    size_t off = ((u[0]*d[1] + u[1])*d[2] + u[2])*d[3] + u[3]; vh::note(fmt("vec4(%lld,%lld,%lld,%lld)", p[0], p[1], p[2], p[3]) + " of " + sd(d));
    const int* got = nullptr; Outcome o = guarded([&]() { got = &v((int_t)p[0], (int_t)p[1], (int_t)p[2], (int_t)p[3]); });
    if (bad) vh::check(o.refused(), "vec4-out-of-bounds-accepted", ""); else { vh::check(o.ok() && got == v.raw_data() + off, "vec4-element", o.str()); vh::check(&v.safe(u[0], u[1], u[2], u[3]) == v.raw_data() + off, "vec4-safe", ""); }
    if (!bad) { auto w = v((int_t)p[0], _, (int_t)p[2], _); bool ok = w.dims[0] == d[1] && w.dims[1] == d[3]; for (size_t a = 0; ok && a < d[1]; ++a) for (size_t b = 0; b < d[3]; ++b) ok = ok && &w.safe(a, b) == v.raw_data() + ((u[0]*d[1] + a)*d[2] + u[2])*d[3] + b; vh::check(ok, "vec4-plane", sd(w.dims));
        auto x = v.safe(_, u[1], _, u[3]); ok = x.dims[0] == d[0] && x.dims[1] == d[2]; for (size_t a = 0; ok && a < d[0]; ++a) for (size_t b = 0; b < d[2]; ++b) ok = ok && &x.safe(a, b) == v.raw_data() + ((a*d[1] + u[1])*d[2] + b)*d[3] + u[3]; vh::check(ok, "vec4-safe-plane", sd(x.dims));
        for (int k = 0; k < 4; ++k) { size_t e = 1; for (int q = k+1; q < 4; ++q) e *= d[q]; vh::check(v.pitch(k) == e && w.pitch(1) == 1 && w.pitch(0) == d[3], "pitch", fmt("axis %d: %zu expected %zu", k, (size_t)v.pitch(k), e)); } }
    vh::sig(sd(d) + s1(bad)); ev("four-dim");
}
// 2-D safe accessor and calls on views
SCEN(safe_2d, 16000, 160000) {
    vec<2,int> v; Model<2,int> m; auto d = rdims<2>(rng, 6, 0); make(rng, d, v, m); const auto& cv = v; int form = (int)rng.i(0, 3);
    vec1u a, b; size_t na = rng.u(1, 5), nb = rng.u(1, 5); for (size_t k = 0; k < na; ++k) a.push_back(rng.u(0, d[0]-1)); for (size_t k = 0; k < nb; ++k) b.push_back(rng.u(0, d[1]-1));
    auto w = v(a, b); const auto& cw = w; std::array<size_t,2> hd = d; if (form >= 2) hd = {{na, nb}};
    std::vector<Idx> ix; for (int k = 0; k < 2; ++k) { Idx x = gen(rng, hd[k], false); fewer(x, hd[k]); if (x.a < 0) x.a += hd[k]; for (auto& e : x.ids) if (e < 0) e += hd[k]; ix.push_back(x); }
    vh::note(ixs("safe2", hd, ix) + fmt(" form %d", form)); Want wa = want(hd, ix); Got g;
    auto el = [&](size_t k) -> const void* { return form < 2 ? v.raw_data() + k : v.raw_data() + a[k/nb]*d[1] + b[k%nb]; };
    auto few = [&](const Idx& x, auto&& f) { switch (x.kind) { case I_INT: f((uint_t)x.a); break; case I_FULL: f(_); break; case I_LR: f((uint_t)x.a-_-(uint_t)x.b); break; default: { vec1u t; for (auto k : x.ids) t.push_back((uint_t)k); f(t); } } };
    Outcome o = guarded([&]() { few(ix[0], [&](const auto& i) { few(ix[1], [&](const auto& j) { if (form == 0) collect(g, v.safe(i, j)); else if (form == 1) collect(g, cv.safe(i, j)); else if (form == 2) collect(g, w.safe(i, j)); else collect(g, cw.safe(i, j)); }); }); });
    verdict("safe2", o, g, wa, el); vh::sig(fmt("%d", form) + kinds(ix) + s1(wa.off.size()));
}
#endif
