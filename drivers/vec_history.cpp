// Monitors a pool of vectors over random operation histories against an independent model.
#include "model.hpp"
using namespace vif;
using namespace vh;

template<std::size_t D, typename T> struct Pool {
    static const size_t N = 3;
    vec<D,T> v[N]; Model<D,T> m[N];
    std::string log;

    bool ok(const char* op) {
        bool good = true;
        for (size_t k = 0; k < N; ++k) {
            good = checkf(consistent(v[k]), std::string(op) + ":shape", [&]() {
                return fmt("after %s: size()=%zu but dims ", op, (size_t)v[k].size()) + sd(v[k].dims) + " history " + log; }) && good;
            good = checkf(v[k].empty() == (v[k].size() == 0), std::string(op) + ":empty", [&]() { return "empty() vs size() " + log; }) && good;
            if (good) good = checkf(same(v[k], m[k]), std::string(op) + ":content", [&]() {
                return std::string("after ") + op + " object " + s1(k) + " is " + svv(v[k]) + " expected " + sm(m[k]) + " history " + log; });
        }
        return good;
    }
};

// append model along axis n
template<std::size_t D, typename T>
Model<D,T> mcat(const Model<D,T>& a, const Model<D,T>& b, size_t n) {
    Model<D,T> r; r.dims = a.dims; r.dims[n] += b.dims[n]; r.data.resize(r.total());
    if (r.data.empty()) return r;
    std::array<size_t,D> ix; ix.fill(0);
    do {
        auto jx = ix; T x;
        if (ix[n] < a.dims[n]) x = a.data[a.off(jx)]; else { jx[n] -= a.dims[n]; x = b.data[b.off(jx)]; }
        r.data[r.off(ix)] = x;
    } while (r.next(ix));
    return r;
}

template<std::size_t D, typename T, std::size_t N> struct Axis {
    static void app(vec<D,T>& a, const vec<D,T>& b) { append<N>(a, b); }
    static void pre(vec<D,T>& a, const vec<D,T>& b) { prepend<N>(a, b); }
};

template<typename T> void do_shift(vec<1,T>& v, long long n, bool in) { if (in) inplace_shift(v, n); else v = shift(v, n); }
void do_shift(vec<1,bool>& v, long long n, bool) { // shift() does not support bool vectors
    std::vector<bool> c(v.begin(), v.end()); long long s = c.size(); for (long long k = 0; k < s; ++k) v.safe[(((k+n)%s)+s)%s] = c[k]; }
template<typename T> struct Spec1 {
    // operations only valid on 1-D vectors
    static bool run(Rng& rng, Pool<1,T>& p, size_t i, size_t j, int op, std::string& name) {
        auto& v = p.v[i]; auto& m = p.m[i];
        auto upd = [&]() { m.dims[0] = m.data.size(); };
        switch (op) {
        case 0: { name = "push_back"; size_t n = rng.u(1, 4); for (size_t k = 0; k < n; ++k) { T x = Val<T>::get(rng); v.push_back(x); m.data.push_back(x); } upd(); return true; }
        case 1: { name = "push_back-self"; if (m.data.empty()) return false; size_t k = rng.u(0, m.data.size()-1); T x = m.data[k]; v.push_back(v[k]); m.data.push_back(x); upd(); return true; }
        case 2: { name = "append"; append(v, p.v[j]); auto c = p.m[j].data; m.data.insert(m.data.end(), c.begin(), c.end()); upd(); return true; }
        case 3: { name = "prepend"; prepend(v, p.v[j]); auto c = p.m[j].data; m.data.insert(m.data.begin(), c.begin(), c.end()); upd(); return true; }
        case 4: { name = "append-view"; if (p.m[j].data.empty()) return false;
            size_t a = rng.u(0, p.m[j].data.size()-1), b = rng.u(a, p.m[j].data.size()-1);
            std::vector<T> c(p.m[j].data.begin()+a, p.m[j].data.begin()+b+1);
            if (rng.b()) { append(v, p.v[j][a-_-b]); m.data.insert(m.data.end(), c.begin(), c.end()); }
            else { name = "prepend-view"; prepend(v, p.v[j][a-_-b]); m.data.insert(m.data.begin(), c.begin(), c.end()); }
            upd(); return true; }
        case 5: { name = "remove"; if (m.data.empty()) return false;
            std::vector<size_t> all(m.data.size()); std::iota(all.begin(), all.end(), 0); rng.shuffle(all);
            all.resize(rng.u(0, all.size())); vec1u ids; for (auto k : all) ids.push_back(k);
            if (rng.b()) inplace_remove(v, ids); else v = remove(v, ids);
            std::sort(all.begin(), all.end());
            for (size_t k = all.size(); k-- > 0;) m.data.erase(m.data.begin()+all[k]);
            upd(); return true; }
        case 6: { name = "reverse"; v = reverse(v); std::reverse(m.data.begin(), m.data.end()); return true; }
        case 7: { name = "shift"; long long n = rng.i(-12, 12); do_shift(v, n, rng.b());
            std::vector<T> c = m.data; long long s = c.size(); for (long long k = 0; k < s; ++k) m.data[(((k+n)%s)+s)%s] = c[k]; return true; }
        case 8: { name = "ilist"; T a = Val<T>::get(rng), b = Val<T>::get(rng), c = Val<T>::get(rng); v = {a, b, c}; m.data = {a, b, c}; upd(); return true; }
        case 9: { name = "resize1"; size_t n = rng.u(0, 12); size_t o = m.data.size(); v.resize(n); m.data.resize(n, T()); upd();
            (void)o; return true; }
        case 10: { name = "front-back"; if (m.data.empty()) return false; T x = Val<T>::get(rng); v.back() = x; m.data.back() = x; T y = Val<T>::get(rng); v.front() = y; m.data.front() = y; 
            vh::check(eqv((T)v.front(), (T)m.data.front()) && eqv((T)v.back(), (T)m.data.back()), "front-back:read"); return true; }
        case 11: { name = "from-ids"; if (p.m[j].data.empty()) return false; vec1u ids; std::vector<T> c; size_t n = rng.u(0, 14);
            for (size_t k = 0; k < n; ++k) { size_t q = rng.u(0, p.m[j].data.size()-1); ids.push_back(q); c.push_back(p.m[j].data[q]); }
            v = p.v[j][ids]; m.data = c; upd(); return true; }
        case 12: { name = "const-from-ids"; if (p.m[j].data.empty()) return false; vec1u ids; std::vector<T> c; size_t n = rng.u(0, 14);
            for (size_t k = 0; k < n; ++k) { size_t q = rng.u(0, p.m[j].data.size()-1); ids.push_back(q); c.push_back(p.m[j].data[q]); }
            const vec<1,T>& cv = p.v[j]; v = cv[ids]; m.data = c; upd(); return true; }
        }
        return false;
    }
};

template<std::size_t D, typename T> struct SpecN {
    static bool rest(Rng& rng, Pool<D,T>& p, size_t i, size_t j, int op, std::string& name) {
        auto& v = p.v[i]; auto& m = p.m[i];
        switch (op) {
        case 0: case 1: { // push_back of a row
            name = "push_back-row";
            Model<D-1,T> rm; vec<D-1,T> rv; std::array<size_t,D-1> d;
            if (m.data.empty()) d = rdims<D-1>(rng, 4, 0); else for (size_t k = 0; k < D-1; ++k) d[k] = m.dims[k+1];
            make(rng, d, rv, rm);
            if (op == 0) v.push_back(rv);
            else { name = "push_back-row-view"; vec<D,T> host(1, d); for (size_t k = 0; k < rm.data.size(); ++k) host.safe[k] = rm.data[k]; push_view(v, host); }
            if (m.data.empty()) { m.dims[0] = 0; for (size_t k = 0; k < D-1; ++k) m.dims[k+1] = d[k]; }
            m.data.insert(m.data.end(), rm.data.begin(), rm.data.end()); ++m.dims[0];
            return true; }
        case 2: case 3: { name = "append-axis"; if (m.data.empty() || p.m[j].data.empty()) return false;
            size_t ax = rng.u(0, D-1);
            Model<D,T> om; vec<D,T> ov; auto d = m.dims; d[ax] = rng.u(1, 3); make(rng, d, ov, om);
            if (op == 2) { m = mcat(m, om, ax); ax == 0 ? Axis<D,T,0>::app(v, ov) : ax == 1 ? Axis<D,T,1>::app(v, ov) : Axis<D,T,D-1>::app(v, ov); }
            else { name = "prepend-axis"; m = mcat(om, m, ax); ax == 0 ? Axis<D,T,0>::pre(v, ov) : ax == 1 ? Axis<D,T,1>::pre(v, ov) : Axis<D,T,D-1>::pre(v, ov); }
            return true; }
        case 4: { name = "append-self-axis"; if (m.data.empty()) return false; size_t ax = rng.u(0, D-1); m = mcat(m, m, ax);
            vec<D,T> c = v; ax == 0 ? Axis<D,T,0>::app(v, c) : ax == 1 ? Axis<D,T,1>::app(v, c) : Axis<D,T,D-1>::app(v, c); return true; }
        case 5: { name = "remove-rows"; if (m.data.empty()) return false;
            std::vector<size_t> all(m.dims[0]); std::iota(all.begin(), all.end(), 0); rng.shuffle(all);
            all.resize(rng.u(0, all.size())); vec1u ids; for (auto k : all) ids.push_back(k);
            if (rng.b()) inplace_remove(v, ids); else v = remove(v, ids);
            std::sort(all.begin(), all.end()); size_t pitch = m.data.size()/m.dims[0];
            for (size_t k = all.size(); k-- > 0;) m.data.erase(m.data.begin()+all[k]*pitch, m.data.begin()+(all[k]+1)*pitch);
            m.dims[0] -= all.size(); return true; }
        case 6: { name = "reform"; if (m.data.empty()) return false;
            auto d = m.dims; std::vector<size_t> q(d.begin(), d.end()); rng.shuffle(q); std::copy(q.begin(), q.end(), d.begin());
            v = reform(v, d); m.dims = d; return true; }
        case 7: { name = "flatten-reform"; v = reform(flatten(v), v.dims); return true; }
        case 8: { name = "append-empty"; if (m.data.empty()) { append<0>(v, p.v[j]); if (i != j) m = p.m[j]; } else { vec<D,T> e; if (rng.b()) append<1>(v, e); else prepend<1>(v, e); } return true; }
        case 9: { name = "replicate"; if (D != 2) return false; return false; }
        }
        return false;
    }
    template<typename TT> static void push_view(vec<2,TT>& v, vec<2,TT>& h) { v.push_back(h(0,_)); }
    template<typename TT> static void push_view(vec<3,TT>& v, vec<3,TT>& h) { v.push_back(h(0,_,_)); }
};
template<typename T> bool spec(Rng& rng, Pool<1,T>& p, size_t i, size_t j, int op, std::string& n) { return Spec1<T>::run(rng, p, i, j, op, n); }
template<typename T> bool spec(Rng& rng, Pool<2,T>& p, size_t i, size_t j, int op, std::string& n) {
    if (op == 12) { n = "transpose"; auto& m = p.m[i]; Model<2,T> r; r.dims = {{m.dims[1], m.dims[0]}}; r.data.resize(m.data.size());
        for (size_t a = 0; a < m.dims[0]; ++a) for (size_t b = 0; b < m.dims[1]; ++b) r.data[b*m.dims[0]+a] = m.data[a*m.dims[1]+b];
        p.v[i] = transpose(p.v[i]); m = r; return true; }
    return SpecN<2,T>::rest(rng, p, i, j, op, n); }
template<typename T> bool spec(Rng& rng, Pool<3,T>& p, size_t i, size_t j, int op, std::string& n) { return SpecN<3,T>::rest(rng, p, i, j, op, n); }

template<typename T> vec<1,T> flatten_view(vec<1,T>& a, vec<1,T>&) { vec<1,T> r = a[_]; return r; }
template<typename T> vec<2,T> flatten_view(vec<2,T>& a, vec<2,T>&) { vec<2,T> r = a(_,_); return r; }
template<typename T> vec<3,T> flatten_view(vec<3,T>& a, vec<3,T>&) { vec<3,T> r = a(_,_,_); return r; }

template<std::size_t D, typename T>
void history(Rng& rng) {
    Pool<D,T> p;
    std::string hdr = fmt("vec<%zu,%s>: ", D, tname<T>());
    size_t steps = rng.u(6, 22);
    if (!p.ok("default-construct")) return;
    for (size_t s = 0; s < steps; ++s) {
        size_t i = rng.u(0, 2), j = rng.u(0, 2); std::string name;
        int op = (int)rng.i(0, 28);
        auto& v = p.v[i]; auto& m = p.m[i];
        bool done = true;
        if (op < 13) done = spec(rng, p, i, j, op, name);
        else switch (op) {
        case 13: name = "construct-dims"; make(rng, rdims<D>(rng), v, m); break;
        case 14: name = "copy-assign"; v = p.v[j]; { auto c = p.m[j]; m = c; } break;
        case 15: { name = "copy-construct"; vec<D,T> c(p.v[j]); vh::check(same(c, p.m[j]), "copy-construct:content", svv(c));
            for (size_t k = 0; k < c.size(); ++k) c.safe[k] = Val<T>::get(rng); break; } // copies are independent
        case 16: name = "move-assign"; if (i == j) { done = false; break; } v = std::move(p.v[j]); m = p.m[j]; p.m[j] = Model<D,T>(); break;
        case 17: { name = "move-construct"; vec<D,T> c(std::move(p.v[j])); vh::check(same(c, p.m[j]), "move-construct:content", svv(c));
            p.m[j] = Model<D,T>(); break; }
        case 18: { name = "self-assign"; vec<D,T>& r = v; v = r; break; }
        case 19: name = "clear"; v.clear(); m = Model<D,T>(); break;
        case 20: { name = "resize-zero-fill"; auto d = rdims<D>(rng); v.clear(); v.resize(d); m.dims = d; m.data.assign(m.total(), T()); break; }
        case 21: name = "reserve"; v.reserve(rng.u(0, 200)); break;
        case 22: { name = "swap"; std::swap(p.v[i], p.v[j]); if (i != j) std::swap(p.m[i], p.m[j]); break; }
        case 23: { name = "write-element"; if (m.data.empty()) { done = false; break; } size_t k = rng.u(0, m.data.size()-1); T x = Val<T>::get(rng); v[k] = x; m.data[k] = x; break; }
        case 24: { name = "assign-whole-view"; v = flatten_view(p.v[j], v); m = p.m[j]; break; }
        case 25: { name = "iterate"; size_t k = 0; bool g = true; for (auto& x : v) { if (k >= m.data.size() || !eqv((T)x, (T)m.data[k])) g = false; ++k; } 
            vh::check(g && k == m.data.size(), "iterate:content", svv(v)); break; }
        case 26: { name = "move-self-temp"; vec<D,T> c = p.v[j]; v = std::move(c); m = p.m[j]; vh::check(c.size() == 0 && consistent(c), "move-self-temp:source-empty", svv(c)); break; }
        case 27: { name = "flatten-moved"; vec<1,T> f = flatten(std::move(p.v[j])); vh::check(vh::consistent(f) && eqvec(flat(f), p.m[j].data), "flatten-moved:content", svv(f)); p.m[j] = Model<D,T>(); break; }
        case 28: { name = "reform-moved"; std::array<uint_t,D> d; for (size_t k = 0; k < D; ++k) d[k] = p.m[j].dims[D-1-k]; vec<D,T> f = reform(std::move(p.v[j]), d); vh::check(f.dims == d && vh::consistent(f) && eqvec(flat(f), p.m[j].data), "reform-moved:content", svv(f)); p.m[j] = Model<D,T>(); break; }
        }
        if (!done) continue;
        p.log += name + fmt("(%zu,%zu) ", i, j);
        vh::note(hdr + p.log);
        ev("op:" + name);
        if (!p.ok(name.c_str())) return;
        vh::sig(name + fmt("|%zu|%s|%zu|%zu", D, tname<T>(), std::min<size_t>(v.size(), 20), (size_t)(i == j)));
    }
}

SCEN(hist1_int,    6000, 60000) { history<1,int>(rng); }
SCEN(hist1_double, 4000, 40000) { history<1,double>(rng); }
SCEN(hist1_string, 6000, 60000) { history<1,std::string>(rng); }
SCEN(hist1_bool,   4000, 40000) { history<1,bool>(rng); }
SCEN(hist2_int,    6000, 60000) { history<2,int>(rng); }
SCEN(hist2_string, 4000, 40000) { history<2,std::string>(rng); }
SCEN(hist2_bool,   3000, 30000) { history<2,bool>(rng); }
SCEN(hist3_double, 4000, 40000) { history<3,double>(rng); }
SCEN(hist3_string, 3000, 30000) { history<3,std::string>(rng); }

// nested initializer lists: regular ones give the documented shape, ragged ones are refused
SCEN(init_list, 300, 3000) {
    int a = rng.i(0,99), b = rng.i(0,99), c = rng.i(0,99), d = rng.i(0,99), e = rng.i(0,99), f = rng.i(0,99);
    vh::note(fmt("init lists %d %d %d %d %d %d", a, b, c, d, e, f));
    vec<2,int> v = {{a,b,c},{d,e,f}};
    vh::check(v.dims[0] == 2 && v.dims[1] == 3 && eqvec(flat(v), std::vector<int>{a,b,c,d,e,f}), "2d", svv(v));
    vec<3,int> w = {{{a,b},{c,d}},{{e,f},{a,c}}};
    vh::check(w.dims[0] == 2 && w.dims[1] == 2 && w.dims[2] == 2 && eqvec(flat(w), std::vector<int>{a,b,c,d,e,f,a,c}), "3d", svv(w));
    Outcome o = guarded([&]() { vec<2,int> r = {{a,b,c},{d,e}}; });
    vh::check(o.refused(), "ragged-accepted", o.str());
    o = guarded([&]() { vec<3,int> r = {{{a,b},{c,d}},{{e,f}}}; });
    vh::check(o.refused(), "ragged3-accepted", o.str());
    vec<2,int> z = {{a,b,c},{d,e,f}}; z = {{d},{e}};
    vh::check(z.dims[0] == 2 && z.dims[1] == 1 && eqvec(flat(z), std::vector<int>{d,e}), "2d-assign", svv(z));
    vh::sig(fmt("%d", (a*7+b) % 50));
}
// the dimensions can be given one by one, as arrays, or both, in any integer type
SCEN(constructors, 4000, 40000) {
    size_t n[5]; for (auto& x : n) x = rng.b(0.08) ? 0 : rng.u(1, 4); std::array<uint_t,2> a2 = {{n[0], n[1]}}, b2 = {{n[2], n[3]}}; std::array<int,3> a3 = {{(int)n[0], (int)n[1], (int)n[2]}}; std::array<uint_t,1> a1 = {{n[0]}}; int i2 = n[2]; unsigned char c3 = n[3]; vh::note(fmt("dimensions %zu %zu %zu %zu %zu", n[0], n[1], n[2], n[3], n[4]));
    auto is = [&](const char* w, const std::string& got, size_t size, size_t nd, bool zero) { size_t t = 1; std::string e; for (size_t k = 0; k < nd; ++k) { t *= n[k]; if (k) e += "x"; e += s1(n[k]); } vh::check(got == e && size == t && zero, w, got + " " + s1(size) + " expected " + e); };
#define CTOR(w, D, ...) { vec<D,int> v(__VA_ARGS__); bool z = true; for (size_t k = 0; k < v.size(); ++k) z = z && v.safe[k] == 0; is(w, sd(v.dims), v.size(), D, z); vec<D,std::string> q; q.resize(__VA_ARGS__); bool e = true; for (size_t k = 0; k < q.size(); ++k) e = e && q.safe[k].empty(); is("resize-" w, sd(q.dims), q.size(), D, e); }
    CTOR("int", 1, n[0]) CTOR("ints", 3, n[0], (short)n[1], i2) CTOR("array", 2, a2) CTOR("array-first", 3, a2, n[2]) CTOR("array-last", 3, n[0], std::array<uint_t,2>({{n[1], n[2]}})) CTOR("arrays", 4, a2, b2) CTOR("array-middle", 4, n[0], std::array<int,2>({{(int)n[1], (int)n[2]}}), c3) CTOR("array-one", 2, a1, n[1]) CTOR("int-array", 4, a3, c3) CTOR("five", 5, a2, n[2], n[3], n[4]) CTOR("array-int-array", 5, a2, i2, std::array<uint_t,2>({{n[3], n[4]}}))
    vec<4,int> rp = replicate(7, a2, n[2], c3); bool all = true; for (size_t k = 0; k < rp.size(); ++k) all = all && rp.safe[k] == 7; is("replicate", sd(rp.dims), rp.size(), 4, all); vec<1,int> rv(n[0]); vec<4,int> rq = replicate(rv, n[1], n[2], n[3]); vh::check(rq.size() == n[0]*n[1]*n[2]*n[3] && consistent(rq), "replicate-vector", sd(rq.dims));
    size_t keep = n[0]*n[1]*n[2]; vec<1,int> f(keep); for (size_t k = 0; k < keep; ++k) f.safe[k] = k; vec<3,int> g = reform(f, a2, i2); is("reform", sd(g.dims), g.size(), 3, eqvec(flat(g), flat(f))); vec<3,int> g2 = reform(f, a1, std::array<uint_t,2>({{n[1], n[2]}})); is("reform-arrays", sd(g2.dims), g2.size(), 3, eqvec(flat(g2), flat(f)));
    ev("constructed"); vh::sig(fmt("%zu%zu%zu%zu%zu", n[0], n[1], n[2], n[3], n[4]));
}
// empty lists at any depth
SCEN(empty_lists, 300, 3000) {
    vec<1,int> a = {}; vec<2,int> b = {{}, {}}; vec<2,int> c = {}; vec<3,int> d = {{{}, {}, {}}}; vec<2,std::string> e = {{"x"}}; e = {{}, {}, {}};
    vh::check(a.empty() && consistent(a) && b.empty() && consistent(b) && c.empty() && consistent(c) && d.empty() && consistent(d) && e.empty() && consistent(e), "empty-list", sd(a.dims) + " " + sd(b.dims) + " " + sd(c.dims) + " " + sd(d.dims) + " " + sd(e.dims));
    int x = rng.i(0, 99); Outcome o = guarded([&]() { vec<2,int> r = {{x}, {}}; }); vh::check(o.refused(), "ragged-empty-accepted", o.str()); o = guarded([&]() { vec<2,int> r = {{}, {x}}; }); vh::check(o.refused(), "ragged-empty-first-accepted", o.str()); o = guarded([&]() { vec<3,int> r = {{{}}, {{x}}}; }); vh::check(o.refused(), "ragged-empty-deep-accepted", o.str()); ev("empty-lists"); vh::sig(fmt("%d", x % 10));
}
// conversions between element types convert each element as the language does, from vectors and views of any shape
template<typename F> F cval(Rng& r) { if (std::is_same<F,bool>::value) return F(r.b()); if (std::is_floating_point<F>::value) { switch (r.i(0, 5)) { case 0: return F(0); case 1: return F(0.25); case 2: return F(-0.75); case 3: return F(256); default: return F(r.d(-1000, 1000)); } } switch (r.i(0, 5)) { case 0: return F(0); case 1: return F(1); case 2: return F(std::is_same<F,char>::value ? 64 : 256); case 3: return F(std::is_same<F,char>::value ? -128 : 512); default: return F(std::is_same<F,char>::value ? r.i(-128, 127) : r.i(-1000, 1000)); } }
template<typename T, typename F> void convert(Rng& rng) {
    auto d = rdims<2>(rng, 4, 0.05); vec<2,F> v(d); std::vector<F> mf; for (size_t k = 0; k < v.size(); ++k) { F x = cval<F>(rng); mf.push_back(x); v.safe[k] = x; } vh::note(std::string(tname<F>()) + " to " + tname<T>() + " " + svv(v)); auto raw = [](const vec<2,T>& r, size_t k) { return !std::is_same<T,bool>::value || r.data[k] == 0 || r.data[k] == 1; };
    auto is = [&](const vec<2,T>& r, const char* w) { bool ok = r.dims == d && consistent(r); for (size_t k = 0; ok && k < mf.size(); ++k) ok = raw(r, k) && eqv((T)r.safe[k], static_cast<T>(mf[k])); vh::check(ok, std::string("convert-") + w, svv(r) + " from " + svv(v)); };
    const vec<2,F>& cv = v; is(vec<2,T>(v), "vec"); is(vec<2,T>(v(_,_)), "view"); is(vec<2,T>(cv(_,_)), "const-view"); vec<2,F> tmp = v; is(vec<2,T>(std::move(tmp)), "temporary"); vec<2,T> keep(v); for (size_t k = 0; k < v.size(); ++k) v.safe[k] = F(); { bool ok = keep.dims == d; for (size_t k = 0; ok && k < mf.size(); ++k) ok = eqv((T)keep.safe[k], static_cast<T>(mf[k])); vh::check(ok, "convert-copy", svv(keep)); } ev("converted"); vh::sig(std::string(tname<F>()) + tname<T>() + sd(d));
}
SCEN(conversions, 3000, 30000) {
    switch (rng.i(0, 9)) { case 0: convert<bool,int>(rng); break; case 1: convert<bool,double>(rng); break; case 2: convert<bool,float>(rng); break; case 3: convert<int,bool>(rng); break; case 4: convert<double,bool>(rng); break; case 5: convert<int,double>(rng); break; case 6: convert<double,int>(rng); break; case 7: convert<float,double>(rng); break; case 8: convert<bool,uint_t>(rng); break; default: convert<bool,bool>(rng); }
    // implicit conversions, assignments and lists
    int a = cval<int>(rng), b = cval<int>(rng), c = cval<int>(rng); vec<1,int> v = {a, b, c}; vec1d w = v, x; x = v; vec1f y = v[_]; vec1d z; z = v[vec1u{2, 0}]; vh::check(eqvec(flat(w), std::vector<double>{double(a), double(b), double(c)}) && eqvec(flat(x), flat(w)) && eqvec(flat(y), std::vector<float>{float(a), float(b), float(c)}) && eqvec(flat(z), std::vector<double>{double(c), double(a)}), "implicit", svv(w));
    char ca = cval<char>(rng), cb = cval<char>(rng), cc = cval<char>(rng);
    vec1b l = {ca, cb, cc}; vec2b l2 = {{ca, cb}, {cc, ca}}; auto good = [](char r, int o) { return r == (o != 0); }; vh::check(good(l.data[0], ca) && good(l.data[1], cb) && good(l.data[2], cc) && good(l2.data[0], ca) && good(l2.data[1], cb) && good(l2.data[2], cc) && good(l2.data[3], ca), "list-of-booleans", svv(l)); l = {cb, cc}; vh::check(l.size() == 2 && good(l.data[0], cb) && good(l.data[1], cc) && count(l) + count(!l) == 2, "list-assigned-booleans");
    vec<1,int> g = {a}; vec1d gd = {0.5}; gd.push_back(b); append(gd, v); prepend(gd, g); vec<2,double> g2; g2.push_back(v); g2.push_back(v[_]); vh::check(eqvec(flat(gd), std::vector<double>{double(a), 0.5, double(b), double(a), double(b), double(c)}) && g2.dims[0] == 2 && g2.dims[1] == 3 && eqvec(flat(g2), std::vector<double>{double(a), double(b), double(c), double(a), double(b), double(c)}), "growth-converts", svv(gd) + svv(g2));
}
// invalid growth is refused and never corrupts the shape
SCEN(bad_growth, 3000, 30000) {
    vec<2,int> v; Model<2,int> m; make(rng, rdims<2>(rng, 5, 0), v, m);
    size_t n = rng.u(0, 8);
    vec<1,int> row(n);
    vh::note("push_back row of " + s1(n) + " to " + sd(v.dims));
    Outcome o = guarded([&]() { v.push_back(row); });
    if (n != m.dims[1]) { vh::check(o.refused(), "push_back-row-mismatch-accepted", svv(v)); vh::check(same(v, m), "push_back-row-mismatch-modified", svv(v)); ev("refused"); }
    else vh::check(o.ok() && consistent(v), "push_back-row", o.str());
    vec<3,int> a, b; Model<3,int> ma, mb; make(rng, rdims<3>(rng, 4, 0), a, ma); make(rng, rdims<3>(rng, 4, 0), b, mb);
    size_t ax = rng.u(0, 2); bool pre = rng.b();
    vh::note("append<" + s1(ax) + "> " + sd(a.dims) + " + " + sd(b.dims));
    bool good = true; for (size_t k = 0; k < 3; ++k) if (k != ax && ma.dims[k] != mb.dims[k]) good = false;
    o = guarded([&]() {
        if (!pre) { if (ax == 0) append<0>(a, b); else if (ax == 1) append<1>(a, b); else append<2>(a, b); }
        else { if (ax == 0) prepend<0>(a, b); else if (ax == 1) prepend<1>(a, b); else prepend<2>(a, b); }
    });
    if (good) { auto r = pre ? mcat(mb, ma, ax) : mcat(ma, mb, ax); vh::check(o.ok() && same(a, r), "append-axis", o.str() + svv(a)); }
    else { vh::check(o.refused(), "append-mismatch-accepted", svv(a)); ev("refused"); }
    // remove: out of range or repeated indices
    vec<2,int> r; Model<2,int> mr; make(rng, rdims<2>(rng, 6, 0), r, mr);
    vec1u ids; size_t k = rng.u(1, 5); for (size_t q = 0; q < k; ++q) ids.push_back(rng.u(0, mr.dims[0] + (rng.b(0.3) ? 2 : 0)));
    std::set<size_t> us(ids.begin(), ids.end()); bool valid = us.size() == ids.size(); for (auto x : us) if (x >= mr.dims[0]) valid = false;
    vh::note("remove " + svv(ids) + " from " + sd(mr.dims));
    o = guarded([&]() { inplace_remove(r, ids); });
    if (valid) vh::check(o.ok() && consistent(r) && r.dims[0] == mr.dims[0] - us.size(), "remove-valid", o.str());
    else { vh::check(o.refused(), "remove-invalid-accepted", svv(r)); ev("refused"); }
    // reform to another number of elements
    vec<1,int> fl = flatten(a); size_t d0 = rng.u(1, 5), d1 = rng.u(1, 9);
    o = guarded([&]() { auto q = reform(fl, d0, d1); vh::check(consistent(q), "reform-shape", svv(q)); });
    vh::check(o.ok() == (d0*d1 == fl.size()), "reform-size", fmt("%zu elements to %zux%zu: ", fl.size(), d0, d1) + o.str());
    vh::sig(fmt("%d%d%zu%d%zu", good, valid, ax, pre, n));
}
