// Element-wise operators and vectorised functions against scalar loops.
#include "model.hpp"
using namespace vif;
using namespace vh;

template<typename T> T sval(Rng& r) { return (T)r.i(-20, 20); }
template<> uint_t sval<uint_t>(Rng& r) { return (uint_t)r.i(0, 40); }
template<> std::string sval<std::string>(Rng& r) { return Val<std::string>::get(r); }
template<> bool sval<bool>(Rng& r) { return r.b(); }
template<typename T> T nz(T x) { return x == T() ? T(3) : x; }
inline std::string nz(std::string x) { return x; }

template<std::size_t D, typename T> void fill(Rng& r, const std::array<size_t,D>& d, vec<D,T>& v, std::vector<T>& m, bool nonzero) {
    v = vec<D,T>(d); m.resize(v.size()); for (size_t k = 0; k < m.size(); ++k) { T x = sval<T>(r); if (nonzero) x = nz(x); m[k] = x; v.safe[k] = x; }
}
template<std::size_t D, typename R, typename V> void cmp(const std::string& what, const V& got, const std::array<size_t,D>& d, const std::vector<R>& exp) {
    bool ok = got.size() == exp.size(); for (size_t k = 0; k < D; ++k) ok = ok && got.dims[k] == d[k];
    if (!vh::check(ok, what + ":shape", sd(got.dims) + " expected " + sd(d))) return;
    for (size_t k = 0; k < exp.size(); ++k) {
        bool e = eqv((R)got.safe[k], exp[k]);
        if (!vh::check(e, what, fmt("element %zu: ", k) + s1(got.safe[k]) + " expected " + s1(exp[k]))) return;
    }
}
template<typename V> V tmp(const V& v) { return V(v); }          // an rvalue copy
template<std::size_t D, typename T> vec1u allids(const vec<D,T>& v) { vec1u i; for (size_t k = 0; k < v.size(); ++k) i.push_back(k); return i; }

// one operator, all operand categories, for a pair of types
#define BINOP(NAME, OP, NZ) \
template<std::size_t D, typename T, typename U> void NAME(Rng& rng) { \
    using R = decltype(std::declval<T>() OP std::declval<U>()); \
    auto d = rdims<D>(rng, 4, 0.04); vec<D,T> a; vec<D,U> b; std::vector<T> ma; std::vector<U> mb; \
    fill(rng, d, a, ma, false); fill(rng, d, b, mb, NZ); U s = sval<U>(rng); T t = sval<T>(rng); if (NZ) s = nz(s); \
    std::vector<R> e1, e2, e3; for (size_t k = 0; k < ma.size(); ++k) { e1.push_back(ma[k] OP mb[k]); e2.push_back(ma[k] OP s); e3.push_back(t OP mb[k]); } \
    vh::note(fmt("%s " #OP " %s, dims ", tname<T>(), tname<U>()) + sd(d)); \
    const vec<D,T>& ca = a; const vec<D,U>& cb = b; \
    cmp<D,R>("vec" #OP "vec", ca OP cb, d, e1); \
    cmp<D,R>("tmp" #OP "vec", tmp(a) OP cb, d, e1); \
    cmp<D,R>("vec" #OP "tmp", ca OP tmp(b), d, e1); \
    cmp<D,R>("tmp" #OP "tmp", tmp(a) OP tmp(b), d, e1); \
    cmp<D,R>("vec" #OP "scalar", ca OP s, d, e2); \
    cmp<D,R>("tmp" #OP "scalar", tmp(a) OP s, d, e2); \
    cmp<D,R>("scalar" #OP "vec", t OP cb, d, e3); \
    cmp<D,R>("scalar" #OP "tmp", t OP tmp(b), d, e3); \
    std::array<size_t,1> fd = {{a.size()}}; vec1u ids = allids(a); \
    cmp<1,R>("view" #OP "view", a[ids] OP b[ids], fd, e1); \
    cmp<1,R>("constview" #OP "vec", ca[ids] OP flatten(b), fd, e1); \
    cmp<1,R>("vec" #OP "view", flatten(a) OP cb[ids], fd, e1); \
    cmp<1,R>("view" #OP "tmp", a[ids] OP flatten(b), fd, e1); \
    cmp<1,R>("view" #OP "scalar", a[ids] OP s, fd, e2); \
    cmp<1,R>("scalar" #OP "view", t OP b[ids], fd, e3); \
    vh::check(eqvec(flat(a), ma) && eqvec(flat(b), mb), "operand-modified" #OP, ""); \
    ev("op" #OP); vh::sig(fmt(#OP "%s%s%zu", tname<T>(), tname<U>(), ma.size())); \
}
BINOP(op_add, +, false)
BINOP(op_sub, -, false)
BINOP(op_mul, *, false)
BINOP(op_div, /, true)
#undef BINOP
#define CMPOP(NAME, OP) \
template<std::size_t D, typename T, typename U> void NAME(Rng& rng) { \
    auto d = rdims<D>(rng, 4, 0.04); vec<D,T> a; vec<D,U> b; std::vector<T> ma; std::vector<U> mb; \
    fill(rng, d, a, ma, false); fill(rng, d, b, mb, false); for (size_t k = 0; k < ma.size(); ++k) if (rng.b(0.3)) { mb[k] = (U)ma[k]; b.safe[k] = mb[k]; } \
    U s = sval<U>(rng); T t = sval<T>(rng); if (!mb.empty() && rng.b(0.4)) s = mb[0]; \
    std::vector<bool> e1, e2, e3; for (size_t k = 0; k < ma.size(); ++k) { e1.push_back(ma[k] OP mb[k]); e2.push_back(ma[k] OP s); e3.push_back(t OP mb[k]); } \
    vh::note(fmt("%s " #OP " %s, dims ", tname<T>(), tname<U>()) + sd(d)); \
    cmp<D,bool>("vec" #OP "vec", a OP b, d, e1); cmp<D,bool>("vec" #OP "scalar", a OP s, d, e2); cmp<D,bool>("scalar" #OP "vec", t OP b, d, e3); \
    std::array<size_t,1> fd = {{a.size()}}; vec1u ids = allids(a); const vec<D,T>& ca = a; \
    cmp<1,bool>("view" #OP "view", a[ids] OP b[ids], fd, e1); cmp<1,bool>("constview" #OP "scalar", ca[ids] OP s, fd, e2); \
    ev("op" #OP); vh::sig(fmt(#OP "%s%s%zu", tname<T>(), tname<U>(), ma.size())); \
}
CMPOP(op_eq, ==) CMPOP(op_ne, !=) CMPOP(op_lt, <) CMPOP(op_le, <=) CMPOP(op_gt, >) CMPOP(op_ge, >=)
template<std::size_t D, typename T, typename U> void arith(Rng& rng) {
    switch (rng.i(0, 3)) { case 0: op_add<D,T,U>(rng); break; case 1: op_sub<D,T,U>(rng); break; case 2: op_mul<D,T,U>(rng); break; default: op_div<D,T,U>(rng); }
}
template<std::size_t D, typename T, typename U> void compare(Rng& rng) {
    switch (rng.i(0, 5)) { case 0: op_eq<D,T,U>(rng); break; case 1: op_ne<D,T,U>(rng); break; case 2: op_lt<D,T,U>(rng); break;
        case 3: op_le<D,T,U>(rng); break; case 4: op_gt<D,T,U>(rng); break; default: op_ge<D,T,U>(rng); }
}
#if PART == 0
SCEN(arith_int_int, 4000, 40000) { arith<1,int,int>(rng); }
SCEN(arith_double_double, 4000, 40000) { arith<2,double,double>(rng); }
SCEN(arith_int_double, 4000, 40000) { arith<2,int,double>(rng); }
SCEN(arith_double_int, 4000, 40000) { arith<1,double,int>(rng); }
#elif PART == 1
SCEN(arith_float_double, 4000, 40000) { arith<1,float,double>(rng); }
SCEN(arith_double_float, 4000, 40000) { arith<3,double,float>(rng); }
SCEN(arith_uint_uint, 2000, 40000) { arith<1,uint_t,uint_t>(rng); }
SCEN(arith_float_float, 2000, 40000) { arith<1,float,float>(rng); }
SCEN(concat_string, 4000, 40000) { op_add<1,std::string,std::string>(rng); }
#elif PART == 2
SCEN(cmp_int, 6000, 60000) { compare<1,int,int>(rng); }
SCEN(cmp_double_int, 4000, 60000) { compare<2,double,int>(rng); }
SCEN(cmp_string, 4000, 60000) { compare<1,std::string,std::string>(rng); }
SCEN(modulo, 6000, 60000) {
    auto d = rdims<2>(rng, 4, 0.04); vec<2,int> a, b; std::vector<int> ma, mb; fill(rng, d, a, ma, false); fill(rng, d, b, mb, true); int s = nz(sval<int>(rng)), t = sval<int>(rng);
    std::vector<int> e1, e2, e3; for (size_t k = 0; k < ma.size(); ++k) { e1.push_back(ma[k]%mb[k]); e2.push_back(ma[k]%s); e3.push_back(t%mb[k]); }
    vh::note("modulo " + sd(d)); cmp<2,int>("vec%vec", a % b, d, e1); cmp<2,int>("tmp%vec", tmp(a) % b, d, e1); cmp<2,int>("vec%tmp", a % tmp(b), d, e1); cmp<2,int>("tmp%tmp", tmp(a) % tmp(b), d, e1);
    cmp<2,int>("vec%scalar", a % s, d, e2); cmp<2,int>("tmp%scalar", tmp(a) % s, d, e2); cmp<2,int>("scalar%vec", t % b, d, e3); cmp<2,int>("scalar%tmp", t % tmp(b), d, e3);
    vh::sig(sd(d));
}
SCEN(logical, 8000, 80000) {
    auto d = rdims<2>(rng, 4, 0.04); vec<2,bool> a, b; std::vector<bool> ma, mb; a = vec<2,bool>(d); b = a; for (size_t k = 0; k < a.size(); ++k) { ma.push_back(rng.b()); mb.push_back(rng.b()); a.safe[k] = (bool)ma[k]; b.safe[k] = (bool)mb[k]; }
    bool s = rng.b(); std::vector<bool> an, orr, no, ans, ors; for (size_t k = 0; k < ma.size(); ++k) { an.push_back(ma[k] && mb[k]); orr.push_back(ma[k] || mb[k]); no.push_back(!ma[k]); ans.push_back(ma[k] && s); ors.push_back(ma[k] || s); }
    vh::note("logical " + sd(d));
    cmp<2,bool>("and", a && b, d, an); cmp<2,bool>("or", a || b, d, orr); cmp<2,bool>("not", !a, d, no);
    cmp<2,bool>("and-tv", tmp(a) && b, d, an); cmp<2,bool>("and-vt", a && tmp(b), d, an); cmp<2,bool>("and-tt", tmp(a) && tmp(b), d, an);
    cmp<2,bool>("or-tv", tmp(a) || b, d, orr); cmp<2,bool>("or-vt", a || tmp(b), d, orr); cmp<2,bool>("or-tt", tmp(a) || tmp(b), d, orr);
    cmp<2,bool>("not-t", !tmp(a), d, no); cmp<2,bool>("and-s", a && s, d, ans); cmp<2,bool>("s-and", s && a, d, ans); cmp<2,bool>("or-s", a || s, d, ors); cmp<2,bool>("s-or", s || a, d, ors);
    cmp<2,bool>("and-st", tmp(a) && s, d, ans); cmp<2,bool>("st-and", s && tmp(a), d, ans); cmp<2,bool>("or-st", tmp(a) || s, d, ors); cmp<2,bool>("st-or", s || tmp(a), d, ors);
    std::array<size_t,1> fd = {{a.size()}}; vec1u ids = allids(a); cmp<1,bool>("and-view", a[ids] && b[ids], fd, an); cmp<1,bool>("not-view", !a[ids], fd, no);
    vh::check(eqvec(flat(a), ma), "operand-modified", ""); ev("logical");
    vh::sig(sd(d) + s1(s));
}
#elif PART == 3
SCEN(unary_chain, 10000, 100000) {
    auto d = rdims<1>(rng, 9, 0.04); vec1d a, b, c; std::vector<double> ma, mb, mc; fill(rng, d, a, ma, false); fill(rng, d, b, mb, true); fill(rng, d, c, mc, false);
    std::vector<double> e1, e2, e3, e4; double s = (double)rng.i(1, 9);
    for (size_t k = 0; k < ma.size(); ++k) { e1.push_back(-ma[k]); e2.push_back((ma[k]+mb[k])*mc[k] - ma[k]/mb[k]); e3.push_back(s - (ma[k] - (mb[k] - (s*mc[k] - 1)))); e4.push_back((ma[k]*mb[k]) - (mc[k] - s)/mb[k]); }
    vh::note("expression chain " + sd(d));
    cmp<1,double>("neg", -a, d, e1); cmp<1,double>("pos", +a, d, ma); cmp<1,double>("neg-view", -a[_], d, e1);
    cmp<1,double>("chain1", (a+b)*c - a/b, d, e2); cmp<1,double>("chain2", s - (a - (b - (s*c - 1))), d, e3); cmp<1,double>("chain3", (a*b) - (c - s)/b, d, e4);
    cmp<1,double>("chain1v", (a[_]+b)*c[_] - a/b[_], d, e2);
    vec1d r = a; r += b; r *= c; r -= a/b; cmp<1,double>("compound", r, d, e2);
    vec1i ia; std::vector<int_t> mi; fill(rng, d, ia, mi, false); vec1i ib = ia; ib *= 3; std::vector<int_t> ei; for (auto x : mi) ei.push_back(3*x); cmp<1,int_t>("compound-int", ib, d, ei);
    vh::check(eqvec(flat(a), ma) && eqvec(flat(b), mb) && eqvec(flat(c), mc), "operand-modified", ""); ev("chain");
    vh::sig(sd(d) + s1(s));
}
#define UN(f, lo, hi) { std::vector<double> x, e; for (size_t k = 0; k < n; ++k) { x.push_back(rng.d(lo, hi)); e.push_back(f(x[k])); } vec2d v(dd); for (size_t k = 0; k < n; ++k) v.safe[k] = x[k]; \
    cmp<2,double>(#f, f(v), dd, e); cmp<2,double>(#f "-tmp", f(tmp(v)), dd, e); cmp<1,double>(#f "-view", f(v[allids(v)]), fd, e); vh::check(eqvec(flat(v), x), #f "-operand-modified", ""); }
SCEN(functions, 4000, 40000) {
    auto dd = rdims<2>(rng, 4, 0.04); size_t n = dd[0]*dd[1]; std::array<size_t,1> fd = {{n}}; vh::note("vectorised functions " + sd(dd));
    UN(sqrt, 0, 50) UN(sqr, -9, 9) UN(invsqr, 1, 9) UN(cos, -9, 9) UN(sin, -9, 9) UN(tan, -1, 1) UN(acos, -1, 1) UN(asin, -1, 1) UN(atan, -9, 9) UN(cosh, -3, 3) UN(sinh, -3, 3) UN(tanh, -3, 3)
    UN(acosh, 1, 9) UN(asinh, -9, 9) UN(atanh, -0.9, 0.9) UN(exp, -9, 9) UN(log, 0.1, 9) UN(log2, 0.1, 9) UN(log10, 0.1, 9) UN(erf, -2, 2) UN(erfc, -2, 2) UN(tgamma, 0.5, 5) UN(ceil, -9, 9) UN(floor, -9, 9) UN(round, -9, 9) UN(abs, -9, 9)
    std::vector<double> x, e, e2, e3; double p = rng.d(0.5, 3), lo = rng.d(-3, 0), hi = rng.d(0, 3); for (size_t k = 0; k < n; ++k) { x.push_back(rng.d(0.1, 9)); e.push_back(std::pow(x[k], p)); e2.push_back(std::fmod(x[k], p)); e3.push_back(x[k]-4 < lo ? lo : x[k]-4 > hi ? hi : x[k]-4); }
    vec2d v(dd); for (size_t k = 0; k < n; ++k) v.safe[k] = x[k];
    cmp<2,double>("pow", pow(v, p), dd, e); cmp<2,double>("fmod", fmod(v, p), dd, e2); cmp<2,double>("clamp", clamp(v-4.0, lo, hi), dd, e3); ev("functions");
    // reference values, not only agreement between the two forms
    double z = rng.d(0.2, 5);
    vh::check(close(sqr(z), z*z, 1e-14) && close(invsqr(z), 1/(z*z), 1e-14) && close(sqrt(z), std::sqrt(z), 1e-15) && close(vif::pow(z, p), std::pow(z, p), 1e-14) && close(log10(z), std::log10(z), 1e-14) && close(vif::abs(-z), z, 0), "scalar-values", s1(z));
    vh::check(is_finite(z) && !is_finite(z/0.0) && !is_finite(0.0/0.0) && is_nan(0.0/0.0) && !is_nan(z), "finite-nan", "");
    vh::check(eqv(clamp(z, 1.0, 2.0), z < 1 ? 1.0 : z > 2 ? 2.0 : z), "clamp-scalar", "");
    vec1d w = {z, NAN, INFINITY, -z}; vec1b fi = is_finite(w), na = is_nan(w); vh::check(fi[0] && !fi[1] && !fi[2] && fi[3] && !na[0] && na[1] && !na[2], "finite-nan-vec", "");
    vh::sig(sd(dd));
}
// user functions vectorised through vectorize_lambda
SCEN(lambda, 4000, 40000) {
    auto dd = rdims<2>(rng, 4, 0.04); size_t n = dd[0]*dd[1]; vec2d v(dd); std::vector<double> x, e; for (size_t k = 0; k < n; ++k) { x.push_back(rng.d(-9, 9)); v.safe[k] = x[k]; e.push_back(x[k]*2 + 7); }
    double off = 7; size_t calls = 0; auto f = vectorize_lambda([&](double q, double o) { ++calls; return q*2 + o; });
    vh::note("vectorize_lambda " + sd(dd));
    cmp<2,double>("vec", f(v, off), dd, e); vh::check(calls == n, "calls", fmt("%zu calls for %zu elements", calls, n)); vh::check(f(3.0, 1.0) == 7.0, "scalar", "");
    vh::sig(sd(dd));
}
// user functions of several vectors, without result, moving their argument; first-argument form
SCEN(lambda_forms, 4000, 40000) {
    auto dd = rdims<2>(rng, 4, 0.04); size_t n = dd[0]*dd[1]; vec2d v(dd), w(dd); std::vector<double> x, y, e, e2; for (size_t k = 0; k < n; ++k) { x.push_back(rng.d(-9, 9)); y.push_back(rng.d(-9, 9)); v.safe[k] = x[k]; w.safe[k] = y[k]; e.push_back(x[k] - 3*y[k]); e2.push_back(5 - 3*y[k]); }
    std::array<size_t,1> fd = {{n}}; vh::note("vectorised lambdas " + sd(dd)); size_t calls = 0;
    auto f = vectorize_lambda([&](double a, double b) { ++calls; return a - 3*b; });
    cmp<2,double>("two-vectors", f(v, w), dd, e); cmp<2,double>("scalar-vector", f(5.0, w), dd, e2); cmp<1,double>("views", f(v[allids(v)], w[allids(w)]), fd, e); cmp<2,double>("temporaries", f(tmp(v), tmp(w)), dd, e);
    vh::check(calls == 4*n, "calls", fmt("%zu calls for 4 x %zu elements", calls, n)); vh::check(eqvec(flat(v), x) && eqvec(flat(w), y), "operand-modified", "");
    // without a result: once per element, in order, the argument may be modified
    { std::vector<double> seen; auto g = vectorize_lambda([&](double a, double b) { seen.push_back(a - 3*b); }); g(v, w); vh::check(eqvec(seen, e), "void", fmt("%zu calls for %zu elements", seen.size(), n)); seen.clear(); g(5.0, w); vh::check(eqvec(seen, e2), "void-scalar", ""); seen.clear(); g(2.0, 1.0); vh::check(seen.size() == 1 && seen[0] == -1, "void-scalars", "");
      vec2d u = v; auto h = vectorize_lambda([&](double& a, double b) { a = a - 3*b; }); h(u, w); cmp<2,double>("modified", u, dd, e); }
    // dimensions must agree
    { vec2d u(dd[0]+1, dd[1]); Outcome o = guarded([&]() { auto r = f(v, u); (void)r; }); vh::check(o.refused(), "mismatch-accepted", ""); auto g = vectorize_lambda([&](double a, double b) {}); o = guarded([&]() { g(u, v); }); vh::check(o.refused(), "void-mismatch-accepted", ""); }
    // only the first argument is spread
    { calls = 0; auto g = vectorize_lambda_first([&](double a, const vec1d& c) { ++calls; double t = 0; for (auto z : c) t += z; return a*2 + t; }); vec1d c = {1, 2, 4}; std::vector<double> e3; for (auto z : x) e3.push_back(z*2 + 7); cmp<2,double>("first", g(v, c), dd, e3); cmp<2,double>("first-temporary", g(tmp(v), c), dd, e3); cmp<1,double>("first-view", g(v[allids(v)], c), fd, e3); vh::check(calls == 3*n && g(1.5, c) == 10, "first-calls", s1(calls)); }
    { vec1s t; std::vector<std::string> es; for (size_t k = 0; k < n; ++k) { t.push_back("s" + std::to_string((int)x[k])); es.push_back(t.safe[k] + "|" + t.safe[k]); } auto g = vectorize_lambda_first([](std::string a, const std::string& q) { return a + q + a; }); cmp<1,std::string>("first-string", g(t, "|"), fd, es); cmp<1,std::string>("first-string-temporary", g(tmp(t), "|"), fd, es); }
    ev("lambda-forms"); vh::sig(sd(dd));
}
// functions with a scalar on the left, two vectors, or their own definition
SCEN(functions2, 4000, 40000) {
    auto dd = rdims<2>(rng, 4, 0.04); size_t n = dd[0]*dd[1]; std::array<size_t,1> fd = {{n}}; vh::note("functions of two arguments " + sd(dd)); double b = rng.d(0.3, 4);
    vec2d v(dd), w(dd); vec1d l(n); vec1i li(n); std::vector<double> x, y, ep, epi, ea, ea2, ea3, e10_, es; for (size_t k = 0; k < n; ++k) { x.push_back(rng.b(0.1) ? 0.0 : rng.d(-4, 4)); y.push_back(rng.b(0.1) ? 0.0 : rng.d(-4, 4)); v.safe[k] = x[k]; w.safe[k] = y[k]; l.safe[k] = x[k]; li.safe[k] = (int_t)x[k]; ep.push_back(std::pow(b, x[k])); epi.push_back(std::pow(b, (double)(int_t)x[k])); ea.push_back(std::atan2(x[k], y[k])); ea2.push_back(std::atan2(b, y[k])); ea3.push_back(std::atan2(x[k], b)); es.push_back(x[k] >= 0 ? 1 : -1); }
    cmp<1,double>("pow-scalar-vec", pow(b, l), fd, ep); cmp<1,double>("pow-scalar-temporary", pow(b, tmp(l)), fd, ep); cmp<1,double>("pow-scalar-int", pow(b, li), fd, epi); cmp<1,double>("pow-scalar-view", pow(b, l[_]), fd, ep);
    cmp<2,double>("atan2", atan2(v, w), dd, ea); cmp<2,double>("atan2-tv", atan2(tmp(v), w), dd, ea); cmp<2,double>("atan2-vt", atan2(v, tmp(w)), dd, ea); cmp<2,double>("atan2-tt", atan2(tmp(v), tmp(w)), dd, ea); cmp<1,double>("atan2-views", atan2(v[allids(v)], w[allids(w)]), fd, ea);
    cmp<2,double>("atan2-sv", atan2(b, w), dd, ea2); cmp<2,double>("atan2-vs", atan2(v, b), dd, ea3); cmp<2,double>("atan2-st", atan2(b, tmp(w)), dd, ea2); cmp<2,double>("atan2-ts", atan2(tmp(v), b), dd, ea3);
    { vec2d u(dd[0]+1, dd[1]); Outcome o = guarded([&]() { auto r = atan2(v, u); (void)r; }); vh::check(o.refused(), "atan2-mismatch-accepted", ""); }
    { auto r = e10(v); auto q = sign(v); bool ok = r.dims == v.dims && q.dims == v.dims; for (size_t k = 0; ok && k < n; ++k) ok = close(r.safe[k], std::pow(10.0, x[k]), 1e-13) && q.safe[k] == es[k]; vh::check(ok && close(e10(b), std::pow(10.0, b), 1e-13) && sign(-b) == -1 && sign(b) == 1 && sign(0.0) == 1, "e10-sign", svv(v)); }
    // the fast exponential: within 0.2 percent, zero outside of its range
    { bool ok = true; vec1f q(n); for (size_t k = 0; k < n; ++k) q.safe[k] = (float)rng.d(-86.9, 87.9); vec1f r = fast_exp(q); double worst = 0; for (size_t k = 0; k < n; ++k) { double d = std::fabs(r.safe[k]/std::exp((double)q.safe[k]) - 1); worst = std::max(worst, d); } vh::check(r.size() == n && worst < 2.5e-3, "fast_exp", fmt("relative error %g", worst)); vh::check(fast_exp(-88.f) == 0 && fast_exp(-500.f) == 0, "fast_exp-underflow", ""); }
    // Bessel functions satisfy their differential recurrences (Wronskians), and agree with the C library
    { double z = rng.d(0.1, 20); vec1d zz = {z, 2*z}; vh::check(bessel_j0(z) == ::j0(z) && bessel_j1(z) == ::j1(z) && bessel_y0(z) == ::y0(z) && bessel_y1(z) == ::y1(z) && bessel_j0(zz)[1] == ::j0(2*z) && bessel_y1(zz)[0] == ::y1(z) && bessel_j1(tmp(zz))[1] == ::j1(2*z) && bessel_y0(tmp(zz))[0] == ::y0(z), "bessel", s1(z)); vh::check(close(bessel_i0(z)*bessel_k1(z) + bessel_i1(z)*bessel_k0(z), 1/z, 1e-10) && close(bessel_i0(zz)[1]*bessel_k1(zz)[1] + bessel_i1(zz)[1]*bessel_k0(zz)[1], 0.5/z, 1e-10) && bessel_i0(z) > bessel_i1(z) && bessel_k1(z) > bessel_k0(z), "bessel-modified", s1(z)); }
    // complex vectors
    { vec1cd c; std::vector<double> cr, ci; for (size_t k = 0; k < n; ++k) { c.push_back(std::complex<double>(x[k], y[k])); cr.push_back(x[k]); ci.push_back(y[k]); } cmp<1,double>("real_part", real_part(c), fd, cr); cmp<1,double>("imag_part", imag_part(c), fd, ci); vec1cd c2 = c*c; bool ok = c2.size() == n; for (size_t k = 0; ok && k < n; ++k) ok = c2.safe[k] == c.safe[k]*c.safe[k]; vh::check(ok, "complex-product", ""); }
    vh::sig(sd(dd)); ev("functions2");
}
#define MIS(name, expr, bad) { Outcome o = guarded([&]() { auto r = expr; (void)r; }); if (bad) { vh::check(o.refused(), name ":mismatch-accepted", sd(a.dims) + " with " + sd(b.dims)); ev("refused"); } else vh::check(o.ok(), name ":valid-refused", o.str()); }
SCEN(mismatch, 8000, 80000) {
    auto d1 = rdims<2>(rng, 4, 0.04), d2 = rdims<2>(rng, 4, 0.04); if (rng.b(0.3)) { d2 = d1; std::swap(d2[0], d2[1]); } if (rng.b(0.2)) d2 = d1; bool bad = d1 != d2;
    vec<2,int> a(d1), b(d2); for (auto& x : a) x = (int)rng.i(1, 9); for (auto& x : b) x = (int)rng.i(1, 9); vec<2,bool> p = a > 4, q = b > 4; vh::note("operands " + sd(d1) + " and " + sd(d2));
    MIS("add", a + b, bad) MIS("add-tv", tmp(a) + b, bad) MIS("add-vt", a + tmp(b), bad) MIS("add-tt", tmp(a) + tmp(b), bad) MIS("sub", a - b, bad) MIS("sub-vt", a - tmp(b), bad) MIS("mul", a * b, bad) MIS("div", a / b, bad) MIS("mod", a % b, bad)
    MIS("eq", a == b, bad) MIS("lt", a < b, bad) MIS("ge", a >= b, bad) MIS("and", p && q, bad) MIS("or-tv", tmp(p) || q, bad) MIS("and-vt", p && tmp(q), bad) MIS("or-tt", tmp(p) || tmp(q), bad)
    MIS("view", a(_,_) + b(_,_), bad) MIS("view-tmp", a(_,_) - tmp(b), bad)
    { Outcome o = guarded([&]() { a += b; }); vh::check(o.refused() == bad, "compound-mismatch", o.str()); }
    { Outcome o = guarded([&]() { auto w = a(_,_); w -= b; }); vh::check(o.refused() == bad, "compound-view-mismatch", o.str()); }
    vh::sig(sd(d1) + sd(d2));
}
#endif
