// Reference model of an N-dimensional row-major array, independent of the library.
#ifndef MODEL_HPP
#define MODEL_HPP
#include "vh.hpp"
namespace vh {
template<std::size_t D, typename T>
struct Model {
    std::array<std::size_t,D> dims; std::vector<T> data;
    Model() { dims.fill(0); }
    std::size_t total() const { std::size_t n = 1; for (auto d : dims) n *= d; return n; }
    std::size_t off(const std::array<std::size_t,D>& ix) const {
        std::size_t o = 0; for (std::size_t k = 0; k < D; ++k) o = o*dims[k] + ix[k]; return o;
    }
    bool next(std::array<std::size_t,D>& ix) const {
        for (std::size_t k = D; k-- > 0;) { if (++ix[k] < dims[k]) return true; ix[k] = 0; }
        return false;
    }
};

// unique-ish values
template<typename T> struct Val;
template<> struct Val<int> { static int get(Rng& r) { return (int)r.i(-1000, 1000); } };
template<> struct Val<vif::int_t> { static vif::int_t get(Rng& r) { return r.i(-100000, 100000); } };
template<> struct Val<vif::uint_t> { static vif::uint_t get(Rng& r) { return r.u(0, 100000); } };
template<> struct Val<double> { static double get(Rng& r) { return r.i(-4000, 4000)*0.25; } };
template<> struct Val<float> { static float get(Rng& r) { return r.i(-4000, 4000)*0.25f; } };
template<> struct Val<char> { static char get(Rng& r) { return (char)r.i('a', 'z'); } };
template<> struct Val<bool> { static bool get(Rng& r) { return r.b(); } };
template<> struct Val<std::string> { static std::string get(Rng& r) {
    std::string s; size_t n = r.b(0.2) ? r.u(16, 40) : r.u(0, 6);
    for (size_t k = 0; k < n; ++k) s += (char)r.i('a', 'z');
    return s;
} };

template<typename T> const char* tname();
template<> inline const char* tname<int>() { return "int"; }
template<> inline const char* tname<vif::int_t>() { return "int_t"; }
template<> inline const char* tname<vif::uint_t>() { return "uint_t"; }
template<> inline const char* tname<double>() { return "double"; }
template<> inline const char* tname<float>() { return "float"; }
template<> inline const char* tname<char>() { return "char"; }
template<> inline const char* tname<bool>() { return "bool"; }
template<> inline const char* tname<std::string>() { return "string"; }

template<std::size_t D> std::array<std::size_t,D> rdims(Rng& r, size_t mx = 5, double pzero = 0.06) {
    std::array<std::size_t,D> d;
    for (auto& x : d) x = r.b(pzero) ? 0 : r.u(1, mx);
    return d;
}
// a vif vector and its model with the same random content
template<std::size_t D, typename T>
void make(Rng& r, const std::array<std::size_t,D>& d, vif::vec<D,T>& v, Model<D,T>& m) {
    m.dims = d; m.data.resize(m.total());
    v = vif::vec<D,T>(d);
    for (size_t k = 0; k < m.data.size(); ++k) { T x = Val<T>::get(r); m.data[k] = x; v.safe[k] = x; }
}
template<std::size_t D, typename T>
bool same(const vif::vec<D,T>& v, const Model<D,T>& m) {
    if (v.size() != m.data.size()) return false;
    for (size_t k = 0; k < D; ++k) if (v.dims[k] != m.dims[k]) return false;
    for (size_t k = 0; k < m.data.size(); ++k) if (!eqv((T)v.safe[k], (T)m.data[k])) return false;
    return true;
}
template<std::size_t D, typename T> std::string sm(const Model<D,T>& m) { return "[" + sd(m.dims) + "]" + sv(m.data); }
}
#endif
