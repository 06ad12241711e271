// FITS files against an independent encoder/decoder of the file format.  PART selects the property.
#include "model.hpp"
#include <fstream>
#include <sstream>
#include <cstring>
using namespace vif;
using namespace vh;
using S = std::string;
template<typename T> using V = std::vector<T>;

static S slurp(const S& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const S& f, const S& t) { std::ofstream o(f, std::ios::binary); o << t; }
static S newfile() { static long n = 0; static S last; if (!last.empty()) ::unlink(last.c_str()); last = st().scratch + fmt("/f%ld.fits", n++); ::unlink(last.c_str()); return last; }
static S rtrim(S s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\0')) s.pop_back(); return s; }
static S trim2(S s) { s = rtrim(s); size_t p = 0; while (p < s.size() && s[p] == ' ') ++p; return s.substr(p); }
static S up(S s) { for (auto& c : s) c = toupper(c); return s; }

// ------------------------------------------------------------ big-endian values
template<typename T> void be(T v, S& o) { char b[sizeof(T)]; memcpy(b, &v, sizeof(T)); std::reverse(b, b + sizeof(T)); o.append(b, sizeof(T)); }
template<typename T> T unbe(const char* p) { char b[sizeof(T)]; memcpy(b, p, sizeof(T)); std::reverse(b, b + sizeof(T)); T v; memcpy(&v, b, sizeof(T)); return v; }
template<typename T> struct F;
template<> struct F<bool> { static const int bitpix = 8; static const char code = 'B'; static void enc(bool v, S& o) { o += char(v); } static bool rnd(Rng& r) { return r.b(); } static const char* name() { return "bool"; } };
template<> struct F<char> { static const int bitpix = 8; static const char code = 'S'; static void enc(char v, S& o) { o += char(v ^ 0x80); } static char rnd(Rng& r) { return r.b(0.2) ? (r.b() ? 127 : -128) : r.i(-128, 127); } static const char* name() { return "char"; } };
template<> struct F<short> { static const int bitpix = 16; static const char code = 'I'; static void enc(short v, S& o) { be(v, o); } static short rnd(Rng& r) { return r.b(0.2) ? (r.b() ? 32767 : -32768) : r.i(-32768, 32767); } static const char* name() { return "short"; } };
template<> struct F<int_t> { static const int bitpix = 64; static const char code = 'K'; static void enc(int_t v, S& o) { be(v, o); } static int_t rnd(Rng& r) { return r.b(0.2) ? (int_t)r.next() : r.b(0.1) ? (r.b() ? std::numeric_limits<int_t>::max() : std::numeric_limits<int_t>::min()) : r.i(-1000, 1000); } static const char* name() { return "int_t"; } };
template<> struct F<uint_t> { static const int bitpix = 64; static const char code = 'K'; static void enc(uint_t v, S& o) { be(v, o); } static uint_t rnd(Rng& r) { return r.b(0.1) ? (uint_t(1) << 62) + r.next()%1000 : r.u(0, 5000); } static const char* name() { return "uint_t"; } };
template<> struct F<float> { static const int bitpix = -32; static const char code = 'E'; static void enc(float v, S& o) { be(v, o); } static float rnd(Rng& r) { return r.b(0.15) ? (r.b() ? fnan : r.b() ? finf : -finf) : float(r.gauss()*std::pow(10.0, r.i(-30, 30))); } static const char* name() { return "float"; } };
template<> struct F<double> { static const int bitpix = -64; static const char code = 'D'; static void enc(double v, S& o) { be(v, o); } static double rnd(Rng& r) { return r.b(0.15) ? (r.b() ? dnan : r.b() ? dinf : -dinf) : r.gauss()*std::pow(10.0, r.i(-200, 200)); } static const char* name() { return "double"; } };
static S word(Rng& r, size_t mx) { S s; size_t n = r.u(0, mx); static const S al = "abcXYZ019 _-+.,'/=&\"()"; for (size_t k = 0; k < n; ++k) s += al[r.u(0, al.size()-1)]; return trim2(s); }
template<> struct F<S> { static const char code = 'A'; static S rnd(Rng& r) { return word(r, 9); } static const char* name() { return "string"; } };

template<size_t D> std::array<size_t,D> rdims(Rng& r, size_t mx, bool zero) { std::array<size_t,D> d; for (auto& x : d) x = r.u(1, mx); if (zero) d[r.u(0, D-1)] = 0; return d; }
template<size_t D, typename T> vec<D,T> rvec(Rng& r, const std::array<size_t,D>& d) { vec<D,T> v; for (size_t k = 0; k < D; ++k) v.dims[k] = d[k]; v.resize(); for (size_t k = 0; k < v.size(); ++k) v.safe[k] = F<T>::rnd(r); return v; }
template<size_t D, typename T> S bytes(const vec<D,T>& v) { S o; for (size_t k = 0; k < v.size(); ++k) F<T>::enc(v.safe[k], o); return o; }

// ------------------------------------------------------------ format
struct Hdu { V<S> cards; V<std::pair<S,S>> kv; S data;
    S get(const S& k) const { for (auto& p : kv) if (p.first == k) return p.second; return ""; }
    bool has(const S& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
    long num(const S& k, long def = 0) const { S s = get(k); return s.empty() ? def : strtol(s.c_str(), nullptr, 10); }
    bool table() const { return get("XTENSION") == "BINTABLE"; } bool image() const { return !table() && num("NAXIS") > 0; } bool empty() const { return !table() && num("NAXIS") == 0; }
    V<size_t> dims() const { V<size_t> d; for (long k = num("NAXIS"); k >= 1; --k) d.push_back(num("NAXIS" + std::to_string(k))); return d; } };
static S unquote(const S& c, size_t p, size_t* end = nullptr) { S o; for (++p; p < c.size(); ++p) { if (c[p] == '\'') { if (p + 1 < c.size() && c[p+1] == '\'') { o += '\''; ++p; } else break; } else o += c[p]; } if (end) *end = p; return o; }
static void split_card(const S& c, S& k, S& v) {
    k = rtrim(c.substr(0, 8)); v = ""; size_t p = 10;
    if (k == "HIERARCH") { size_t e = c.find('='); if (e == S::npos) return; k = trim2(c.substr(9, e - 9)); p = e + 1; } else if (c.size() < 10 || c.substr(8, 2) != "= ") { v = c.size() > 8 ? c.substr(8) : ""; return; }
    while (p < c.size() && c[p] == ' ') ++p; if (p >= c.size()) return;
    if (c[p] == '\'') v = rtrim(unquote(c, p)); else { size_t e = c.find('/', p); v = trim2(c.substr(p, e == S::npos ? e : e - p)); }
}
// decode a whole file; an ill-formed one gives an error text
static S decode(const S& b, V<Hdu>& hs) {
    size_t p = 0; hs.clear(); if (b.size()%2880) return "size is not a multiple of 2880";
    while (p < b.size()) {
        Hdu h; bool end = false; while (!end) { if (p + 2880 > b.size()) return "header without END"; for (size_t k = 0; k < 36; ++k) { S c = b.substr(p + 80*k, 80); if (end) { if (rtrim(c) != "") return "text after END"; continue; } if (rtrim(c) == "END") { end = true; continue; } h.cards.push_back(c); S key, v; split_card(c, key, v); if (key == "CONTINUE" && !h.kv.empty()) { S& l = h.kv.back().second; size_t q = c.find('\''); if (!l.empty() && l.back() == '&' && q != S::npos) { l.pop_back(); l += rtrim(unquote(c, q)); } } else h.kv.push_back({key, v}); } p += 2880; }
        if (hs.empty() ? h.kv[0].first != "SIMPLE" : h.kv[0].first != "XTENSION") return "HDU does not start with SIMPLE or XTENSION";
        size_t n = h.num("NAXIS") ? 1 : 0; for (long k = 1; k <= h.num("NAXIS"); ++k) n *= h.num("NAXIS" + std::to_string(k)); n = (n + h.num("PCOUNT"))*h.num("GCOUNT", 1)*std::labs(h.num("BITPIX"))/8; if (!h.num("NAXIS")) n = 0; if (p + (n + 2879)/2880*2880 > b.size()) return "data shorter than the header says"; h.data = b.substr(p, n); p += (n + 2879)/2880*2880; hs.push_back(h);
    }
    return "";
}
static S cd(const S& k, const S& v) { S c = k; c.resize(8, ' '); c += "= "; if (v.size() && v[0] == '\'') c += v; else c += S(v.size() < 20 ? 20 - v.size() : 0, ' ') + v; c.resize(80, ' '); return c; }
static S cd(const S& k, long v) { return cd(k, std::to_string(v)); }
static S block(S s, char pad) { s.resize((s.size() + 2879)/2880*2880, pad); return s; }
static S header_image(int bitpix, const V<size_t>& d, bool primary, const S& extra) { S h = primary ? cd("SIMPLE", "T") : cd("XTENSION", "'IMAGE   '"); h += cd("BITPIX", bitpix) + cd("NAXIS", d.size()); for (size_t k = 0; k < d.size(); ++k) h += cd("NAXIS" + std::to_string(k+1), d[d.size()-1-k]); if (!primary) h += cd("PCOUNT", 0L) + cd("GCOUNT", 1L); else h += cd("EXTEND", "T"); S e = "END"; e.resize(80, ' '); return block(h + extra + e, ' '); }
template<typename T> bool same_bits(const V<T>& a, const V<T>& b) { return eqvec(a, b); }
template<size_t D> V<size_t> vd(const std::array<size_t,D>& d) { return V<size_t>(d.begin(), d.end()); }

#if PART == 0
// ------------------------------------------------------------ images
// written images: bytes on disk, then every way to read them back
template<size_t D, typename T> void image_roundtrip(Rng& rng) {
    auto d = rdims<D>(rng, D == 1 ? 40 : 9, rng.b(0.08)); auto v = rvec<D,T>(rng, d); S f = newfile(); size_t k = rng.b(0.5) ? 0 : rng.u(1, 4); bool view = rng.b(0.3); vh::note(fmt("%s %zu-D ", F<T>::name(), D) + sd(d) + fmt(" hdu %zu", k));
    { fits::output_image o(f); if (k || rng.b()) o.reach_hdu(k); if (view && v.size()) { if (D == 1) { vec1u id(v.size()); for (size_t q = 0; q < id.size(); ++q) id[q] = q; o.write(v[id].concretise()); } else o.write(v); } else o.write(v); if (rng.b()) { o.close(); check(!o.is_open(), "closed"); } }
    V<Hdu> h; S e = decode(slurp(f), h); if (!check(e.empty(), "well-formed", e)) return; if (!check(h.size() == k + 1, "hdu-number", fmt("%zu in the file", h.size()))) return; for (size_t i = 0; i < k; ++i) check(h[i].empty(), "other-hdus-empty");
    check(h[k].num("BITPIX") == F<T>::bitpix && h[k].dims() == vd(d), "image-structure"); check(h[k].data == bytes(v), "image-bytes", svv(v)); ev("written");
    fits::input_image in(f); in.reach_hdu(k); check(in.hdu_count() == k + 1 && in.current_hdu() == k && in.axis_count() == D && vd(d) == flat(in.image_dims()) && in.hdu_type() == fits::image_hdu, "image-description"); vec<D,T> r; in.read(r); check(r.dims == v.dims && same_bits(flat(r), flat(v)), "image-round-trip", svv(v) + " got " + svv(r)); if (k == 0) { vec<D,T> r2; fits::read(f, r2); check(same_bits(flat(r2), flat(v)), "fits::read"); check(fits::file_axes(f) == D && flat(fits::file_dimensions(f)) == vd(d), "file_dimensions"); } vec<D,T> r3 = rvec<D,T>(rng, rdims<D>(rng, 4, false)); fits::read_hdu(f, r3, k); check(r3.dims == v.dims && same_bits(flat(r3), flat(v)), "fits::read_hdu");
    // refused: wrong rank, HDU that does not exist; the object stays usable
    vec<D+1,T> bad; auto o = guarded([&]{ in.read(bad); }); check(o.kind == threw, "wrong-rank-refused", o.str()); o = guarded([&]{ in.reach_hdu(k + 1); }); check(o.kind == threw, "missing-hdu-refused", o.str()); r = vec<D,T>(); in.read(r); check(r.dims == v.dims && same_bits(flat(r), flat(v)), "usable-after-refusal"); ev("refused");
    // pixels
    if (v.size()) for (int q = 0; q < 4; ++q) { vec1u p(D); size_t id = 0; bool out = rng.b(0.25); for (size_t i = 0; i < D; ++i) { p[i] = rng.u(0, d[i]-1); id = id*d[i] + p[i]; } if (out) { size_t a = rng.u(0, D-1); p[a] = d[a] + rng.u(0, 3); } T x = T(); auto o = guarded([&]{ x = in.template read_pixel<T>(p); }); if (out) check(o.kind == threw, "pixel-outside-refused", svv(p) + o.str()); else check(o.ok() && eqv(x, T(v.safe[id])), "read_pixel", svv(p) + o.str()); ev(out ? "pixel-outside" : "pixel"); }
    sig(fmt("%s %zu %zu %d", F<T>::name(), D, k, v.empty()) + sd(d));
}
template<size_t D> void by_type(Rng& rng) { switch (rng.i(0, 6)) { case 0: image_roundtrip<D,bool>(rng); break; case 1: image_roundtrip<D,char>(rng); break; case 2: image_roundtrip<D,short>(rng); break; case 3: image_roundtrip<D,int_t>(rng); break; case 4: image_roundtrip<D,uint_t>(rng); break; case 5: image_roundtrip<D,float>(rng); break; default: image_roundtrip<D,double>(rng); } }
SCEN(write_1d, 250, 5000) { by_type<1>(rng); }
SCEN(write_2d, 400, 8000) { by_type<2>(rng); }
SCEN(write_3d, 250, 5000) { by_type<3>(rng); }

// sub-images
SCEN(subset, 600, 12000) {
    auto d = rdims<2>(rng, 8, false); vec2d v = rvec<2,double>(rng, d); S f = newfile(); fits::write(f, v); fits::input_image in(f); vec2d r; S desc;
    for (int q = 0; q < 4; ++q) {
        size_t a[2], b[2]; bool bad = false; auto pick = [&](size_t k, size_t& lo, size_t& hi) { int w = rng.i(0, 4); if (w == 0) { lo = 0; hi = d[k]-1; } else if (w == 1) { lo = 0; hi = rng.u(0, d[k] + (rng.b(0.15) ? 2 : 0) - 1); } else if (w == 2) { lo = rng.u(0, d[k] + (rng.b(0.2) ? 2 : 0) - 1); hi = d[k]-1; } else if (w == 3) { lo = rng.u(0, d[k] - 1); hi = rng.u(rng.b(0.1) ? 0 : lo, d[k] + (rng.b(0.15) ? 2 : 0) - 1); } else lo = hi = rng.u(0, d[k] + (rng.b(0.15) ? 2 : 0) - 1); if (w == 3 && lo > hi) bad = true; if (lo >= d[k] || hi >= d[k]) bad = true; return w; };
        int w0 = pick(0, a[0], b[0]), w1 = pick(1, a[1], b[1]); desc = sd(d) + fmt(" forms %d %d: %zu-%zu, %zu-%zu", w0, w1, a[0], b[0], a[1], b[1]); vh::note(desc); Outcome o;
        auto second = [&](auto first) { switch (w1) { case 0: return guarded([&]{ in.read_subset(r, first, _); }); case 1: return guarded([&]{ in.read_subset(r, first, _-b[1]); }); case 2: return guarded([&]{ in.read_subset(r, first, a[1]-_); }); case 3: return guarded([&]{ in.read_subset(r, first, a[1]-_-b[1]); }); default: return guarded([&]{ in.read_subset(r, first, a[1]); }); } };
        switch (w0) { case 0: o = second(_); break; case 1: o = second(_-b[0]); break; case 2: o = second(a[0]-_); break; case 3: o = second(a[0]-_-b[0]); break; default: o = second(a[0]); }
        if (bad) { check(o.refused(), "subset-outside-refused", desc + " " + o.str()); ev("subset-outside"); continue; } V<double> e; for (size_t i = a[0]; i <= b[0]; ++i) for (size_t j = a[1]; j <= b[1]; ++j) e.push_back(v.safe(i, j)); check(o.ok() && r.dims[0] == b[0]-a[0]+1 && r.dims[1] == b[1]-a[1]+1 && eqvec(flat(r), e), "read_subset", desc + " " + o.str()); ev("subset"); sig(fmt("%d %d %d", w0, w1, (int)e.size()));
    }
    vec3d v3 = rvec<3,double>(rng, rdims<3>(rng, 5, false)); f = newfile(); fits::write(f, v3); fits::input_image i3(f); size_t k = rng.u(0, v3.dims[0]-1), l = rng.u(0, v3.dims[2]-1); vec3d r3; i3.read_subset(r3, k, _, l-_); bool ok = r3.dims[0] == 1 && r3.dims[1] == v3.dims[1] && r3.dims[2] == v3.dims[2]-l; for (size_t i = 0; ok && i < r3.dims[1]; ++i) for (size_t j = 0; j < r3.dims[2]; ++j) ok = ok && eqv((double)r3.safe(0, i, j), (double)v3.safe(k, i, j+l)); check(ok, "read_subset-3d");
}

// files made by other programs: all pixel types, scaling, blanks
template<typename T, typename P> void foreign(Rng& rng, int bitpix) {
    auto d = rdims<2>(rng, 7, rng.b(0.05)); size_t n = d[0]*d[1]; V<double> raw; S data; bool integer = bitpix > 0; for (size_t k = 0; k < n; ++k) { if (bitpix == 8) { unsigned char x = rng.i(0, 255); be(x, data); raw.push_back(x); } else if (bitpix == 16) { short x = F<short>::rnd(rng); be(x, data); raw.push_back(x); } else if (bitpix == 32) { int x = rng.b(0.2) ? (int)rng.next() : rng.i(-1000, 1000); be(x, data); raw.push_back(x); } else if (bitpix == 64) { int64_t x = rng.i(-(1LL << 50), 1LL << 50); be(x, data); raw.push_back(x); } else if (bitpix == -32) { float x = F<float>::rnd(rng); be(x, data); raw.push_back(x); } else { double x = F<double>::rnd(rng); be(x, data); raw.push_back(x); } }
    S extra; double bs = 1, bz = 0; bool blank = false; long bl = 0; bool scaled = integer && std::is_floating_point<T>::value && rng.b(0.5); if (scaled) { bs = rng.pick<double>({0.5, 2, 0.25}); bz = rng.pick<double>({0, 100, -3.5}); extra += cd("BSCALE", fmt("%.10E", bs)) + cd("BZERO", fmt("%.10E", bz)); } if (integer && std::is_floating_point<T>::value && n && rng.b(0.4)) { blank = true; bl = (long)raw[rng.u(0, n-1)]; extra += cd("BLANK", bl); }
    size_t k = rng.b() ? 0 : 1; S f = newfile(); S file; if (k) file = header_image(8, {}, true, ""); file += header_image(bitpix, vd(d), k == 0, extra) + block(data, '\0'); spit(f, file); vh::note(fmt("bitpix %d into %s ", bitpix, F<T>::name()) + sd(d) + fmt(" scale %g zero %g blank %d hdu %zu", bs, bz, blank, k));
    fits::input_image in(f); in.reach_hdu(k); vec<2,T> r; auto o = guarded([&]{ in.read(r); }); bool wide = std::is_same<T,double>::value || (std::is_same<T,float>::value && bitpix != -64) || (std::is_same<T,int_t>::value && integer) || (std::is_same<T,short>::value && (bitpix == 8 || bitpix == 16)); if (!wide) { check(o.kind == threw, "narrowing-refused", o.str()); ev("narrowing"); return; } if (!check(o.ok(), "foreign-read", o.str())) return; V<T> e; for (double x : raw) { double y = bz + bs*x; if (blank && x == bl) y = dnan; e.push_back(T(y)); } bool ok = r.dims == d; auto fr = flat(r); for (size_t i = 0; ok && i < n; ++i) ok = eqv(fr[i], e[i]) || (std::is_same<T,float>::value && close((double)fr[i], (double)e[i], 2e-7)); check(ok, "foreign-values", svv(r) + " expected " + sv(e)); check(in.hdu_type() == fits::image_hdu && (long)in.axis_count() == 2, "foreign-type"); ev("foreign"); if (blank) ev("blank"); if (scaled) ev("scaled");
    // a scaled image written elsewhere with its header keeps its values
    if (std::is_floating_point<T>::value) { S g = st().scratch + "/copy.fits"; ::unlink(g.c_str()); fits::header hd = in.read_header(); { fits::output_image oi(g); oi.write(r); oi.write_header(hd); } vec<2,T> r2; fits::read(g, r2); check(r2.dims == r.dims && same_bits(flat(r2), flat(r)), "copy-with-header", svv(r) + " got " + svv(r2)); V<Hdu> hh; S er = decode(slurp(g), hh); check(er.empty(), "copy-well-formed", er); ev("copied"); }
    sig(fmt("%d %s %d %d %zu", bitpix, F<T>::name(), scaled, blank, k));
}
SCEN(foreign_files, 1500, 30000) { int bp = rng.pick<int>({8, 16, 32, 64, -32, -64}); switch (rng.i(0, 3)) { case 0: foreign<double,int>(rng, bp); break; case 1: foreign<float,int>(rng, bp); break; case 2: foreign<int_t,int>(rng, bp); break; default: foreign<short,int>(rng, bp); } }

// bytes read as booleans: anything but zero is true, whatever the byte
template<typename W> bool valid_bools(const W& v) { for (char c : v.data) if (c != 0 && c != 1) return false; return true; }
SCEN(byte_booleans, 400, 8000) {
    auto d = rdims<2>(rng, 6, false); S data; V<int> raw; for (size_t k = 0; k < d[0]*d[1]; ++k) { int x = rng.b(0.4) ? 0 : rng.b(0.4) ? 1 : rng.i(2, 255); raw.push_back(x); data += char(x); } bool ext = rng.b(0.4); S f = newfile(); S file; if (ext) file = header_image(8, {}, true, ""); file += header_image(8, vd(d), !ext, "") + block(data, '\0'); spit(f, file); vh::note(sv(raw));
    fits::input_image in(f); in.reach_hdu(ext); vec2b r; auto o = guarded([&]{ in.read(r); }); bool ok = o.ok() && r.dims == d && valid_bools(r); for (size_t k = 0; ok && k < raw.size(); ++k) ok = bool(r.safe[k]) == (raw[k] != 0); check(ok, "bytes-as-booleans", o.str()); check(o.ok() && count(r) == (size_t)std::count_if(raw.begin(), raw.end(), [](int x) { return x != 0; }) && count(!r) + count(r) == r.size(), "bytes-as-booleans-count");
    size_t i = rng.u(0, d[0]-1), j = rng.u(0, d[1]-1); vec2b q; in.read_subset(q, i, j-_); ok = q.dims[0] == 1 && q.dims[1] == d[1]-j && valid_bools(q); for (size_t k = j; ok && k < d[1]; ++k) ok = bool(q.safe(0, k-j)) == (raw[i*d[1]+k] != 0); check(ok, "bytes-as-booleans-subset"); bool px = in.read_pixel<bool>(vec1u{i, j}); check(px == (raw[i*d[1]+j] != 0), "bytes-as-booleans-pixel");
    vec2d w; fits::header hd; fits::read_hdu(f, w, ext, hd); ok = w.dims == d && hd == fits::read_header_hdu(f, ext) && fits::read_header_sectfits_hdu(f, 0, ext) == hd; for (size_t k = 0; ok && k < raw.size(); ++k) ok = w.safe[k] == raw[k]; check(ok, "read_hdu-with-header"); vec2b r2; if (ext) { S sf = st().scratch + "/b.sectfits"; spit(sf, f.substr(f.rfind('/') + 1) + "\n"); check(fits::read_header_sectfits_hdu(sf, 0, 1) == hd && guarded([&]{ (void)fits::read_header_sectfits_hdu(sf, 1, 1); }).refused(), "read_header_sectfits_hdu"); } else { r2 = fits::read<2,bool>(f); check(eqvec(flat(r2), flat(r)) && eqvec(flat(fits::read<>(f)), flat(w)), "read-returns"); }
    ev("byte-boolean"); sig(fmt("%d %zu", ext, raw.size()));
}

// histories of operations on a file of several HDUs
struct MH { int kind = 0; S type; V<size_t> dims; S data; int bitpix = 8; std::map<S,S> keys; S col; V<double> cv; };
SCEN(histories, 500, 12000) {
    S f = newfile(); V<MH> m; size_t cur = 0; S log; std::unique_ptr<fits::file> fp(new fits::file(f)); size_t steps = rng.u(4, 25); fp->reach_hdu(0); m.resize(1);
    auto verify = [&](const S& when) { V<Hdu> h; S e = decode(slurp(f), h); if (!check(e.empty(), "well-formed-" + when, e + log)) return; if (!check(h.size() == m.size(), "hdu-count-" + when, fmt("%zu expected %zu", h.size(), m.size()) + log)) return; for (size_t k = 0; k < h.size(); ++k) { auto& x = m[k]; if (x.kind == 0) check(h[k].empty(), "hdu-empty-" + when, fmt("HDU %zu", k) + log); else if (x.kind == 1) check(h[k].image() && h[k].dims() == x.dims && h[k].num("BITPIX") == x.bitpix && h[k].data == x.data, "hdu-image-" + when, fmt("HDU %zu", k) + log); else { S b; for (double y : x.cv) be(y, b); check(h[k].table() && h[k].get("TTYPE1") == x.col && h[k].data == b, "hdu-table-" + when, fmt("HDU %zu", k) + log); } for (auto& p : x.keys) check(h[k].get(p.first) == p.second, "hdu-keyword-" + when, fmt("HDU %zu ", k) + p.first + " got '" + h[k].get(p.first) + "' expected '" + p.second + "'" + log); for (int q = 0; q < 4; ++q) if (!x.keys.count(fmt("KEY%d", q))) check(!h[k].has(fmt("KEY%d", q)), "hdu-keyword-removed-" + when, log); } };
    for (size_t s = 0; s < steps; ++s) {
        vh::note(log.substr(log.size() > 3500 ? log.size() - 3500 : 0)); auto& c = m[cur]; check(fp->current_hdu() == cur && fp->hdu_count() == m.size(), "current-hdu", fmt("%zu of %zu expected %zu of %zu", (size_t)fp->current_hdu(), (size_t)fp->hdu_count(), cur, m.size()) + log); auto ty = fp->hdu_type(); check(ty == (c.kind == 0 ? fits::empty_hdu : c.kind == 1 ? fits::image_hdu : fits::table_hdu), "hdu-type", fmt("%d expected kind %d", (int)ty, c.kind) + log); check(flat(fp->image_dims()) == (c.kind == 1 ? c.dims : V<size_t>{}) && fp->axis_count() == (c.kind == 1 ? c.dims.size() : 0), "axes", log);
        switch (rng.i(0, 10)) {
        case 0: case 1: { size_t k = rng.u(0, m.size() + (rng.b(0.3) ? 1 : 0)); if (m.size() > 6) k %= m.size(); fp->reach_hdu(k); bool nw = k >= m.size(); if (nw) m.resize(k + 1); if (nw && cur + 1 < m.size()) ev("appended-from-inside"); cur = k; log += fmt(" reach(%zu)", k); ev("reach"); break; }
        case 2: case 3: { vec2d v = rvec<2,double>(rng, rdims<2>(rng, 4, rng.b(0.05))); auto o = guarded([&]{ fp->write(v); }); log += " write-image"; if (c.kind) { check(o.refused(), "write-over-data-refused", o.str() + log); ev("refused"); } else { check(o.ok(), "write-image", o.str() + log); c.kind = 1; c.dims = vd(v.dims); c.bitpix = -64; c.data = bytes(v); ev("image"); } break; }
        case 4: { auto d = rdims<1>(rng, 9, false); vec<1,short> v = rvec<1,short>(rng, d); auto o = guarded([&]{ fp->write(v); }); log += " write-short"; if (c.kind) check(o.refused(), "write-over-data-refused", o.str() + log); else { check(o.ok(), "write-image", o.str() + log); c.kind = 1; c.dims = vd(v.dims); c.bitpix = 16; c.data = bytes(v); } break; }
        case 5: { vec1d v = rvec<1,double>(rng, rdims<1>(rng, 6, false)); if (cur == 0 || c.kind == 2 || (c.kind == 0 && !c.keys.empty())) break; auto o = guarded([&]{ fp->write_column("col", v); }); log += " write-table"; if (c.kind) check(o.refused(), "table-over-data-refused", o.str() + log); else { check(o.ok(), "write-table", o.str() + log); c.kind = 2; c.col = "COL"; c.cv = flat(v); ev("table"); } break; }
        case 6: { if (cur == 0) break; auto o = guarded([&]{ fp->fits::output_image::remove_hdu(); }); log += fmt(" remove(%zu)", cur); check(o.ok(), "remove-hdu", o.str() + log); m.erase(m.begin() + cur); cur = std::min(cur, m.size() - 1); fp->reach_hdu(cur); ev("removed"); break; }
        case 7: { if (c.kind == 0) break; S k = fmt("KEY%d", rng.i(0, 3)); if (rng.b(0.3)) { fp->fits::output_image::remove_keyword(k); c.keys.erase(k); log += " -" + k; } else if (rng.b()) { int_t x = F<int_t>::rnd(rng); fp->fits::output_image::write_keyword(k, x); c.keys[k] = std::to_string(x); log += " +" + k; } else { S x = word(rng, 30); fp->fits::output_image::write_keyword(k, x); c.keys[k] = x; log += " +" + k + "='" + x + "'"; } ev("keyword"); break; }
        case 8: { if (c.kind == 1 && c.bitpix == -64 && c.dims.size() == 2) { bool bad = rng.b(0.3); std::array<size_t,2> d{{c.dims[0] + bad, c.dims[1]}}; vec2d v = rvec<2,double>(rng, d); auto o = guarded([&]{ fp->update(v); }); log += bad ? " update-bad" : " update"; if (bad) check(o.kind == threw, "update-wrong-dims-refused", o.str() + log); else { check(o.ok(), "update", o.str() + log); c.data = bytes(v); ev("updated"); } } break; }
        case 9: { if (rng.b()) { fp->fits::output_image::flush(); log += " flush"; verify("after-flush"); ev("flushed"); } else { fp.reset(); log += " reopen"; verify("after-close"); fp.reset(new fits::file(f)); cur = 0; check(fp->current_hdu() == 0, "reopened-at-primary"); ev("reopened"); } break; }
        default: { if (c.kind == 1 && c.bitpix == -64 && c.dims.size() == 2) { vec2d v; fp->read(v); check(vd(v.dims) == c.dims && bytes(v) == c.data, "read-in-history", log); ev("read"); vec1d w; auto o = guarded([&]{ fp->read(w); }); check(o.kind == threw, "wrong-rank-refused", o.str()); } if (c.kind == 2) { vec1d v; fp->read_column("col", v); check(eqvec(flat(v), c.cv), "read-table-in-history", log); vec1d w; auto sn = fp->read_column("nope", w); check(!sn.is_good(), "missing-column-refused"); } for (int q = 0; q < 4; ++q) { S x = "unchanged"; bool g = fp->read_keyword(fmt("KEY%d", q), x), ex = c.keys.count(fmt("KEY%d", q)); check(g == ex && x == (ex ? c.keys[fmt("KEY%d", q)] : S("unchanged")) && fp->has_keyword(fmt("key%d", q)) == ex, "keyword-in-history", x + log); } } }
    }
    fp.reset(); verify("at-end"); S kinds; for (auto& x : m) kinds += char('0' + x.kind); sig(kinds);
}
// opening: failures are exceptions and the object can be used afterwards
SCEN(opening, 150, 2000) {
    S f = newfile(), bad = st().scratch + "/none.fits"; vec2d v = rvec<2,double>(rng, rdims<2>(rng, 4, false)); fits::write(f, v); fits::input_image in; check(!in.is_open(), "not-open"); vec2d r; auto o = guarded([&]{ in.read(r); }); check(o.kind == threw, "read-without-file-refused", o.str()); int n = rng.i(1, 3); for (int k = 0; k < n; ++k) { o = guarded([&]{ in.open(bad); }); check(o.kind == threw && !in.is_open(), "open-missing-refused", o.str()); } S txt = st().scratch + "/text.fits"; spit(txt, word(rng, 9) + "not a FITS file\n"); o = guarded([&]{ in.open(txt); }); check(o.kind == threw && !in.is_open(), "open-text-refused", o.str()); fits::input_table it; o = guarded([&]{ it.open(f); }); check(o.kind == threw && !it.is_open(), "image-as-table-refused", o.str()); in.open(f); check(in.is_open() && in.filename() == f, "open"); in.read(r); check(eqvec(flat(r), flat(v)), "open-after-failure"); fits::input_image mv(std::move(in)); vec2d r2; mv.read(r2); check(eqvec(flat(r2), flat(v)) && !in.is_open() && mv.is_open(), "moved"); fits::input_image two(f); vec2d r3; two.read(r3); mv.read(r2); check(eqvec(flat(r3), flat(v)) && eqvec(flat(r2), flat(v)), "opened-twice"); S nd = st().scratch + "/no/such/dir.fits"; fits::output_image oi; o = guarded([&]{ oi.open(nd); }); check(o.kind == threw && !oi.is_open(), "create-refused", o.str()); S g = st().scratch + "/g.fits"; oi.open(g); oi.write(v); oi.close(); vec2d r4; fits::read(g, r4); check(eqvec(flat(r4), flat(v)), "create-after-failure");
    // writing again replaces the whole file
    vec1d w = rvec<1,double>(rng, rdims<1>(rng, 5, false)); fits::write(g, w); V<Hdu> h; S e = decode(slurp(g), h); check(e.empty() && h.size() == 1 && h[0].data == bytes(w), "overwritten", e); mv.close(); two.close(); vec2d u = rvec<2,double>(rng, v.dims); fits::update_hdu(f, u, 0); fits::read(f, r); check(eqvec(flat(r), flat(u)), "update_hdu"); ev("opened"); sig(fmt("%d", n));
    S sf = st().scratch + "/a.sectfits"; spit(sf, "# list\ng.fits\n\n" + f.substr(f.rfind('/') + 1) + "\n"); vec1s l = fits::read_sectfits(sf); check(l.size() == 2 && l[0] == st().scratch + "/g.fits" && l[1] == f, "read_sectfits", svv(l)); check(fits::read_header_sectfits(sf, 1) == fits::read_header(f) && guarded([&]{ (void)fits::read_header_sectfits(sf, 2); }).refused() && fits::read_header_sectfits(f, 0) == fits::read_header(f) && fits::read_header_hdu(f, 0) == fits::read_header(f) && guarded([&]{ (void)fits::read_header_hdu(f, 3); }).refused(), "read_header_sectfits"); spit(sf, "# nothing\n"); check(guarded([&]{ (void)fits::read_sectfits(sf); }).kind == threw && guarded([&]{ (void)fits::read_sectfits(bad); }).kind == threw, "read_sectfits-refused");
}
#endif

#if PART == 1
// ------------------------------------------------------------ tables
// independent description of a binary table
struct TCol { S name; char code = 0; size_t repeat = 1, width = 1; V<size_t> dims; S bytes; bool tzero = false; };
static size_t csize(char c) { switch (c) { case 'L': case 'B': case 'S': case 'A': return 1; case 'I': return 2; case 'J': case 'E': return 4; case 'K': case 'D': return 8; } return 0; }
static S decode_table(const Hdu& h, V<TCol>& cs, size_t& nrow) {
    cs.clear(); if (!h.table()) return "not a table"; nrow = h.num("NAXIS2"); size_t w = h.num("NAXIS1"), off = 0; long nf = h.num("TFIELDS");
    for (long k = 1; k <= nf; ++k) { TCol c; S n = std::to_string(k), f = h.get("TFORM" + n); c.name = h.get("TTYPE" + n); size_t p = 0; while (p < f.size() && isdigit(f[p])) ++p; c.repeat = p ? atol(f.substr(0, p).c_str()) : 1; if (p >= f.size()) return "bad TFORM"; c.code = f[p]; c.width = csize(c.code); if (!c.width) return "unknown type in " + f; c.tzero = h.has("TZERO" + n); S td = h.get("TDIM" + n); if (!td.empty()) { for (size_t q = 1; q < td.size(); ) { c.dims.insert(c.dims.begin(), strtoul(td.c_str() + q, nullptr, 10)); q = td.find_first_of(",)", q); if (q == S::npos) break; ++q; } }
        size_t cell = c.repeat*c.width; for (size_t r = 0; r < nrow; ++r) { if (r*w + off + cell > h.data.size()) return "cell outside the data"; c.bytes += h.data.substr(r*w + off, cell); } off += cell; cs.push_back(c); }
    if (off != w) return "NAXIS1 is not the sum of the columns"; return "";
}
// what was written in a column
struct Col { virtual ~Col() {} S name; bool row = false; virtual size_t rows() const = 0; virtual S desc() const = 0; virtual void write(fits::output_table& t) = 0; virtual void update(fits::table& t) = 0; virtual void disk(const TCol& c, size_t nrow, const S& when) = 0; virtual void read(fits::input_table& t, Rng& rng, const S& when) = 0; virtual char info() const = 0; virtual V<size_t> shape() const = 0; };
template<typename T> struct Enc { static S enc(const T& v) { S o; F<T>::enc(v, o); return o; } };
static S rc(Rng& rng, S n) { for (auto& c : n) if (rng.b()) c = tolower(c); return n; }
template<typename X> void refused_read(fits::input_table& t, const S& name, const char* what, const S& d) { X x; auto s = t.read_column(name, x); check(!s.is_good() && !s.reason().empty(), what, d); ev("refused"); }
template<typename T> using is_str = std::is_same<T,S>;

template<size_t D, typename T> struct VCol : Col {
    vec<D,T> v; size_t width = 0;
    VCol(Rng& rng, bool rw, size_t nrow) { row = rw; auto d = rdims<D>(rng, D == 1 ? 12 : 4, !rw && rng.b(0.07)); if (rw) { d[0] = nrow; if (D > 1) d[D-1] = rng.u(2, 4); } v = rvec<D,T>(rng, d); }
    size_t rows() const override { return row ? v.dims[0] : 1; } V<size_t> shape() const override { return vd(v.dims); }
    S desc() const override { return " " + name + fmt(":%s%zu", F<T>::name(), D) + sd(v.dims); }
    void write(fits::output_table& t) override { t.write_column(name, v); } void update(fits::table& t) override { t.update_column(name, v); }
    char info() const override { return F<T>::code; }
    void strings(const TCol& c, const S& when, std::true_type) { size_t n = 1; for (auto& s : v) n = std::max(n, s.size()); if (!check(c.code == 'A', "string-column-" + when, desc())) return; V<size_t> e = shape(); if (row) e.erase(e.begin()); e.push_back(n); check(c.dims == e || (row && c.dims.empty() && D == 1), "string-dims-" + when, desc() + sv(c.dims)); if (!check(c.bytes.size() == n*v.size(), "string-bytes-" + when, desc() + fmt(" %zu bytes", c.bytes.size()))) return; for (size_t k = 0; k < v.size(); ++k) check(rtrim(c.bytes.substr(k*n, n).c_str()) == rtrim(v.safe[k]), "string-value-" + when, desc()); }
    void strings(const TCol& c, const S& when, std::false_type) { S b; for (size_t k = 0; k < v.size(); ++k) b += Enc<T>::enc(v.safe[k]); char code = F<T>::code == 'S' ? 'B' : F<T>::code; V<size_t> e = shape(); if (row) e.erase(e.begin()); check(c.code == code && c.tzero == (F<T>::code == 'S') && (c.dims == e || (e.empty() || e.size() == 1) && c.dims.empty()), "column-type-" + when, desc() + " " + c.code + sv(c.dims)); check(c.bytes == b, "column-bytes-" + when, desc()); }
    void disk(const TCol& c, size_t nrow, const S& when) override { check(c.name == up(name), "column-name-" + when, c.name); check(nrow == rows(), "row-number-" + when, fmt("%zu expected %zu", nrow, rows()) + desc()); strings(c, when, is_str<T>()); }
    static V<S> tr(V<S> a) { for (auto& x : a) x = trim2(x); return a; } template<typename U> static V<U> tr(const V<U>& a) { return a; }
    bool eq(const vec<D,T>& r) { return r.dims == v.dims && eqvec(flat(r), tr(flat(v))); }
    void other(fits::input_table& t, Rng& rng, const S& when, std::true_type) { refused_read<vec<D,double>>(t, name, "string-into-number-refused", desc()); double x; auto s = t.read_column(fits::narrow, name, x); check(!s.is_good(), "string-into-number-refused"); }
    void other(fits::input_table& t, Rng& rng, const S& when, std::false_type) { refused_read<vec<D,S>>(t, name, "number-into-string-refused", desc());
        const char code = F<T>::code; vec<D,double> d; t.read_column(name, d); bool ok = d.dims == v.dims; for (size_t k = 0; ok && k < v.size(); ++k) ok = eqv(double(d.safe[k]), double(T(v.safe[k]))); check(ok, "wider-read-" + when, desc()); ev("wider");
        if (code == 'D') refused_read<vec<D,float>>(t, name, "narrowing-refused", desc()); if (code == 'D' || code == 'E') refused_read<vec<D,int_t>>(t, name, "float-into-int-refused", desc()); if (code == 'K') refused_read<vec<D,short>>(t, name, "narrowing-refused", desc()); if (code == 'K' || code == 'I') refused_read<vec<D,char>>(t, name, "narrowing-refused", desc());
        if (code == 'I' || code == 'S') { vec<D,int_t> i; t.read_column(name, i); ok = i.dims == v.dims; for (size_t k = 0; ok && k < v.size(); ++k) ok = i.safe[k] == int_t(T(v.safe[k])); check(ok, "wider-read-" + when, desc()); }
        if (code == 'K') { bool fit = true; for (auto x : v) if (double(x) < -32768 || double(x) > 32767) fit = false; if (fit) { vec<D,short> i; auto s = t.read_column(fits::narrow, name, i); check(s.is_good(), "narrow-read-" + when, s.reason()); ok = i.dims == v.dims; for (size_t k = 0; ok && k < v.size(); ++k) ok = int_t(i.safe[k]) == int_t(T(v.safe[k])); check(ok, "narrow-read-" + when, desc()); ev("narrowed"); } }
        // a float reads the nearest value of a double
        if (code == 'D') { bool fit = true; for (auto x : v) if (std::isfinite(x) && std::fabs(x) > 1e37) fit = false; if (fit) { vec<D,float> i; auto s = t.read_column(fits::narrow, name, i); check(s.is_good(), "narrow-read-" + when, s.reason()); ok = i.dims == v.dims; for (size_t k = 0; ok && k < v.size(); ++k) if (std::isfinite(v.safe[k])) ok = i.safe[k] == float(v.safe[k]) || std::fabs(v.safe[k]) < 1e-37; check(ok, "narrow-read-" + when, desc()); ev("narrowed"); } } }
    void read(fits::input_table& t, Rng& rng, const S& when) override {
        vec<D,T> r; auto s = t.read_column(rc(rng, name), r); if (!check(s.is_good(), "column-read-" + when, s.reason() + desc())) return; check(eq(r), "column-values-" + when, desc() + " got " + sd(r.dims) + svv(r)); ev("column-read");
        r = rvec<D,T>(rng, rdims<D>(rng, 3, false)); t.read_columns(name, r); check(eq(r), "column-values-into-used-" + when, desc());
        other(t, rng, when, is_str<T>());
        // number of dimensions
        vec<D+1,T> p; { auto q = t.read_column(name, p); bool am = is_str<T>::value && D == 1 && 0; check(q.is_good() == am, "missing-dimension-refused", desc()); } auto q = t.read_column(fits::dim_promote, name, p); V<size_t> e = shape(); e.insert(e.begin(), 1); check(q.is_good() && vd(p.dims) == e && eqvec(flat(p), tr(flat(v))), "dim-promote-" + when, desc() + sd(p.dims)); ev("promoted");
        if (D > 1 && !is_str<T>::value) { vec<1,T> f; { auto q2 = t.read_column(name, f); check(!q2.is_good(), "extra-dimension-refused", desc()); } auto q3 = t.read_column(fits::flatten, name, f); check(q3.is_good() && f.size() == v.size() && eqvec(flat(f), tr(flat(v))), "flatten-" + when, desc()); ev("flattened"); }
        if (v.size() > 1 && !is_str<T>::value) { T x = T(); auto q4 = t.read_column(name, x); check(!q4.is_good(), "vector-into-scalar-refused", desc()); }
        fits::column_info ci; if (check(t.read_column_info(rc(rng, name), ci), "column-info-" + when, desc())) { check(ci.name == up(name), "info-name-" + when, ci.name); auto ty = ci.type; char c = F<T>::code; using I = fits::column_info; check(c == 'A' ? ty == I::string : c == 'B' || c == 'S' ? (ty == I::boolean || ty == I::byte) : c == 'I' || c == 'K' ? ty == I::integer : c == 'E' ? ty == I::float_simple : ty == I::float_double, "info-type-" + when, desc() + fmt(" %d", (int)ty)); if (!row) check(flat(ci.dims) == shape(), "info-dims-" + when, desc() + svv(ci.dims)); }
    }
};
template<typename T> struct SCol : Col {
    T v; SCol(Rng& rng) { v = F<T>::rnd(rng); } size_t rows() const override { return 1; } V<size_t> shape() const override { return {1}; } S desc() const override { return " " + name + fmt(":%s", F<T>::name()); } void write(fits::output_table& t) override { t.write_column(name, v); } void update(fits::table& t) override { t.update_column(name, v); } char info() const override { return F<T>::code; }
    static S E(const S& s) { return s; } template<typename U> static S E(const U& x) { return Enc<U>::enc(x); }
    void disk(const TCol& c, size_t nrow, const S& when) override { check(c.name == up(name), "column-name-" + when, c.name); char code = F<T>::code == 'S' ? 'B' : F<T>::code; S e = E(v); check(c.code == code && (code == 'A' ? rtrim(c.bytes) == rtrim(e) : c.bytes == e), "scalar-bytes-" + when, desc()); }
    static S tr(const S& s) { return trim2(s); } template<typename U> static U tr(const U& x) { return x; }
    void read(fits::input_table& t, Rng& rng, const S& when) override { T x = F<T>::rnd(rng); auto s = t.read_column(rc(rng, name), x); check(s.is_good() && eqv(x, T(tr(v))), "scalar-read-" + when, desc() + s.reason()); ev("scalar-read"); if (!is_str<T>::value) { vec<1,T> r; t.read_column(name, r); check(r.size() == 1 && eqv(T(r.safe[0]), T(v)), "scalar-as-vector-" + when, desc()); } }
};
template<size_t D> Col* vcol(Rng& rng, bool row, size_t nrow) { switch (rng.i(0, 7)) { case 0: return new VCol<D,bool>(rng, row, nrow); case 1: return new VCol<D,char>(rng, row, nrow); case 2: return new VCol<D,short>(rng, row, nrow); case 3: return new VCol<D,int_t>(rng, row, nrow); case 4: return new VCol<D,uint_t>(rng, row, nrow); case 5: return new VCol<D,float>(rng, row, nrow); case 6: return new VCol<D,double>(rng, row, nrow); default: return new VCol<D,S>(rng, row, nrow); } }
static Col* scol(Rng& rng) { switch (rng.i(0, 7)) { case 0: return new SCol<bool>(rng); case 1: return new SCol<char>(rng); case 2: return new SCol<short>(rng); case 3: return new SCol<int_t>(rng); case 4: return new SCol<uint_t>(rng); case 5: return new SCol<float>(rng); case 6: return new SCol<double>(rng); default: return new SCol<S>(rng); } }
using CP = std::unique_ptr<Col>;
static CP rcol(Rng& rng, const S& name, bool row, size_t nrow) { Col* c; if (!row && rng.b(0.25)) c = scol(rng); else { int k = rng.i(0, 4); c = k < 3 ? vcol<1>(rng, row, nrow) : k == 3 ? vcol<2>(rng, row, nrow) : vcol<3>(rng, row, nrow); } c->name = name; return CP(c); }
static S cname(Rng& rng, int k) { return rc(rng, rng.pick<S>({"C", "FLUX_", "A.B", "Z"}) + std::to_string(k)); }
static void verify_disk(const S& f, V<CP>& m, const S& when, const S& log) { vh::note(log); V<Hdu> h; S e = decode(slurp(f), h); if (!check(e.empty(), "well-formed-" + when, e)) return; if (!check(h.size() == 2 && h[0].empty() && h[1].table(), "hdu-structure-" + when, fmt("%zu", h.size()))) return; V<TCol> cs; size_t nrow; e = decode_table(h[1], cs, nrow); if (!check(e.empty(), "table-well-formed-" + when, e)) return; if (!check(cs.size() == m.size(), "column-number-" + when, fmt("%zu expected %zu", cs.size(), m.size()))) return; for (size_t k = 0; k < m.size(); ++k) m[k]->disk(cs[k], nrow, when); ev("decoded"); }
static void verify_read(fits::input_table& t, V<CP>& m, Rng& rng, const S& when, const S& log) { vh::note(log); for (auto& c : m) c->read(t, rng, when); auto ci = t.read_columns_info(); check(ci.size() == m.size(), "columns-info-" + when, fmt("%zu", ci.size())); double x = 3; { auto s = t.read_column("missing", x); check(!s.is_good() && x == 3, "missing-column-refused"); } auto s = t.read_column(fits::missing, "missing", x); check(s.is_good() && x == 3, "missing-column-allowed"); }

// a table written at once, in both orientations
SCEN(write_tables, 500, 10000) {
    bool row = rng.b(0.4); size_t nrow = rng.u(2, 9), n = rng.u(1, 6); V<CP> m; S log = row ? "row-oriented" : "column-oriented"; for (size_t k = 0; k < n; ++k) { m.push_back(rcol(rng, cname(rng, k), row, nrow)); log += m.back()->desc(); } vh::note(log); S f = newfile();
    { fits::output_table t(f); if (row) t.set_format(fits::table_format::row_oriented); for (auto& c : m) c->write(t); ev("written", n); if (row) { vec1d w(nrow + 1 + rng.u(0, 2)); auto o = guarded([&]{ t.write_column("bad", w); }); check(o.refused(), "row-number-mismatch-refused", o.str()); ev("row-mismatch"); } if (rng.b()) t.close(); } verify_disk(f, m, "written", log); fits::input_table t(f); check(t.hdu_count() == 2 && t.current_hdu() == 1 && t.hdu_type() == fits::table_hdu, "opened-at-table"); verify_read(t, m, rng, "written", log); sig(log.substr(0, 60));
}
// histories of changes
SCEN(histories, 350, 8000) {
    bool row = rng.b(0.4); size_t nrow = rng.u(2, 6); V<CP> m; S f = newfile(), log = row ? "row-oriented" : "column-oriented"; std::unique_ptr<fits::table> t(new fits::table(f)); if (row) t->set_format(fits::table_format::row_oriented); size_t steps = rng.u(3, 18); int serial = 0;
    for (size_t s = 0; s < steps; ++s) { vh::note(log.substr(log.size() > 3500 ? log.size() - 3500 : 0));
        switch (rng.i(0, 7)) {
        case 0: case 1: { CP c = rcol(rng, cname(rng, serial++), row, nrow); log += " write" + c->desc(); c->write(*t); m.push_back(std::move(c)); ev("written"); break; }
        case 2: case 3: { if (m.empty()) break; size_t k = rng.u(0, m.size()-1); if (m.size() == 1 && row) { nrow = rng.u(2, 6); ev("row-number-changed"); } CP c = rcol(rng, m[k]->name, row, nrow); c->name = rc(rng, up(c->name)); log += " update" + c->desc(); c->update(*t); m.erase(m.begin() + k); m.push_back(std::move(c)); ev("updated"); break; }
        case 4: { if (m.empty() || rng.b(0.2)) { t->remove_column("nothing"); break; } size_t k = rng.u(0, m.size()-1); if (m.size() == 1) break; log += " remove " + m[k]->name; if (rng.b()) t->remove_column(rc(rng, up(m[k]->name))); else t->remove_columns("nothing", m[k]->name); m.erase(m.begin() + k); ev("removed"); break; }
        case 5: { CP c = rcol(rng, cname(rng, serial++), row, nrow); log += " update-new" + c->desc(); c->update(*t); m.push_back(std::move(c)); ev("appended"); break; }
        case 6: { if (m.empty()) break; t.reset(); log += " reopen"; verify_disk(f, m, "after-close", log); t.reset(new fits::table(f)); ev("reopened"); break; }
        default: { if (m.empty()) break; log += " read"; verify_read(*t, m, rng, "in-history", log); if (row) { vec1d w(nrow + 1); if (m.size()) { auto o = guarded([&]{ t->write_column("bad", w); }); check(o.refused(), "row-number-mismatch-refused", o.str()); } } } }
    }
    if (m.empty()) return; { fits::table mv(std::move(*t)); verify_read(mv, m, rng, "moved", log); CP c = rcol(rng, "LAST", row, nrow); c->write(mv); m.push_back(std::move(c)); } t.reset(); verify_disk(f, m, "at-end", log); fits::input_table in(f); verify_read(in, m, rng, "at-end", log); sig(fmt("%d %zu", row, m.size()) + log.substr(16, 40));
}
// elements and slices of a column
template<size_t D, typename T> vec<D,T> sub_of(const vec<3,T>& v, size_t a, size_t b);
SCEN(elements, 600, 12000) {
    bool row = rng.b(0.4); size_t nrow = rng.u(2, 5); auto d = rdims<3>(rng, 4, false); d[0] = row ? nrow : d[0]; if (row) d[2] = rng.u(2, 4); vec3d v = rvec<3,double>(rng, d); vec1d w = rvec<1,double>(rng, std::array<size_t,1>{{nrow}}); vec1s s = rvec<1,S>(rng, std::array<size_t,1>{{nrow}}); size_t sl = 1; for (auto& x : s) sl = std::max(sl, x.size()); S f = newfile(); vh::note(fmt("row %d ", row) + sd(d)); bool al = rng.b(0.4);
    fits::table t(f); if (row) t.set_format(fits::table_format::row_oriented); if (rng.b()) t.write_column("before", w); if (al) { t.allocate_column<double>("cube", d[0], d[1], d[2]); v *= 0; for (size_t k = 0; k < v.size(); ++k) v.safe[k] = 0; ev("allocated"); } else t.write_column("cube", v); t.write_columns("w", w, "s", s);
    for (int q = 0; q < 10; ++q) {
        bool out = rng.b(0.15); size_t i = rng.u(0, d[0]-1), j = rng.u(0, d[1]-1), k = rng.u(0, d[2]-1); int ax = rng.i(0, 2); if (out) { if (ax == 0) i = d[0] + rng.u(0, 2); else if (ax == 1) j = d[1] + rng.u(0, 2); else k = d[2] + rng.u(0, 2); } double x = 0; Outcome o; S de = fmt("(%zu,%zu,%zu)", i, j, k); bool wr = rng.b(0.4); vh::note(fmt("row %d ", row) + sd(d) + de + fmt(" write %d", wr));
        int w4 = rng.i(0, 4); if (w4 == 0) { if (wr) { x = F<double>::rnd(rng); o = guarded([&]{ t.update_elements("cube", x, fits::at(i, j, k)); }); if (!out) v.safe(i, j, k) = x; } else { o = guarded([&]{ t.read_elements("cube", x, fits::at(i, j, k)); }); if (!out) check(o.ok() && eqv(x, (double)v.safe(i, j, k)), "read-element", de + o.str()); } }
        else if (w4 == 1) { out = out && ax < 2; vec1d r; if (wr) { r = rvec<1,double>(rng, std::array<size_t,1>{{d[2]}}); o = guarded([&]{ t.update_elements("cube", r, fits::at(i, j, _)); }); if (!out) for (size_t q2 = 0; q2 < d[2]; ++q2) v.safe(i, j, q2) = r.safe[q2]; } else { o = guarded([&]{ t.read_elements("cube", r, fits::at(i, j, _)); }); if (!out) { bool ok = o.ok() && r.size() == d[2]; for (size_t q2 = 0; ok && q2 < d[2]; ++q2) ok = eqv((double)r.safe[q2], (double)v.safe(i, j, q2)); check(ok, "read-line", de + o.str()); } } }
        else if (w4 == 2) { out = out && ax == 0; vec2d r; if (wr) { r = rvec<2,double>(rng, std::array<size_t,2>{{d[1], d[2]}}); o = guarded([&]{ t.update_elements("cube", r, fits::at(i, _, _)); }); if (!out) for (size_t q1 = 0; q1 < d[1]; ++q1) for (size_t q2 = 0; q2 < d[2]; ++q2) v.safe(i, q1, q2) = r.safe(q1, q2); } else { o = guarded([&]{ t.read_elements("cube", r, fits::at(i, _, _)); }); if (!out) { bool ok = o.ok() && r.dims[0] == d[1] && r.dims[1] == d[2]; for (size_t q1 = 0; ok && q1 < d[1]; ++q1) for (size_t q2 = 0; q2 < d[2]; ++q2) ok = ok && eqv((double)r.safe(q1, q2), (double)v.safe(i, q1, q2)); check(ok, "read-plane", de + o.str()); } } }
        else if (w4 == 3) { out = false; vec3d r; t.read_column("cube", r); check(r.dims == v.dims && eqvec(flat(r), flat(v)), "read-all"); vec2d b; auto o2 = guarded([&]{ t.read_elements("cube", b, fits::at(0u, 0u, _)); }); check(o2.refused(), "wrong-rank-refused", o2.str()); o2 = guarded([&]{ t.read_elements("cube", x, fits::at(0u, 0u)); }); check(o2.refused(), "too-few-indices-refused", o2.str()); vec1d c(d[2] + 1); o2 = guarded([&]{ t.update_elements("cube", c, fits::at(0u, 0u, _)); }); check(o2.refused(), "wrong-size-refused", o2.str()); o2 = guarded([&]{ int_t y; t.read_elements("cube", y, fits::at(0u, 0u, 0u)); }); check(o2.refused(), "wrong-type-refused", o2.str()); o2 = guarded([&]{ t.read_elements("none", x, fits::at(0u, 0u, 0u)); }); check(o2.refused(), "no-such-column-refused", o2.str()); ev("refused"); }
        else if (!row) { out = false; size_t z = rng.u(0, nrow - 1); S y; if (wr) { y = word(rng, sl); t.update_elements("s", y, fits::at(z)); s.safe[z] = y; ev("string-element"); } else { t.read_elements("s", y, fits::at(z)); check(y == trim2(s.safe[z]), "read-string-element", y); } }
        else out = false;
        if (out) { check(o.refused(), "element-outside-refused", de + o.str()); ev("outside"); } else ev(wr ? "element-written" : "element-read");
    }
    vec3d r; vec1d rw; vec1s rs; t.read_columns("cube", r, "w", rw, "s", rs); bool ok = eqvec(flat(r), flat(v)) && eqvec(flat(rw), flat(w)); check(ok, "columns-after-elements"); for (size_t k = 0; k < s.size(); ++k) check(rs.size() == s.size() && rs.safe[k] == trim2(s.safe[k]), "strings-after-elements"); t.close(); r.clear(); fits::read_table(f, "cube", r, "w", rw); check(eqvec(flat(r), flat(v)) && eqvec(flat(rw), flat(w)), "elements-on-disk"); sig(fmt("%d %d", row, al) + sd(d));
}
// lines of strings and views in columns, columns named in the macro
SCEN(named_and_lines, 300, 5000) {
    S f = newfile(); auto d = rdims<2>(rng, 4, false); d[0] = std::max<size_t>(2, d[0]); d[1] = std::max<size_t>(2, d[1]); vec2s s = rvec<2,S>(rng, d); size_t sl = 1; for (auto& x : s) sl = std::max(sl, x.size()); vec2d m = rvec<2,double>(rng, d); vec2b fl(d); for (size_t k = 0; k < fl.size(); ++k) fl.safe[k] = rng.b(); vec1d flux = rvec<1,double>(rng, rdims<1>(rng, 6, false)), other = rvec<1,double>(rng, rdims<1>(rng, 6, false)); vh::note(sd(d));
    { fits::output_table ot(f); ot.write_columns(ftable(vif::name(flux, "renamed"), other)); ot.write_columns("s", s, "m", m, "fl", fl); } V<S> es = flat(s); for (auto& x : es) x = trim2(x); auto em = flat(m); V<int> ef; for (size_t k = 0; k < fl.size(); ++k) ef.push_back(fl.safe[k]); auto ci = fits::read_table_columns(f, 1); V<S> nm; for (auto& c : ci) nm.push_back(c.name); check(nm == V<S>{"RENAMED", "OTHER", "S", "M", "FL"}, "named-column", sv(nm));
    { fits::table t(f); size_t n = rng.u(1, 6); for (size_t q = 0; q < n; ++q) { size_t i = rng.u(0, d[0]-1); V<size_t> pm(d[1]); for (size_t k = 0; k < d[1]; ++k) pm[k] = rng.u(0, d[1]-1); vec1u ids; for (auto x : pm) ids.push_back(x); switch (rng.i(0, 4)) {
        case 0: { vec1s l; for (size_t k = 0; k < d[1]; ++k) l.push_back(word(rng, sl)); auto o = guarded([&]{ t.update_elements("s", l, fits::at(i, _)); }); check(o.ok(), "strings-line", o.str()); for (size_t k = 0; k < d[1]; ++k) es[i*d[1]+k] = trim2(l.safe[k]); ev("strings-line"); break; }
        case 1: { vec1s l; for (size_t k = 0; k < d[1]; ++k) l.push_back(word(rng, sl)); t.update_elements("s", l[ids], fits::at(i, _)); for (size_t k = 0; k < d[1]; ++k) es[i*d[1]+k] = trim2(l.safe[pm[k]]); break; }
        case 2: { vec1d l = rvec<1,double>(rng, std::array<size_t,1>{{d[1]}}); t.update_elements("m", l[ids], fits::at(i, _)); for (size_t k = 0; k < d[1]; ++k) em[i*d[1]+k] = l.safe[pm[k]]; ev("view-line"); break; }
        case 3: { vec1b l(d[1]); for (size_t k = 0; k < d[1]; ++k) l.safe[k] = rng.b(); t.update_elements("fl", l, fits::at(i, _)); for (size_t k = 0; k < d[1]; ++k) ef[i*d[1]+k] = l.safe[k]; break; }
        default: { vec1d u = rvec<1,double>(rng, flux.dims); t.update_columns(ftable(vif::name(u, "renamed"))); flux = u; ev("named-update"); } } } }
    vec2s rs; vec2d rm; vec2b rf; vec1d a, b; fits::read_table(f, ftable(vif::name(a, "renamed"), vif::name(b, "Other"), vif::name(rm, "m"))); fits::read_table(f, "s", rs, "fl", rf); check(eqvec(flat(a), flat(flux)) && eqvec(flat(b), flat(other)), "named-read"); check(rm.dims == m.dims && eqvec(flat(rm), em), "lines-of-views", svv(rm) + " expected " + sv(em)); check(rs.dims == s.dims && flat(rs) == es, "lines-of-strings", svv(rs) + " expected " + sv(es)); bool ok = rf.dims == fl.dims; for (size_t k = 0; ok && k < ef.size(); ++k) ok = rf.data[k] == ef[k]; check(ok, "lines-of-booleans"); ev("named"); sig(sd(d));
}
// macros and free functions
SCEN(free_functions, 200, 3000) {
    S f = newfile(); vec1d flux = rvec<1,double>(rng, rdims<1>(rng, 6, false)); vec1u id = rvec<1,uint_t>(rng, flux.dims); vec1s name = rvec<1,S>(rng, flux.dims); int w = rng.i(0, 2); if (w == 0) fits::write_table(f, ftable(flux, id, name)); else if (w == 1) fits::write_table(f, "flux", flux, "id", id, "name", name); else { fits::write_table(f, "id", id, "name", name); fits::update_table(f, "flux", flux); }
    auto f0 = flat(flux); auto i0 = flat(id); auto n0 = flat(name); flux.clear(); id.clear(); name.clear(); if (rng.b()) fits::read_table(f, ftable(flux, id, name)); else { fits::read_table(f, "name", name, "FLUX", flux, "Id", id); } check(eqvec(flat(flux), f0) && eqvec(flat(id), i0), "read_table"); for (size_t k = 0; k < n0.size(); ++k) check(name.size() == n0.size() && name[k] == trim2(n0[k]), "read_table-strings"); vec1d nope = {5.0}; fits::read_table_loose(f, "flux", flux, "nope", nope); check(nope.size() == 1 && nope[0] == 5.0 && eqvec(flat(flux), f0), "read_table_loose"); S f2 = st().scratch + "/refused-" + f.substr(f.rfind('/') + 1); spit(f2, slurp(f)); auto o = guarded([&]{ fits::read_table(f2, "nope", nope); }); ::unlink(f2.c_str()); check(o.refused(), "missing-column-refused", o.str()); auto ci = fits::read_table_columns(f); check(ci.size() == 3, "read_table_columns"); vec1f up = rvec<1,float>(rng, rdims<1>(rng, 6, false)); auto u0 = flat(up); fits::update_table(f, ftable(up)); up.clear(); fits::read_table(f, "flux", flux, "up", up); check(eqvec(flat(up), u0) && eqvec(flat(flux), f0), "update_table"); ev("free"); sig(fmt("%d %zu", w, f0.size())); vec1u sel; for (size_t k = 0; k < i0.size(); k += 2) sel.push_back(k); if (sel.size()) { S g = st().scratch + "/view.fits"; ::unlink(g.c_str()); { fits::output_table ot(g); ot.write_column("v", flux[sel]); ot.write_column("n", name[sel]); } vec1d fv; vec1s nv; fits::read_table(g, "v", fv, "n", nv); bool ok = fv.size() == sel.size() && nv.size() == sel.size(); for (size_t k = 0; ok && k < sel.size(); ++k) ok = eqv((double)fv[k], f0[sel[k]]) && nv[k] == trim2(n0[sel[k]]); check(ok, "view-written"); ev("view"); }
}
// tables made by other programs
SCEN(foreign_tables, 800, 16000) {
    size_t nrow = rng.u(2, 8), nc = rng.u(1, 6); bool ascii = rng.b(0.2); S head, f = newfile(); V<S> rows(nrow); S log = fmt("%s %zu rows", ascii ? "ASCII" : "binary", nrow); struct FC { char t; size_t rep; double zero, scale; bool null; long nv; V<double> x; V<S> s; size_t w; }; V<FC> cs; size_t width = 0;
    for (size_t k = 0; k < nc; ++k) { FC c; c.zero = 0; c.scale = 1; c.null = false; c.nv = 0; S n = std::to_string(k+1); c.rep = rng.b(0.7) ? 1 : rng.u(2, 4); if (ascii) { c.rep = 1; c.t = rng.pick<char>({'I', 'E', 'A'}); c.w = c.t == 'A' ? rng.u(1, 8) : 16; head += cd("TTYPE" + n, "'COL" + n + "'") + cd("TFORM" + n, fmt("'%c%zu%s'", c.t, c.w, c.t == 'E' ? ".8" : "")) + cd("TBCOL" + n, width + 1); for (size_t r = 0; r < nrow; ++r) { S cell; if (c.t == 'A') { S s = word(rng, c.w); c.s.push_back(s); cell = s; cell.resize(c.w, ' '); } else if (c.t == 'I') { long x = rng.i(-100000, 100000); c.x.push_back(x); cell = fmt("%16ld", x); } else { double x = atof(fmt("%.8E", rng.gauss()*100).c_str()); c.x.push_back(x); cell = fmt("%16.8E", x); } rows[r] += cell + " "; } width += c.w + 1; }
        else { c.t = rng.pick<char>({'L', 'B', 'I', 'J', 'K', 'E', 'D', 'A'}); if (c.t == 'A') { c.w = rng.u(1, 7); if (c.rep > 1) { head += cd("TFORM" + n, fmt("'%zuA'", c.w*c.rep)) + cd("TDIM" + n, fmt("'(%zu,%zu)'", c.w, c.rep)); } else head += cd("TFORM" + n, fmt("'%zuA'", c.w)); } else { c.w = csize(c.t); head += cd("TFORM" + n, c.rep == 1 && rng.b() ? fmt("'%c'", c.t) : fmt("'%zu%c'", c.rep, c.t)); } head += cd("TTYPE" + n, "'col" + n + "'"); bool integer = c.t == 'B' || c.t == 'I' || c.t == 'J' || c.t == 'K'; if (integer && c.t != 'K' && rng.b(0.3)) { c.null = true; c.nv = rng.i(0, 3); head += cd("TNULL" + n, c.nv); } if (integer && rng.b(0.2)) { c.scale = rng.pick<double>({0.5, 2, 4}); c.zero = rng.pick<double>({0, 10, -2.5}); head += cd("TSCAL" + n, fmt("%.6E", c.scale)) + cd("TZERO" + n, fmt("%.6E", c.zero)); }
            for (size_t r = 0; r < nrow; ++r) for (size_t q = 0; q < c.rep; ++q) { S b; switch (c.t) { case 'L': { bool x = rng.b(); b = x ? "T" : "F"; c.x.push_back(x); break; } case 'B': { int x = rng.b(0.5) ? rng.i(0, 3) : rng.i(0, 255); b = S(1, char(x)); c.x.push_back(x); break; } case 'I': { short x = rng.b(0.5) ? rng.i(0, 3) : F<short>::rnd(rng); be(x, b); c.x.push_back(x); break; } case 'J': { int x = rng.b(0.5) ? rng.i(0, 3) : rng.b(0.2) ? (int)rng.next() : rng.i(-5000, 5000); be(x, b); c.x.push_back(x); break; } case 'K': { int64_t x = rng.i(-(1LL << 50), 1LL << 50); be(x, b); c.x.push_back(x); break; } case 'E': { float x = F<float>::rnd(rng); be(x, b); c.x.push_back(x); break; } case 'D': { double x = F<double>::rnd(rng); be(x, b); c.x.push_back(x); break; } default: { S s = word(rng, c.w); c.s.push_back(s); b = s; b.resize(c.w, rng.b() ? ' ' : '\0'); } } rows[r] += b; } width += c.w*c.rep; }
        log += fmt(" %zu%c%s", c.rep, c.t, c.null ? "null" : "") + (c.scale != 1 ? "scaled" : ""); cs.push_back(c); }
    S h = cd("XTENSION", ascii ? "'TABLE   '" : "'BINTABLE'") + cd("BITPIX", 8L) + cd("NAXIS", 2L) + cd("NAXIS1", width) + cd("NAXIS2", nrow) + cd("PCOUNT", 0L) + cd("GCOUNT", 1L) + cd("TFIELDS", nc) + head; S e = "END"; e.resize(80, ' '); S data; for (auto& r : rows) data += r; spit(f, header_image(8, {}, true, "") + block(h + e, ' ') + block(data, ascii ? ' ' : '\0')); vh::note(log);
    fits::input_table t(f); for (size_t k = 0; k < nc; ++k) { auto& c = cs[k]; S n = fmt("col%zu", k+1); V<double> ex; for (double x : c.x) { double y = c.zero + c.scale*x; if (c.null && x == c.nv) y = dnan; ex.push_back(y); } S d = log + " column " + n;
        if (c.t == 'A') { if (c.rep == 1) { vec1s r; auto s = t.read_column(n, r); bool ok = s.is_good() && r.size() == nrow; for (size_t q = 0; ok && q < nrow; ++q) ok = r[q] == trim2(c.s[q]); check(ok, "foreign-strings", d + s.reason() + svv(r)); } else { vec2s r; auto s = t.read_column(n, r); bool ok = s.is_good() && r.dims[0] == nrow && r.dims[1] == c.rep; for (size_t q = 0; ok && q < c.s.size(); ++q) ok = r.safe[q] == trim2(c.s[q]); check(ok, "foreign-strings-2d", d + s.reason()); } ev("foreign-string"); continue; }
        if (c.t == 'L') { if (c.rep == 1) { vec1b r; auto s = t.read_column(n, r); bool ok = s.is_good() && r.size() == nrow; for (size_t q = 0; ok && q < nrow; ++q) ok = r[q] == (c.x[q] != 0); check(ok, "foreign-logical", d + s.reason()); } else { vec2b r; auto s = t.read_column(n, r); bool ok = s.is_good() && r.dims[0] == nrow && r.dims[1] == c.rep; for (size_t q = 0; ok && q < c.x.size(); ++q) ok = r.safe[q] == (c.x[q] != 0); check(ok, "foreign-logical-2d", d + s.reason()); } ev("foreign-logical"); continue; }
        if (c.t == 'B' && !c.null && c.scale == 1 && c.zero == 0) { bool ok; S why; if (c.rep == 1) { vec1b r; auto s = t.read_column(n, r); ok = s.is_good() && r.size() == nrow; why = s.reason(); for (size_t q = 0; ok && q < nrow; ++q) ok = (r.data[q] == 0 || r.data[q] == 1) && bool(r[q]) == (c.x[q] != 0); size_t z = rng.u(0, nrow-1); unsigned char raw; bool b = false; t.read_elements(n, b, fits::at(z, 0u)); memcpy(&raw, &b, 1); ok = ok && raw == (c.x[z] != 0); } else { vec2b r; auto s = t.read_column(n, r); ok = s.is_good() && r.dims[0] == nrow && r.dims[1] == c.rep; why = s.reason(); for (size_t q = 0; ok && q < c.x.size(); ++q) ok = (r.data[q] == 0 || r.data[q] == 1) && bool(r.safe[q]) == (c.x[q] != 0); size_t z = rng.u(0, nrow-1); vec1b l; t.read_elements(n, l, fits::at(z, _)); ok = ok && l.size() == c.rep; for (size_t q = 0; ok && q < c.rep; ++q) ok = l.data[q] == (c.x[z*c.rep+q] != 0); } check(ok, "foreign-bytes-as-booleans", d + why); ev("byte-boolean"); }
        if (c.rep == 1) { vec1d r; auto s = t.read_column(n, r); bool okd = s.is_good() && r.size() == ex.size(); for (size_t q = 0; okd && q < ex.size(); ++q) okd = eqv((double)r[q], ex[q]) || (ascii && close((double)r[q], ex[q], 1e-14)); check(okd, "foreign-column", d + s.reason() + svv(r) + " expected " + sv(ex)); if (!ascii && c.t != 'E' && c.t != 'D' && c.scale == 1 && c.zero == 0) { vec1i i; auto s2 = t.read_column(n, i); bool ok = s2.is_good() && i.size() == nrow; for (size_t q = 0; ok && q < nrow; ++q) ok = (c.null && c.x[q] == c.nv) || i[q] == (int_t)c.x[q]; check(ok, "foreign-integers", d + s2.reason()); } if (c.t == 'D') { vec1f r3; auto s3 = t.read_column(n, r3); check(!s3.is_good(), "foreign-narrowing-refused", d); } }
        else { vec2d r; auto s = t.read_column(n, r); check(s.is_good() && r.dims[0] == nrow && r.dims[1] == c.rep && eqvec(flat(r), ex), "foreign-column-2d", d + s.reason()); vec1d r1; { auto s2 = t.read_column(n, r1); check(!s2.is_good(), "extra-dimension-refused", d); } auto s3 = t.read_column(fits::flatten, n, r1); check(s3.is_good() && eqvec(flat(r1), ex), "foreign-flatten", d); }
        ev(c.null ? "foreign-null" : c.scale != 1 ? "foreign-scaled" : "foreign-column"); }
    if (!ascii) { auto ci = t.read_columns_info(); size_t nl = 0; for (auto& c : cs) nl += c.t == 'L'; check(ci.size() >= nc - nl && ci.size() <= nc, "foreign-info", log); for (auto& x : ci) { size_t k = atoi(x.name.substr(3).c_str()) - 1; if (k < nc && cs[k].rep > 1) check(x.dims.size() == 2 && x.dims[0] == nrow && x.dims[1] == cs[k].rep, "foreign-info-dims", log + svv(x.dims)); } } sig(log.substr(0, 50));
}
#endif

#if PART == 2
// ------------------------------------------------------------ keywords and headers
struct KV { S name; int kind; S s; int_t i = 0; double d = 0; S com; };   // kind 0 string, 1 int, 2 double, 3 float, 4 bool, 5 uint
static S kname(Rng& rng, bool longer) { S s; static const S al = "ABCDEFGHIKLMOPQRSTUVWXYZ0123456789_-"; size_t n = longer ? rng.u(9, 20) : rng.u(2, 8); s += "KWXYQZ"[rng.u(0, 5)]; while (s.size() < n) s += al[rng.u(0, al.size()-1)]; if (s == "XTENSION") s = "XTENSIOZ"; return s; }
static KV rkv(Rng& rng, const S& name) { KV k; k.name = name; k.kind = rng.i(0, 5); bool hier = name.size() > 8; if (k.kind == 0) { S w = word(rng, hier ? 20 : rng.b(0.3) ? 200 : 60); while (!w.empty() && (w.back() == '&' || w.back() == ' ')) w.pop_back(); k.s = w; } if (k.kind == 1) k.i = rng.b(0.3) ? rng.i(-(1LL << 50), 1LL << 50) : rng.i(-1000, 1000); if (k.kind == 2) k.d = rng.gauss()*std::pow(10.0, rng.i(-20, 20)); if (k.kind == 3) k.d = float(rng.gauss()*std::pow(10.0, rng.i(-10, 10))); if (k.kind == 4) k.i = rng.b(); if (k.kind == 5) k.i = rng.u(0, 100000); if (!hier && rng.b(0.3)) { k.com = word(rng, 15); k.com.erase(std::remove(k.com.begin(), k.com.end(), '&'), k.com.end()); k.com = trim2(k.com); } return k; }
static S kdesc(const KV& k) { return k.name + fmt("(kind %d)=", k.kind) + (k.kind == 0 ? "'" + k.s + "'" : k.kind == 2 || k.kind == 3 ? fmt("%.17g", k.d) : std::to_string(k.i)) + (k.com.empty() ? S() : " / " + k.com); }
template<typename O> void put(O& o, const KV& k, bool add) { auto f = [&](auto v) { if (add) o.add_keyword(k.name, v, k.com); else o.write_keyword(k.name, v, k.com); }; switch (k.kind) { case 0: f(k.s); break; case 1: f(k.i); break; case 2: f(k.d); break; case 3: f(float(k.d)); break; case 4: f(bool(k.i)); break; default: f(uint_t(k.i)); } }
static size_t elen(const KV& k) { size_t n = k.s.size() + (k.com.empty() ? 0 : k.com.size() + 3); for (char c : k.s) n += c == '\''; return n; }
static bool num_ok(const KV& k, double x) { return k.kind == 2 ? close(x, k.d, 1e-14) : k.kind == 3 ? close(x, k.d, 1e-6) : x == double(k.i); }
template<typename I> void get(const I& in, Rng& rng, const KV& k, const S& when) {
    S name = k.name; if (name.size() <= 8 && rng.b(0.3)) for (auto& c : name) c = tolower(c); check(in.has_keyword(name), "has-" + when, kdesc(k)); S s = "?"; bool g = in.read_keyword(name, s); check(g, "read-" + when, kdesc(k)); if (k.kind == 0) { check(s == k.s, "string-" + when, kdesc(k) + " got '" + s + "'"); if (s.size() > 68) ev("long-string"); ev("string"); if (s.empty() || !(isdigit(s[0]) || s[0] == '-' || s[0] == '+' || s[0] == '.')) if (s != "T" && s != "F") { double x = 7; check(!in.read_keyword(name, x), "text-as-number-refused", kdesc(k)); } return; }
    double x = 7; g = in.read_keyword(name, x); check(g && num_ok(k, x), "number-" + when, kdesc(k) + fmt(" got %.17g", x)); if (k.kind == 1 || k.kind == 5) { int_t i = 7; g = in.read_keyword(name, i); check(g && i == k.i, "integer-" + when, kdesc(k) + fmt(" got %ld", (long)i)); ev("integer"); } if (k.kind == 4) { bool b = !k.i; g = in.read_keyword(name, b); check(g && b == (k.i != 0), "bool-" + when, kdesc(k)); ev("bool"); } if (k.kind == 2 || k.kind == 3) ev("real");
}
static void verify(const S& f, const V<KV>& m, const V<S>& gone, const S& when, const S& log) { V<Hdu> h; S e = decode(slurp(f), h); if (!check(e.empty(), "well-formed-" + when, e + log)) return; const Hdu& d = h.back(); for (auto& k : m) { S v = d.get(k.name); if (!check(d.has(k.name), "on-disk-" + when, kdesc(k) + log)) continue; if (k.kind == 0) check(v == k.s, "string-on-disk-" + when, kdesc(k) + " got '" + v + "'"); else check(num_ok(k, strtod(v.c_str(), nullptr)), "number-on-disk-" + when, kdesc(k) + " got " + v); } for (auto& g : gone) { bool re = false; for (auto& k : m) re = re || k.name == g; if (!re) check(!d.has(g), "removed-on-disk-" + when, g + log); } ev("decoded"); }
SCEN(histories, 600, 12000) {
    S f = newfile(), log; V<KV> m; V<S> gone; size_t steps = rng.u(3, 30); bool tab = rng.b(0.4); { if (tab) { fits::write_table(f, "a", vec1d{1, 2, 3}, "b", vec1s{"x", "yy"}); } else fits::write(f, vec2d(2, 3)); }
    std::unique_ptr<fits::image> im; std::unique_ptr<fits::table> tb; auto open = [&] { if (tab) tb.reset(new fits::table(f)); else im.reset(new fits::image(f)); }; auto shut = [&] { tb.reset(); im.reset(); }; open(); auto find = [&](const S& n) { size_t k = 0; while (k < m.size() && m[k].name != n) ++k; return k; };
    for (size_t s = 0; s < steps; ++s) { vh::note(log.substr(log.size() > 3000 ? log.size() - 3000 : 0));
        switch (rng.i(0, 6)) {
        case 0: case 1: case 2: { S n = !m.empty() && rng.b(0.5) ? m[rng.u(0, m.size()-1)].name : kname(rng, rng.b(0.2)); KV k = rkv(rng, n); log += "\n write " + kdesc(k); S nm = k.name; if (tab) put<fits::output_table>(*tb, k, false); else put<fits::output_image>(*im, k, false); size_t p = find(n); if (p < m.size()) { if (m[p].kind == 0 && m[p].s.size() > 68) ev("long-replaced"); m[p] = k; ev("replaced"); } else { m.push_back(k); ev("written"); } break; }
        case 3: { S n = kname(rng, rng.b(0.2)); if (find(n) < m.size()) break; KV k = rkv(rng, n); log += "\n add " + kdesc(k); if (tab) put<fits::output_table>(*tb, k, true); else put<fits::output_image>(*im, k, true); m.push_back(k); ev("added"); break; }
        case 4: { S n = m.empty() || rng.b(0.2) ? kname(rng, false) : m[rng.u(0, m.size()-1)].name; size_t p = find(n); log += "\n remove " + n; if (tab) tb->fits::output_table::remove_keyword(n); else im->fits::output_image::remove_keyword(n); if (p < m.size()) { m.erase(m.begin() + p); gone.push_back(n); ev("removed"); } break; }
        case 5: { if (m.empty()) break; for (auto& k : m) { if (tab) get<fits::input_table>(*tb, rng, k, "in-history"); else get<fits::input_image>(*im, rng, k, "in-history"); } S n = kname(rng, false), x = "same"; if (find(n) == m.size()) { double y = 3; bool a = tab ? tb->has_keyword(n) : im->has_keyword(n), b = tab ? tb->read_keyword(n, x) : im->read_keyword(n, x), c = tab ? tb->read_keyword(n, y) : im->read_keyword(n, y); check(!a && !b && !c && x == "same" && y == 3, "absent-keyword", n); ev("absent"); } break; }
        default: { shut(); log += "\n reopen"; verify(f, m, gone, "after-close", log); open(); ev("reopened"); } }
    }
    shut(); verify(f, m, gone, "at-end", log); if (tab) { fits::input_table in(f); for (auto& k : m) get(in, rng, k, "at-end"); vec1d a; vec1s b; in.read_columns("a", a, "b", b); check(eqvec(flat(a), V<double>{1, 2, 3}) && b.size() == 2 && b[1] == "yy", "data-untouched"); } else { fits::input_image in(f); for (auto& k : m) get(in, rng, k, "at-end"); vec2d a; in.read(a); check(eqvec(flat(a), V<double>(6, 0.0)), "data-untouched"); }
    // the header as text
    fits::header h = tab ? fits::read_header_hdu(f, 1) : fits::read_header(f); check(h.size()%80 == 0, "header-size", fmt("%zu", h.size())); for (auto& k : m) { if (k.name.size() > 8 || (k.kind == 0 && elen(k) > 60)) continue; S s; check(fits::getkey(h, k.name, s), "getkey", kdesc(k)); if (k.kind == 0) check(s == k.s, "getkey-string", kdesc(k) + " got '" + s + "'"); else { double x; check(fits::getkey(h, k.name, x) && num_ok(k, x), "getkey-number", kdesc(k)); } ev("getkey"); } { S s = "same"; check(!fits::getkey(h, "NOTTHERE", s) && s == "same", "getkey-absent"); }
    if (!tab) { S g = st().scratch + "/copy.fits"; ::unlink(g.c_str()); fits::write(g, vec1d{1, 2, 3, 4}, h); V<KV> mm; for (auto& k : m) mm.push_back(k); verify(g, mm, gone, "copied", log); fits::input_image in(g); for (auto& k : m) get(in, rng, k, "copied"); vec1d a; in.read(a); check(eqvec(flat(a), V<double>{1, 2, 3, 4}), "copy-data"); ev("copied"); }
    auto ph = fits::parse_header(h); for (auto& k : m) { if (k.name.size() > 8) continue; size_t n = 0; S v; for (auto& q : ph) if (q.key == k.name) { ++n; v = q.value; check(!q.novalue, "parsed-has-value"); } check(n == 1, "parsed-once", kdesc(k) + fmt(" %zu times", n)); if (k.kind == 0) check(v.size() >= 2 && v[0] == '\'' && rtrim(unquote(v, 0)) == k.s, "parsed-string", kdesc(k) + " got " + v); else check(num_ok(k, strtod(v.c_str(), nullptr)), "parsed-number", kdesc(k) + " got " + v); ev("parsed"); }
    fits::header h2 = fits::serialize_header(ph); check(h2.size()%80 == 0, "serialized-size"); for (auto& k : m) { if (k.name.size() > 8 || (k.kind == 0 && elen(k) > 50)) continue; S s; if (!check(fits::getkey(h2, k.name, s), "serialized", kdesc(k))) continue; if (k.kind == 0) check(s == k.s, "serialized-string", kdesc(k) + " got '" + s + "'"); else { double x; check(fits::getkey(h2, k.name, x) && num_ok(k, x), "serialized-number", kdesc(k)); } ev("serialized"); } sig(fmt("%d %zu %zu", tab, m.size(), gone.size()));
}
// setkey histories on a header in memory
SCEN(setkey, 800, 16000) {
    fits::header h; S log; bool end = rng.b(); int base = rng.i(0, 2); if (base == 1) h = cd("SIMPLE", "T") + cd("BITPIX", -64L) + cd("NAXIS", 0L) + cd("FRIEND", 12L) + cd("BEND", "'END'"); if (end) { S e = "END"; e.resize(80, ' '); h += e; } std::map<S,S> m; V<S> order; if (base == 1) { m["FRIEND"] = "12"; m["BEND"] = "END"; } size_t steps = rng.u(1, 15);
    for (size_t s = 0; s < steps; ++s) { S n = !m.empty() && rng.b(0.4) ? std::next(m.begin(), rng.u(0, m.size()-1))->first : kname(rng, rng.b(0.1)); S com = rng.b(0.3) ? trim2(word(rng, 12)) : ""; fits::header before = h; bool ok; S v; int w = rng.i(0, 3); if (w == 0) { int_t x = rng.i(-100000, 100000); v = std::to_string(x); ok = fits::setkey(h, n, x, com); } else if (w == 1) { double x = rng.gauss()*std::pow(10.0, rng.i(-10, 10)); v = fmt("%.17g", x); ok = fits::setkey(h, n, x, com); } else { S t = word(rng, rng.b(0.1) ? 90 : 30), q = "'"; for (char c : t) { q += c; if (c == '\'') q += c; } q += "'"; v = t; ok = fits::setkey(h, n, q, com); if (10 + q.size() + (com.empty() ? 0 : 3 + com.size()) > 80) { check(!ok && h == before, "setkey-too-long-refused", n); ev("too-long"); continue; } } log += "\n " + n + "=" + v + " / " + com; vh::note(log); if (n.size() > 8) { check(!ok && h == before, "setkey-long-name-refused", n); ev("long-name"); continue; } check(ok, "setkey-accepted", n + " " + v); bool isnew = !m.count(n); m[n] = v; check(h.size() == before.size() + (isnew ? 80 : 0) && h.size()%80 == 0, "setkey-size", log); if (end) check(h.size() >= 80 && rtrim(h.substr(h.size()-80)) == "END", "setkey-end-last", log); ev("setkey");
        for (auto& p : m) { S got = "?"; check(fits::getkey(h, p.first, got), "setkey-getkey", p.first + log); if (got != p.second) { double a = strtod(got.c_str(), nullptr), b = strtod(p.second.c_str(), nullptr); check(!got.empty() && close(a, b, 1e-15) && b != 0, "setkey-value", p.first + " got '" + got + "' expected '" + p.second + "'" + log); } }
        size_t n1 = 0; for (size_t q = 0; q + 80 <= h.size(); q += 80) if (rtrim(h.substr(q, 8)) == n) ++n1; check(n1 == 1, "setkey-once", n + log); }
    sig(fmt("%d %d %zu", base, end, m.size()));
}
// arbitrary text is tolerated
SCEN(garbage_headers, 1500, 40000) { S h; size_t n = rng.u(0, 400); static const S al = "AB=' /'0.E1 &END\tCONTINUE HISTORY "; int w = rng.i(0, 2); if (w == 0) for (size_t k = 0; k < n; ++k) h += al[rng.u(0, al.size()-1)]; else { size_t c = rng.u(0, 6); for (size_t k = 0; k < c; ++k) { S l = rng.pick<S>({"CONTINUE ", "CONTINUE  '", "HISTORY ", "KEY     = ", "KEY     = '", "=", "/", "'", "KEY     ='a''", "COMMENT = /", "END", "KEY     = 'abc&' / x"}) + word(rng, 70); l.resize(80, ' '); h += l; } if (rng.b(0.3)) h.resize(rng.u(0, h.size())); } vh::note(h); auto o = guarded([&]{ auto p = fits::parse_header(h); S s = fits::serialize_header(p); check(s.size()%80 == 0, "serialized-size"); }); check(o.ok(), "parse-tolerates", o.str()); S v; double d; guarded([&]{ fits::getkey(h, "KEY", v); fits::getkey(h, "KEY", d); fits::getkey(h, "", v); }); fits::header h2 = h; o = guarded([&]{ fits::setkey(h2, "KEY", 3); }); ev("garbage"); sig(h.substr(0, 12)); }
#endif

#if PART == 3
// ------------------------------------------------------------ damaged files
// every damaged file is either read or refused; objects stay usable; nothing outside memory is touched
static S good(Rng& rng, int& kind, V<double>& val) {
    kind = rng.i(0, 2); S f = newfile(); val.clear();
    if (kind == 0) { vec2d v = rvec<2,double>(rng, rdims<2>(rng, 6, false)); fits::write(f, v); val = flat(v); }
    else if (kind == 1) { vec1d v = rvec<1,double>(rng, rdims<1>(rng, 6, false)); vec1s s = rvec<1,S>(rng, v.dims); fits::write_table(f, "x", v, "s", s, "i", rvec<2,int_t>(rng, rdims<2>(rng, 3, false))); val = flat(v); }
    else { vec1d v = rvec<1,double>(rng, std::array<size_t,1>{{rng.u(2, 6)}}); vec1s s = rvec<1,S>(rng, v.dims); fits::output_table t(f); t.set_format(fits::table_format::row_oriented); t.write_columns("x", v, "s", s); val = flat(v); }
    return f;
}
static void use(const S& f, Rng& rng, int& ok, int& ref) {
    auto run = [&](const char* what, auto fn) { auto o = guarded(fn); if (o.ok()) ++ok; else { ++ref; check(o.refused(), S("damaged-") + what, o.str()); } };
    { std::unique_ptr<fits::input_image> in; run("open", [&]{ in.reset(new fits::input_image(f)); }); if (in) { size_t n = 0; run("count", [&]{ n = in->hdu_count(); }); for (size_t k = 0; k < std::min<size_t>(n, 3); ++k) { run("reach", [&]{ in->reach_hdu(k); }); run("describe", [&]{ (void)in->hdu_type(); (void)in->image_dims(); (void)in->axis_count(); }); bool small = true; guarded([&]{ double t = 1; for (auto x : in->image_dims()) t *= x; small = t < 1e6; }); if (small) { vec2d v2; vec1d v1; vec<2,short> s2; run("read-2d", [&]{ in->read(v2); }); run("read-1d", [&]{ in->read(v1); }); run("read-short", [&]{ in->read(s2); }); } S h; run("header", [&]{ h = in->read_header(); }); run("parse", [&]{ auto p = fits::parse_header(h); (void)fits::serialize_header(p); }); S kv; double d; run("keyword", [&]{ in->read_keyword("NAXIS1", d); in->read_keyword("KEY", kv); }); } } }
    { std::unique_ptr<fits::input_table> in; run("open-table", [&]{ in.reset(new fits::input_table(f)); }); if (in) { vec<1,fits::column_info> ci; run("columns-info", [&]{ ci = in->read_columns_info(); }); double t = 0; for (auto& c : ci) { double z = c.length; for (auto x : c.dims) z *= x; t += z; } if (t < 1e6) { vec1d x; vec1s s; vec2i i; vec1f xf; run("column-x", [&]{ auto q = in->read_column("x", x); (void)q.is_good(); }); run("column-s", [&]{ auto q = in->read_column("s", s); (void)q.is_good(); }); run("column-i", [&]{ auto q = in->read_column("i", i); (void)q.is_good(); }); run("column-narrow", [&]{ auto q = in->read_column(fits::permissive, "x", xf); (void)q.is_good(); }); } } }
}
#include <dirent.h>
static int open_files() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
static void after(const S& f, int ok, int ref, Rng& rng) { // the library still works on a good file
    vec1d v = rvec<1,double>(rng, rdims<1>(rng, 5, false)); S g = st().scratch + "/after.fits"; fits::write(g, v); vec1d r; fits::read(g, r); check(eqvec(flat(r), flat(v)), "works-after-damage"); static int last = 0; int now = open_files(); if (last) check(now <= last, "file-left-open", fmt("%d files open, %d before", now, last)); last = now; ::unlink(g.c_str()); ev("read-ok", ok); ev("refused", ref); }
SCEN(truncated, 500, 10000) { int kind, ok = 0, ref = 0; V<double> val; S f = good(rng, kind, val), b = slurp(f); size_t n = rng.b(0.3) ? rng.u(0, b.size()/2880)*2880 : rng.b() ? rng.u(0, b.size()) : b.size() - rng.u(0, 2880); n = std::min(n, b.size()); S d = b.substr(0, n); vh::note(fmt("kind %d cut to %zu of %zu", kind, n, b.size())); S g = newfile(); spit(g, d); use(g, rng, ok, ref); after(g, ok, ref, rng); ev("truncated"); sig(fmt("%d %zu", kind, n/2880)); }
SCEN(header_damage, 1500, 40000) {
    int kind, ok = 0, ref = 0; V<double> val; S f = good(rng, kind, val), b = slurp(f); int n = rng.i(1, 3); S log = fmt("kind %d", kind); V<size_t> cards; for (size_t p = 0; p + 80 <= b.size(); p += 80) { S k = b.substr(p, 8); if (k.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_") == S::npos && rtrim(k) != "") cards.push_back(p); }
    for (int q = 0; q < n && !cards.empty(); ++q) { size_t p = cards[rng.u(0, cards.size()-1)]; S key = rtrim(b.substr(p, 8)); int w = rng.i(0, 7); if (w == 0) { S l = S(80, ' '); b.replace(p, 80, l); log += " blank " + key; } else if (w == 1 && b[p+8] == '=') { static const V<S> vals = {"-1", "0", "1", "2", "3", "7", "-64", "16", "1000", "T", "F", "'1D'", "'0D'", "'3A'", "'5A2'", "'1PD(3)'", "'1X'", "'(2,3)'", "'()'", "'(0)'", "1E3", "'x'", "''", "NaN", "9999"}; S v = vals[rng.u(0, vals.size()-1)]; S c = cd(key, v); b.replace(p, 80, c); log += " " + key + "=" + v; } else if (w == 2) { size_t r = cards[rng.u(0, cards.size()-1)]; S t = b.substr(p, 80); b.replace(p, 80, b.substr(r, 80)); b.replace(r, 80, t); log += " swap " + key; } else if (w == 3) { size_t o = rng.u(0, 79); char c = char(rng.u(0, 255)); b[p + o] = c; log += fmt(" %s[%zu]=%d", key.c_str(), o, (int)(unsigned char)c); } else if (w == 4) { b.replace(p, 80, S("END") + S(77, ' ')); log += " END at " + key; } else if (w == 5) { S t = cd(rng.pick<S>({"BSCALE", "BZERO", "BLANK", "TNULL1", "TSCAL1", "TZERO1", "TDIM1", "TDIM2", "GROUPS", "PCOUNT", "THEAP"}), rng.pick<S>({"0", "1", "-1", "2.5", "'(1,1)'", "'(9,9)'", "T"})); b.replace(p, 80, t); log += " " + key + "->" + rtrim(t.substr(0, 30)); } else if (w == 6) { b.erase(p, 80); log += " drop " + key; } else { b.insert(p, b.substr(p, 80)); log += " twice " + key; } for (auto& c : cards) if (c + 80 > b.size()) c = 0; }
    vh::note(log); S g = newfile(); spit(g, b); use(g, rng, ok, ref); after(g, ok, ref, rng); ev("damaged"); sig(log.substr(0, 30));
}
SCEN(random_bytes, 500, 10000) { int kind, ok = 0, ref = 0; V<double> val; S f = good(rng, kind, val), b = slurp(f); size_t n = rng.u(1, 30); for (size_t k = 0; k < n; ++k) b[rng.u(0, b.size()-1)] = char(rng.u(0, 255)); vh::note(fmt("kind %d, %zu bytes", kind, n)); S g = newfile(); spit(g, b); use(g, rng, ok, ref); after(g, ok, ref, rng); ev("random"); sig(fmt("%d %zu", kind, n)); }
#endif
