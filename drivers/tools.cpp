// The command line tools, built from tools/ and run as separate programs on seeded arguments and files.
#include "model.hpp"
#include <vif.hpp>
#include <vif/astro/astro.hpp>
#include <vif/astro/wcs.hpp>
#include <vif/astro/image.hpp>
#include <fstream>
#include <sstream>
#include <cstring>
#include <set>
#include <map>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
using namespace vif;
using namespace vif::astro;
using namespace vh;
using S = std::string;
template<typename T> using V = std::vector<T>;
typedef long double L;
static const L PI = 3.141592653589793238462643383279502884L;
static L angd(double r1, double d1, double r2, double d2) {
    L a = r1*PI/180, b = d1*PI/180, c = r2*PI/180, d = d2*PI/180;
    L x1 = cosl(b)*cosl(a), y1 = cosl(b)*sinl(a), z1 = sinl(b), x2 = cosl(d)*cosl(c), y2 = cosl(d)*sinl(c), z2 = sinl(d);
    L cx = y1*z2 - z1*y2, cy = z1*x2 - x1*z2, cz = x1*y2 - y1*x2;
    return atan2l(sqrtl(cx*cx + cy*cy + cz*cz), x1*x2 + y1*y2 + z1*z2)*180/PI*3600;
}
static S slurp(const S& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const S& f, const S& t) { std::ofstream o(f, std::ios::binary); o << t; }
static V<S> lines(const S& t) { V<S> r; std::istringstream i(t); S l; while (std::getline(i, l)) r.push_back(l); return r; }
static V<S> words(const S& t) { V<S> r; std::istringstream i(t); S l; while (i >> l) r.push_back(l); return r; }
static bool isnum(const S& s, double& v) { if (s.empty()) return false; char* e; v = strtod(s.c_str(), &e); return *e == 0; }
template<typename T> vec<1,T> tov(const V<T>& v) { vec<1,T> r; for (auto& x : v) r.push_back(x); return r; }
// a scratch directory of its own for each case
static S newdir() { static S d; if (d.empty()) { d = st().scratch + "/t"; ::mkdir(d.c_str(), 0755); } if (DIR* p = ::opendir(d.c_str())) { while (dirent* e = ::readdir(p)) { S n = e->d_name; if (n != "." && n != "..") { S q = d + "/" + n; if (::unlink(q.c_str()) != 0) { if (DIR* p2 = ::opendir(q.c_str())) { while (dirent* e2 = ::readdir(p2)) ::unlink((q + "/" + e2->d_name).c_str()); ::closedir(p2); } ::rmdir(q.c_str()); } } } ::closedir(p); } return d; }
struct Run { int rc = -1; bool crash = false; S out, err; bool ok() const { return rc == 0 && !crash; } S str() const { return fmt("exit status %d%s, output '", rc, crash ? " (crash)" : "") + out.substr(0, 300) + "', messages '" + err.substr(0, 600) + "'"; } };
// runs the tool in the directory d, as a separate process
static Run tool(const S& name, const S& d, const V<S>& args, const S& input = "") {
    static const char* dir = getenv("VIF_TOOLS"); S exe = S(dir ? dir : "/tmp/tl") + "/" + name; S o = st().scratch + "/t.out", e = st().scratch + "/t.err", in = st().scratch + "/t.in"; spit(in, input); S n = name; for (auto& a : args) n += " " + a; vh::note(n);
    V<char*> av; av.push_back(const_cast<char*>(name.c_str())); for (auto& a : args) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr);
    pid_t p = ::fork(); if (p == 0) { if (::chdir(d.c_str()) != 0) ::_exit(97); int f = ::open(in.c_str(), O_RDONLY); ::dup2(f, 0); f = ::open(o.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); ::dup2(f, 1); f = ::open(e.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); ::dup2(f, 2); for (int k = 3; k < 64; ++k) ::close(k); ::alarm(50); ::execv(exe.c_str(), av.data()); ::_exit(98); }
    Run r; int s = 0; if (p < 0 || ::waitpid(p, &s, 0) != p) { fprintf(stderr, "cannot start %s\n", exe.c_str()); ::_exit(3); } if (WIFEXITED(s)) { r.rc = WEXITSTATUS(s); if (r.rc == 97 || r.rc == 98) { fprintf(stderr, "cannot start %s\n", exe.c_str()); ::_exit(3); } } else r.rc = 128 + WTERMSIG(s); r.out = slurp(o); r.err = slurp(e); r.crash = !WIFEXITED(s) || r.rc == 86; if (r.crash && WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT && r.err.find("vif::fits::exception") != S::npos) r.crash = false; /* an error of the FITS library that ends the program with its message */ ev("runs"); ev("run-" + name);
    if (r.crash) fail("crash", n + ": " + r.str()); return r;
}
static bool good(const Run& r) { return checkf(r.ok(), "success-status", [&]{ return r.str(); }); }
static bool refused(const Run& r, const S& what) { ev("refused"); return checkf(!r.crash && r.rc != 0 && !(r.out.empty() && r.err.empty()), "failure-status", [&]{ return what + ": " + r.str(); }); }
static bool exists(const S& f) { struct stat s; return ::stat(f.c_str(), &s) == 0; }
// ------------------------------------------------------------ a gnomonic world coordinate system, in long double
struct Tan { L val[2], pix[2], cd[2][2];
    void sky(L x, L y, L& ra, L& dec) const { L xi = (cd[0][0]*(x - pix[0]) + cd[0][1]*(y - pix[1]))*PI/180, eta = (cd[1][0]*(x - pix[0]) + cd[1][1]*(y - pix[1]))*PI/180, d0 = val[1]*PI/180, u = cosl(d0) - eta*sinl(d0); ra = val[0] + atan2l(xi, u)*180/PI; dec = atan2l(sinl(d0) + eta*cosl(d0), sqrtl(xi*xi + u*u))*180/PI; ra = fmodl(ra, 360); if (ra < 0) ra += 360; }
    bool img(L ra, L dec, L& x, L& y) const { L d0 = val[1]*PI/180, d = dec*PI/180, dr = (ra - val[0])*PI/180, den = sinl(d)*sinl(d0) + cosl(d)*cosl(d0)*cosl(dr); if (den <= 1e-3L) return false; L xi = cosl(d)*sinl(dr)/den*180/PI, eta = (sinl(d)*cosl(d0) - cosl(d)*sinl(d0)*cosl(dr))/den*180/PI, det = cd[0][0]*cd[1][1] - cd[0][1]*cd[1][0]; x = pix[0] + (cd[1][1]*xi - cd[0][1]*eta)/det; y = pix[1] + (cd[0][0]*eta - cd[1][0]*xi)/det; return true; }
};
static Tan maketan(Rng& r, double scale, bool square = false) { Tan t; t.val[0] = r.b(0.2) ? r.pick(V<double>{0, 359.99, 180}) : r.d(0, 360); t.val[1] = r.d(-70, 70); t.pix[0] = r.b(0.3) ? r.i(-5, 20) : r.d(-10, 30); t.pix[1] = r.b(0.3) ? r.i(-5, 20) : r.d(-10, 30); double a = r.b(0.5) ? 0 : r.d(0, 6.28), s1 = -scale, s2 = square || r.b(0.7) ? scale : scale*r.d(0.5, 2); if (square) a = 0; t.cd[0][0] = s1*std::cos(a); t.cd[0][1] = -s2*std::sin(a); t.cd[1][0] = s1*std::sin(a); t.cd[1][1] = s2*std::cos(a); for (int k = 0; k < 2; ++k) { t.val[k] = (double)t.val[k]; for (int j = 0; j < 2; ++j) { t.cd[k][j] = (double)t.cd[k][j]; if (fabsl(t.cd[k][j]) < scale*1e-12) t.cd[k][j] = 0; } } return t; }
static void card(S& h, const S& k, const S& v) { S c = k; c.resize(8, ' '); c += "= " + v; c.resize(80, ' '); h += c; }
static void card(S& h, const S& k, L v) { card(h, k, fmt("%.17Lg", v).find_first_of(".e") == S::npos ? fmt("%.1Lf", v) : fmt("%.17LG", v)); }
static void cards(S& h, const Tan& t) { for (int k = 0; k < 2; ++k) { card(h, fmt("CTYPE%d", k+1), k == 0 ? S("'RA---TAN'") : S("'DEC--TAN'")); card(h, fmt("CRVAL%d", k+1), t.val[k]); card(h, fmt("CRPIX%d", k+1), t.pix[k]); card(h, fmt("CUNIT%d", k+1), S("'deg     '")); for (int j = 0; j < 2; ++j) card(h, fmt("CD%d_%d", k+1, j+1), t.cd[k][j]); } }
static S header(const Tan& t, size_t nx, size_t ny, const S& more = "") { S h; card(h, "SIMPLE", S("T")); card(h, "BITPIX", S("-64")); card(h, "NAXIS", S("2")); card(h, "NAXIS1", fmt("%zu", nx)); card(h, "NAXIS2", fmt("%zu", ny)); cards(h, t); h += more; S e = "END"; e.resize(80, ' '); return h + e; }
// ------------------------------------------------------------ FITS files, written and read through cfitsio itself
struct Img { V<long> n; V<double> v; S hdr; bool ok = false; }; // n: FITS order
static void wimg(const S& f, const V<long>& n, const V<double>& v, const S& hdr = "", bool append = false) { fitsfile* p = nullptr; int s = 0; if (append) fits_open_file(&p, f.c_str(), READWRITE, &s); else fits_create_file(&p, ("!" + f).c_str(), &s); V<long> m = n; fits_create_img(p, DOUBLE_IMG, m.size(), m.data(), &s); for (size_t k = 0; k + 80 <= hdr.size(); k += 80) { S c = hdr.substr(k, 80); S key = c.substr(0, 8); if (key == "SIMPLE  " || key == "BITPIX  " || key.substr(0, 5) == "NAXIS" || key == "END     ") continue; fits_write_record(p, c.c_str(), &s); } if (v.size()) fits_write_img(p, TDOUBLE, 1, v.size(), const_cast<double*>(v.data()), &s); fits_close_file(p, &s); if (s) { fprintf(stderr, "harness: cannot write %s (%d)\n", f.c_str(), s); ::_exit(3); } }
static Img rimg(const S& f, int hdu = -1) { Img r; fitsfile* p = nullptr; int s = 0; if (!exists(f)) return r; fits_open_file(&p, f.c_str(), READONLY, &s); if (s) return r; if (hdu >= 0) fits_movabs_hdu(p, hdu + 1, nullptr, &s); int na = 0; fits_get_img_dim(p, &na, &s); r.n.resize(na); if (na) fits_get_img_size(p, na, r.n.data(), &s); size_t t = na ? 1 : 0; for (long k : r.n) t *= k; r.v.resize(t); int any; double nul = dnan; if (t) fits_read_img(p, TDOUBLE, 1, t, &nul, r.v.data(), &any, &s); char* h = nullptr; int nk; fits_hdr2str(p, 0, nullptr, 0, &h, &nk, &s); if (h) { r.hdr = h; free(h); } r.ok = s == 0; fits_close_file(p, &s); return r; }
static S kw(const S& hdr, const S& key) { S k = key; k.resize(8, ' '); for (size_t i = 0; i + 80 <= hdr.size(); i += 80) if (hdr.substr(i, 8) == k && hdr[i+8] == '=') { S v = hdr.substr(i + 10, 70); size_t a = v.find_first_not_of(' '); if (a == S::npos) return ""; if (v[a] == '\'') { S o; for (size_t q = a + 1; q < v.size(); ++q) { if (v[q] == '\'') { if (q + 1 < v.size() && v[q+1] == '\'') { o += '\''; ++q; continue; } break; } o += v[q]; } while (o.size() && o.back() == ' ') o.pop_back(); return o; } size_t e = v.find_first_of("/ ", a); return v.substr(a, e == S::npos ? e : e - a); } return "<none>"; }
static V<double> pixels(Rng& r, size_t n) { V<double> v(n); for (auto& x : v) x = r.b() ? r.i(-8, 8)*0.25 : r.gauss(); return v; }
static bool samep(const V<double>& a, const V<double>& b, double tol, size_t& at) { if (a.size() != b.size()) { at = npos; return false; } for (at = 0; at < a.size(); ++at) if (!((std::isnan(a[at]) && std::isnan(b[at])) || std::fabs(a[at] - b[at]) <= tol)) return false; return true; }
static S keys(Rng& r, V<S>& names) { S h; size_t n = r.u(0, 3); names.clear(); for (size_t k = 0; k < n; ++k) { S nm = fmt("KEY%zu", k); names.push_back(nm); if (r.b()) card(h, nm, (L)(r.b() ? r.i(-999, 999) : r.gauss())); else card(h, nm, S(fmt("'text%zu  '", r.u(0, 99)))); } return h; }
static bool kept(const S& before, const S& after, const V<S>& names, const S& what) { bool g = true; for (auto& n : names) g = checkf(kw(before, n) == kw(after, n), what, [&]{ return n + ": '" + kw(after, n) + "' expected '" + kw(before, n) + "'"; }) && g; if (names.size()) ev("keywords-kept"); return g; }
static vec2d tovec(const Img& i) { vec2d v(i.n[1], i.n[0]); for (size_t k = 0; k < i.v.size(); ++k) v.safe[k] = i.v[k]; return v; }
// zero-padded convolution centered on pixel (cy, cx) of the kernel
static V<double> conv(const V<double>& m, long nx, long ny, const V<double>& k, long kx, long ky, long cx, long cy) { V<double> o(m.size()); for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) { L s = 0; for (long j = 0; j < ky; ++j) for (long i = 0; i < kx; ++i) { long yy = y - (j - cy), xx = x - (i - cx); if (yy >= 0 && yy < ny && xx >= 0 && xx < nx) s += (L)k[j*kx+i]*m[yy*nx+xx]; } o[y*nx+x] = s; } return o; }
static S num(Rng& r, double v) { return r.b(0.3) ? fmt("%.17e", v) : fmt("%.17g", v); }

#if PART == 0
// ================================================================ coordinates
SCEN(sexagesimal, 40, 3000) { Rng& r = rng; S d = newdir();
    double ra = r.b(0.2) ? r.pick(V<double>{0, 359.999999999, 15, 179.99999999, 0.00001}) : r.d(0, 360), dec = r.b(0.3) ? r.pick(V<double>{0, -0.0001, -0.5, 89.9999999, -89.9999999, 59.99999999}) : r.d(-90, 90); S sr = num(r, ra), sd = num(r, dec); ra = strtod(sr.c_str(), nullptr); dec = strtod(sd.c_str(), nullptr);
    if (r.b(0.2)) { int w = r.i(0, 4); V<S> bad = {"abc", "", "12h", "1.2.3", "--4", "12:30:00"}; S b = r.pick(bad); if (w == 0) refused(tool("deg2sex", d, {b, sd}), "unreadable RA"); else if (w == 1) refused(tool("deg2sex", d, {sr, b}), "unreadable Dec"); else { V<S> b2 = {"12:30", "a:b:c", "1:2:3:4", "", "10:2x:3", "5.5"}; S q = r.pick(b2); if (w == 2) refused(tool("sex2deg", d, {q, "10:00:00"}), "unreadable RA"); else if (w == 3) refused(tool("sex2deg", d, {"10:00:00", q}), "unreadable Dec"); else { Run x = tool(r.b() ? "deg2sex" : "sex2deg", d, r.b() ? V<S>{} : V<S>{"1"}); check(!x.crash && x.out.size(), "usage", x.str()); } } return; }
    Run x = tool("deg2sex", d, {sr, sd}); if (!good(x)) return; V<S> w = words(x.out); if (!check(w.size() == 2, "deg2sex-output", x.str())) return;
    auto parse = [&](const S& t, int& sg, int& a, int& b, double& c) { sg = t[0] == '-' ? -1 : 1; char z; return sscanf(t.c_str() + (t[0] == '-' || t[0] == '+'), "%d:%d:%lf%c", &a, &b, &c, &z) == 3; };
    int g, a, b; double c; if (!checkf(parse(w[0], g, a, b, c) && g == 1 && (a < 24 || (a == 24 && b == 0 && c == 0)) && b < 60 && c < 60, "deg2sex-ra-form", [&]{ return x.str(); })) return; double ra2 = (a + b/60.0 + c/3600)*15; if (!checkf(parse(w[1], g, a, b, c) && a <= 90 && b < 60 && c < 60, "deg2sex-dec-form", [&]{ return x.str(); })) return; double de2 = g*(a + b/60.0 + c/3600);
    checkf(angd(ra, dec, ra2, de2) < 0.011, "deg2sex-position", [&]{ return sr + " " + sd + ": " + x.str(); });
    Run y = tool("sex2deg", d, {w[0], w[1]}); if (!good(y)) return; V<S> v = words(y.out); double r3, d3; if (!check(v.size() == 2 && isnum(v[0], r3) && isnum(v[1], d3), "sex2deg-output", y.str())) return; checkf(std::fabs(r3 - ra2) < 1e-8 && std::fabs(d3 - de2) < 1e-9, "sex2deg-position", [&]{ return w[0] + " " + w[1] + ": " + y.str(); }); ev("sexagesimal"); sig(fmt("%d%d%d%d", (int)(ra/40), (int)(dec/20), (int)(dec < 0), (int)std::fabs(dec) < 1));
}
SCEN(radec2pix, 40, 3000) { Rng& r = rng; S d = newdir(); double scale = std::pow(10.0, r.d(-4.5, -2)); Tan t = maketan(r, scale); long nx = r.u(1, 20), ny = r.u(1, 20); S h = header(t, nx, ny); wimg(d + "/i.fits", {nx, ny}, V<double>(nx*ny, 1.0), h);
    size_t n = r.u(1, 5); V<S> a = {"i.fits"}; V<double> ex, ey, sl; for (size_t k = 0; k < n; ++k) { L x = r.d(-50, 100), y = r.d(-50, 100), ra, dec; t.sky(x, y, ra, dec); S sa, sd; double pr, pd, prec; if (r.b(0.4)) { double hh = (double)ra/15; int h0 = (int)hh, m0 = (int)((hh - h0)*60); double s0 = ((hh - h0)*60 - m0)*60; sa = fmt("%02d:%02d:%.9f", h0, m0, s0); double ad = std::fabs((double)dec); int d0 = (int)ad, dm = (int)((ad - d0)*60); double ds = ((ad - d0)*60 - dm)*60; sd = fmt("%s%02d:%02d:%.9f", dec < 0 ? "-" : r.b() ? "+" : "", d0, dm, ds); pr = ra; pd = dec; prec = 1e-7/scale; ev("from-sexagesimal"); } else { sa = num(r, ra); sd = num(r, dec); pr = strtod(sa.c_str(), nullptr); pd = strtod(sd.c_str(), nullptr); prec = 0; } L px, py; if (!t.img(pr, pd, px, py)) return; ex.push_back(px); ey.push_back(py); sl.push_back(prec*1e-4); a.push_back(sa); a.push_back(sd); }
    if (r.b(0.25)) { int w = r.i(0, 3); if (w == 0) { a.pop_back(); if (n == 1) return; refused(tool("radec2pix", d, a), "odd number of coordinates"); } else if (w == 1) { a[1 + r.u(0, 2*n-1)] = "zzz"; refused(tool("radec2pix", d, a), "unreadable coordinate"); } else if (w == 2) { size_t k = r.u(0, n-1); a[1+2*k] = "10:20"; a[2+2*k] = "10:20:30"; refused(tool("radec2pix", d, a), "unreadable sexagesimal coordinate"); } else { a[0] = "none.fits"; refused(tool("radec2pix", d, a), "missing file"); } return; }
    Run x = tool("radec2pix", d, a); if (!good(x)) return; V<S> l = lines(x.out); if (!check(l.size() == n, "radec2pix-lines", x.str())) return; for (size_t k = 0; k < n; ++k) { V<S> w = words(l[k]); double gx, gy; if (!check(w.size() == 2 && isnum(w[0], gx) && isnum(w[1], gy), "radec2pix-line", x.str())) return; checkf(std::fabs(gx - ex[k]) < 1e-5*std::fabs(ex[k]) + 1e-6 + sl[k] && std::fabs(gy - ey[k]) < 1e-5*std::fabs(ey[k]) + 1e-6 + sl[k], "radec2pix-position", [&]{ return fmt("coordinate %zu: (%.9g, %.9g) expected (%.9g, %.9g) ", k, gx, gy, ex[k], ey[k]); }); } ev("pixels"); sig(fmt("%zu %d", n, (int)(-std::log10(scale)*2)));
}
// ================================================================ images
SCEN(imgtool, 50, 3000) { Rng& r = rng; S d = newdir(); long nx = r.u(1, 14), ny = r.u(1, 14); V<double> m = pixels(r, nx*ny); wimg(d + "/i.fits", {nx, ny}, m); S out = r.b(0.3) ? "sub/o.fits" : "o.fits"; int op = r.i(0, 2);
    if (r.b(0.2)) { int w = r.i(0, 4); Run x; if (w == 0) x = tool("imgtool", d, {"explode", "i.fits", "2", "o.fits"}); else if (w == 1) x = tool("imgtool", d, {"multiply", "i.fits", "two", "o.fits"}); else if (w == 2) x = tool("imgtool", d, {"rotate", "i.fits", "", "o.fits"}); else if (w == 3) x = tool("imgtool", d, {"multiply", "none.fits", "2", "o.fits"}); else x = tool("imgtool", d, {"convolve", "i.fits", "k.fits"}); refused(x, fmt("imgtool %d", w)); check(!exists(d + "/o.fits"), "output-of-failure", fmt("%d", w)); return; }
    if (op == 0) { long kx = 1 + 2*r.u(0, 2), ky = 1 + 2*r.u(0, 2); V<double> k(kx*ky); double t = 0; for (auto& x : k) { x = r.i(1, 16)*0.125; t += x; } bool nrm = r.b(); wimg(d + "/k.fits", {kx, ky}, k); V<S> a = {r.b(0.3) ? "Convolve" : "convolve", "i.fits", "k.fits", out}; if (nrm) a.push_back("normalize"); Run x = tool("imgtool", d, a); if (!good(x)) return; if (nrm) for (auto& q : k) q /= t; V<double> e = conv(m, nx, ny, k, kx, ky, kx/2, ky/2); Img o = rimg(d + "/" + out); size_t at; double big = 0; for (auto q : k) big += std::fabs(q); checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, e, 1e-9*(1 + big)*10, at), "convolve", [&]{ return fmt("pixel %zu of %ldx%ld, kernel %ldx%ld normalize %d: %.9g expected %.9g", at, nx, ny, kx, ky, (int)nrm, at < o.v.size() ? o.v[at] : dnan, at < e.size() ? e[at] : dnan); }); ev(nrm ? "convolved-normalized" : "convolved"); sig(fmt("c%ld%ld%ld%ld%d", nx, ny, kx, ky, (int)nrm)); }
    else if (op == 1) { S sv = num(r, r.b() ? r.i(-4, 4)*0.5 : r.gauss()); double f = strtod(sv.c_str(), nullptr); Run x = tool("imgtool", d, {"multiply", "i.fits", sv, out}); if (!good(x)) return; V<double> e = m; for (auto& q : e) q *= f; Img o = rimg(d + "/" + out); size_t at; checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, e, 0, at), "multiply", [&]{ return fmt("by %s, pixel %zu", sv.c_str(), at); }); ev("multiplied"); sig(fmt("m%ld%ld", nx, ny)); }
    else { if (nx < 3 || ny < 3) return; double an = r.b() ? r.i(-4, 4)*90 : r.d(-360, 360); S sv = num(r, an); an = strtod(sv.c_str(), nullptr); Run x = tool("imgtool", d, {"rotate", "i.fits", sv, out}); if (!good(x)) return; Img o = rimg(d + "/" + out), src = rimg(d + "/i.fits"); vec2d e = astro::rotate(tovec(src), an, dnan); V<double> ee; for (size_t k = 0; k < e.size(); ++k) ee.push_back(e.safe[k]); size_t at; checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, ee, 1e-12, at), "rotate", [&]{ return fmt("by %s, pixel %zu of %ldx%ld", sv.c_str(), at, nx, ny); }); size_t fin = 0; for (double q : ee) fin += std::isfinite(q); if (fin) ev("rotated"); sig(fmt("r%ld%ld", nx, ny)); }
}
SCEN(qconvol, 40, 2000) { Rng& r = rng; S d = newdir(); long nx = r.u(1, 16), ny = r.u(1, 16); V<double> m = pixels(r, nx*ny); double aspix = r.pick(V<double>{0.5, 1, 2, 0.3}); Tan t = maketan(r, aspix/3600, true); V<S> ks; S more = keys(r, ks); S h = header(t, nx, ny, more); wimg(d + "/i.fits", {nx, ny}, m, h); S before = rimg(d + "/i.fits").hdr;
    if (r.b(0.15)) { int w = r.i(0, 2); Run x = w == 0 ? tool("qconvol", d, {"i.fits", "radius=1"}) : w == 1 ? tool("qconvol", d, {"none.fits", "out=o.fits"}) : tool("qconvol", d, {"i.fits", "out=o.fits", "kernel=none.fits"}); refused(x, fmt("qconvol %d", w)); check(!exists(d + "/o.fits"), "output-of-failure", fmt("%d", w)); return; }
    V<double> e; V<S> a = {"i.fits", "out=o.fits"}; S what; if (r.b()) { // a kernel centered on its brightest pixel, wherever it is in the file
        long hw = r.u(1, 3), kx = 2*hw + 1 + r.u(0, 4), ky = 2*hw + 1 + r.u(0, 4), px = hw + r.u(0, kx - 2*hw - 1), py = hw + r.u(0, ky - 2*hw - 1); V<double> k(kx*ky, 0.0); for (long y = -hw; y <= hw; ++y) for (long x = -hw; x <= hw; ++x) k[(py+y)*kx+px+x] = x == 0 && y == 0 ? 2 : r.i(1, 15)*0.125; wimg(d + "/k.fits", {kx, ky}, k); a.push_back("kernel=k.fits"); e = conv(m, nx, ny, k, kx, ky, px, py); what = fmt("kernel %ldx%ld with its peak at (%ld,%ld)", kx, ky, px, py); ev("kernel"); }
    else { double rad = r.d(0.4, 2.0); bool as = r.b(); S sv = num(r, rad); rad = strtod(sv.c_str(), nullptr); a.push_back("radius=" + sv); if (as) a.push_back("arcsec"); double s = (as ? rad/aspix : rad)/std::sqrt(2*std::log(2.0)); long hk = 40; V<double> k((2*hk+1)*(2*hk+1)); L tt = 0; for (long y = -hk; y <= hk; ++y) for (long x = -hk; x <= hk; ++x) { auto G = [&](double q) { double z = s*std::sqrt(2.0); return 0.5*(std::erf((q + 0.5)/z) - std::erf((q - 0.5)/z)); }; tt += k[(y+hk)*(2*hk+1)+x+hk] = G(x)*G(y); } for (auto& q : k) q /= tt; e = conv(m, nx, ny, k, 2*hk+1, 2*hk+1, hk, hk); what = fmt("radius %s%s", sv.c_str(), as ? " arcsec" : ""); ev(as ? "beam-arcsec" : "beam"); }
    Run x = tool("qconvol", d, a); if (!good(x)) return; Img o = rimg(d + "/o.fits"); size_t at; checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, e, 1e-7, at), "qconvol", [&]{ return what + fmt(": pixel %zu of %ldx%ld: %.9g expected %.9g", at, nx, ny, at < o.v.size() ? o.v[at] : dnan, at < e.size() ? e[at] : dnan); }); ks.push_back("CRVAL1"); ks.push_back("CRPIX2"); kept(before, o.hdr, ks, "qconvol-header"); sig(fmt("%ld%ld", nx, ny));
}
SCEN(qmask, 40, 2000) { Rng& r = rng; S d = newdir(); long nx = r.u(1, 24), ny = r.u(1, 24); double aspix = r.pick(V<double>{0.5, 1, 2, 0.3}); Tan t = maketan(r, aspix/3600, true); V<S> ks; S more = keys(r, ks); wimg(d + "/i.fits", {nx, ny}, pixels(r, nx*ny), header(t, nx, ny, more)); S before = rimg(d + "/i.fits").hdr; size_t n = r.u(0, 4); S reg; if (r.b(0.5)) reg += "# Region file format: DS9 version 4.1\n"; if (r.b(0.5)) reg += "global color=green dashlist=8 3\n"; bool phys = r.b(0.3); if (phys) { reg += r.b() ? "physical\n" : " physical \n"; ev("physical-regions"); } else if (r.b(0.7)) reg += "fk5\n"; if (r.b(0.3)) reg += r.pick(V<S>{"  # a (comment)\n", "   \n", "# circle(1,2,3)\n", "\t\n"}); V<std::array<double,3>> c; for (size_t k = 0; k < n; ++k) { double x = r.d(-3, nx + 3), y = r.d(-3, ny + 3), rad = r.d(0.6, 6); L ra, dec; t.sky(x + 1, y + 1, ra, dec); if (phys) reg += fmt("circle(%.12g,%s%.12g,%.12g)", x + 1, r.b() ? " " : "", y + 1, rad); else if (r.b(0.4)) { double hh = (double)ra/15; int h0 = (int)hh, m0 = (int)((hh - h0)*60); double s0 = ((hh - h0)*60 - m0)*60; double ad = std::fabs((double)dec); int d0 = (int)ad, dm = (int)((ad - d0)*60); double ds = ((ad - d0)*60 - dm)*60; reg += fmt("circle(%02d:%02d:%.9f,%s%02d:%02d:%.9f,%.12g\")", h0, m0, s0, dec < 0 ? "-" : "+", d0, dm, ds, rad*aspix); } else reg += fmt("circle(%.15g,%s%.15g,%.12g\")", (double)ra, r.b() ? " " : "", (double)dec, rad*aspix); if (r.b(0.3)) reg += " # color=red"; reg += "\n"; if (r.b(0.2)) reg += "box(1,2,3\",4\",0)\n"; if (r.b(0.2)) reg += "\n"; c.push_back({x, y, rad}); }
    if (r.b(0.15)) { int w = r.i(0, 3); reg += w == 3 ? "circle(1,2,x)\n" : w == 0 ? "circle(1,2)\n" : w == 1 ? "circle(a,b,3\")\n" : "circle(10:2:3,a:b:c,3\")\n"; spit(d + "/r.reg", reg); refused(tool("qmask", d, {"i.fits", "r.reg", "o.fits"}), "broken region: " + reg); check(!exists(d + "/o.fits"), "output-of-failure", ""); return; }
    spit(d + "/r.reg", reg); bool def = r.b(0.3); V<S> a = {"i.fits", "r.reg"}; if (!def) a.push_back("o.fits"); Run x = tool("qmask", d, a); if (!good(x)) return; Img o = rimg(d + (def ? "/i_msk.fits" : "/o.fits")); if (!check(o.ok && o.n == V<long>({nx, ny}), "qmask-output", reg)) return; for (long y = 0; y < ny; ++y) for (long q = 0; q < nx; ++q) { double v = o.v[y*nx+q]; bool in = false, nearb = false; for (auto& k : c) { double dd = std::hypot(q - k[0], y - k[1]); in = in || dd < k[2] - 0.75; nearb = nearb || dd < k[2] + 0.75; } checkf(in ? std::fabs(v - 1) < 1e-6 : nearb ? v >= 0 && v <= 1 : v == 0, "qmask", [&]{ return fmt("pixel (%ld,%ld): %g, ", q, y, v) + (in ? "inside" : "outside") + " " + reg; }); if (in) ev("masked"); }
    ks.push_back("CRVAL1"); kept(before, o.hdr, ks, "qmask-header"); sig(fmt("%ld%ld%zu", nx, ny, n));
}
SCEN(qregrid, 40, 1500) { Rng& r = rng; S d = newdir(); long nx = r.u(4, 16), ny = r.u(4, 16); double aspix = r.pick(V<double>{0.5, 1, 2}); Tan t = maketan(r, aspix/3600, true); bool wcsok = r.b(0.85); V<double> m = pixels(r, nx*ny); wimg(d + "/i.fits", {nx, ny}, m, wcsok ? header(t, nx, ny) : S("")); S method = r.pick(V<S>{"drizzle", "nearest", "linear", "cubic"}); int mode = r.i(0, 3); bool cons = r.b(0.3), wei = method == "drizzle" && r.b(0.4); V<S> a = {"i.fits", "o.fits"}; if (method != "drizzle" || r.b()) a.push_back("method=" + method); if (cons) a.push_back("conserve_flux"); if (wei) a.push_back("weight=w.fits"); double pf = 1; if (method == "drizzle" && r.b(0.3)) { pf = r.d(0.3, 1); S s = num(r, pf); pf = strtod(s.c_str(), nullptr); a.push_back("pixfrac=" + s); }
    double f = r.b() ? r.pick(V<double>{0.5, 2, 1, 0.25}) : r.d(0.5, 2.5); Tan t2 = t; long mx = 0, my = 0; if (mode == 0) { t2 = maketan(r, aspix*f/3600, true); t2.val[0] = t.val[0]; t2.val[1] = t.val[1]; t2.pix[0] = t.pix[0] + r.d(-2, 2); t2.pix[1] = t.pix[1] + r.d(-2, 2); mx = r.u(3, 16); my = r.u(3, 16); wimg(d + "/tp.fits", {mx, my}, V<double>(mx*my, 0.0), header(t2, mx, my)); a.push_back("template=tp.fits"); } else if (mode == 1) { S s = num(r, aspix*f); f = strtod(s.c_str(), nullptr)/aspix; a.push_back("aspix=" + s); } else if (mode == 2) { S s = num(r, 1/f); f = 1/strtod(s.c_str(), nullptr); a.push_back("ratio=" + s); }
    if (mode == 3 || (!wcsok && mode != 2)) { refused(tool("qregrid", d, a), "no output grid, or no coordinates"); check(!exists(d + "/o.fits"), "output-of-failure", ""); return; } if (r.b(0.08)) { a.push_back("method=magic"); refused(tool("qregrid", d, a), "unknown method"); return; }
    Run x = tool("qregrid", d, a); if (!good(x)) return; Img o = rimg(d + "/o.fits"); if (!check(o.ok && o.n.size() == 2, "qregrid-output", "")) return; auto frac = [&](long n) { return n/f - std::floor(n/f); }; auto nearint = [&](long n) { double q = frac(n); return q < 1e-6 || q > 1 - 1e-6; };
    if (mode == 0) check(o.n == V<long>({mx, my}), "qregrid-dims", fmt("%ldx%ld expected %ldx%ld", o.n[0], o.n[1], mx, my)); else { mx = std::max(1.0, std::ceil(nx/f)); my = std::max(1.0, std::ceil(ny/f)); checkf((o.n[0] == mx || (nearint(nx) && std::labs(o.n[0] - mx) <= 1)) && (o.n[1] == my || (nearint(ny) && std::labs(o.n[1] - my) <= 1)), "qregrid-dims", [&]{ return fmt("%ldx%ld expected %ldx%ld", o.n[0], o.n[1], mx, my); }); }
    astro::wcs wd(o.hdr); if (!check(wd.is_valid(), "qregrid-wcs", "")) return; double ap; if (mode != 0 && wcsok) { if (check(astro::get_pixel_size(wd, ap), "qregrid-pixel", "")) check(close(ap, aspix*f, 1e-6), "qregrid-pixel-size", fmt("%.9g expected %.9g", ap, aspix*f)); L ra, dec; t.sky(nx/2 + 1, ny/2 + 1, ra, dec); double cr, cd; astro::xy2ad(wd, double(o.n[0]/2 + 1), double(o.n[1]/2 + 1), cr, cd); checkf(angd(cr, cd, ra, dec) < 1e-4*aspix, "qregrid-center", [&]{ return fmt("center at (%.9g,%.9g) expected (%.9Lg,%.9Lg), %ldx%ld", cr, cd, ra, dec, nx, ny); }); ev("centered"); }
    // the pixels are those of the library for these two grids
    S hs; if (wcsok) hs = rimg(d + "/i.fits").hdr; else { Tan s; s.val[0] = s.val[1] = 0; s.pix[0] = nx/2 + 1; s.pix[1] = ny/2 + 1; s.cd[0][0] = -1/3600.0; s.cd[1][1] = 1/3600.0; s.cd[0][1] = s.cd[1][0] = 0; hs = header(s, nx, ny); } astro::wcs ws(hs); vec2d im = tovec(rimg(d + "/i.fits")), res, w; static bool once = (std::cout.rdbuf(nullptr), true); (void)once; if (method == "drizzle") { astro::regrid_drizzle_params p; p.pixfrac = pf; res = astro::regrid_drizzle(im, ws, wd, w, p); } else { astro::regrid_interpolate_params p; p.conserve_flux = cons; p.method = method == "nearest" ? interpolation_method::nearest : method == "linear" ? interpolation_method::linear : interpolation_method::cubic; res = astro::regrid_interpolate(im, ws, wd, p); }
    V<double> e; for (size_t k = 0; k < res.size(); ++k) e.push_back(res.safe[k]); size_t at; checkf(samep(o.v, e, 1e-6, at), "qregrid-pixels", [&]{ return fmt("pixel %zu: %.9g expected %.9g, method %s mode %d", at, at < o.v.size() ? o.v[at] : dnan, at < e.size() ? e[at] : dnan, method.c_str(), mode); }); size_t fin = 0; for (double q : e) fin += std::isfinite(q); if (fin) ev("regridded-" + method);
    if (wei) { Img q = rimg(d + "/w.fits"); V<double> ew; for (size_t k = 0; k < w.size(); ++k) ew.push_back(w.safe[k]); check(q.ok && samep(q.v, ew, 1e-6, at), "qregrid-weight", ""); ev("weight"); } sig(fmt("%d%s%d%d%ld%ld", mode, method.c_str(), (int)cons, (int)wcsok, nx, ny));
}
// ================================================================ catalogs
static void wcat(const S& f, const S& rn, const S& dn, const vec1d& ra, const vec1d& dec) { fits::write_table(f, rn, ra, dn, dec); }
SCEN(qxmatch2, 50, 3000) { Rng& r = rng; S d = newdir(); bool self = r.b(0.3); size_t n1 = r.u(2, 40), n2 = r.u(1, 40); double s = r.pick(V<double>{0.01, 1, 20}), c0 = r.d(0, 360), cd0 = r.d(-70, 70); auto gen = [&](size_t n, vec1d& ra, vec1d& dec) { ra.resize(n); dec.resize(n); for (size_t k = 0; k < n; ++k) { ra[k] = std::fmod(c0 + r.d(-s, s) + 360, 360); dec[k] = cd0 + r.d(-s, s)*0.9; } }; vec1d r1, d1, r2, d2; gen(n1, r1, d1); gen(n2, r2, d2); if (!self) for (size_t k = 0; k < std::min(n1, n2); ++k) if (r.b(0.3)) { r2[k] = r1[k] + 1e-5; d2[k] = d1[k]; }
    V<S> a; S p1 = r.b(0.3) ? "pos" : "", p2 = self ? "" : r.b(0.3) ? "cat" : ""; bool nm = r.b(0.3); S ra1 = nm ? "alpha" : "ra", de1 = nm ? "delta" : "dec"; wcat(d + "/1.fits", (p1.size() ? p1 + "." : S()) + ra1, (p1.size() ? p1 + "." : S()) + de1, r1, d1); if (!self) { if (p1.size() && r.b()) p2 = p1; wcat(d + "/2.fits", (p2.size() ? p2 + "." : S()) + "ra", (p2.size() ? p2 + "." : S()) + "dec", r2, d2); }
    a.push_back(self ? "cats=[1.fits]" : "cats=[1.fits,2.fits]"); a.push_back("output=o.fits"); if (self ? p1.size() > 0 : p1.size() || p2.size()) a.push_back(self || p1 == p2 ? "pos=" + p1 : "pos=[" + p1 + "," + p2 + "]"); if (nm) a.push_back("radec1=[alpha,delta]"); size_t nth = r.b() ? 1 : r.u(1, std::max<size_t>(1, std::min<size_t>(4, self ? n1 - 1 : n2))); if (nth > 1 || r.b(0.3)) a.push_back(fmt("nth=%zu", nth)); if (r.b(0.4)) a.push_back(fmt("thread=%zu", r.u(1, 3))); if (r.b(0.3)) a.push_back("brute"); bool nom = !self && r.b(0.3); if (nom) a.push_back("no_mirror"); if (r.b(0.3)) a.push_back(r.b() ? "quiet" : "verbose"); r.shuffle(a);
    if (!self && (p1.empty() != p2.empty()) && false) return; if (r.b(0.05)) { for (auto& q : a) if (q.find("cats=") == 0) q = self ? "cats=[none.fits]" : "cats=[1.fits,none.fits]"; refused(tool("qxmatch2", d, a), "missing catalog"); check(!exists(d + "/o.fits"), "output-of-failure", ""); return; }
    Run x = tool("qxmatch2", d, a); if (!good(x)) return; vec2u id; vec2d dd; vec1u rid; vec1d rd; try { fits::read_table_loose(d + "/o.fits", "id", id, "d", dd, "rid", rid, "rd", rd); } catch (fits::exception& e) { check(false, "qxmatch2-output", e.msg); return; } if (self) { r2 = r1; d2 = d1; n2 = n1; } if (!checkf(id.dims[0] == nth && id.dims[1] == n1 && dd.dims == id.dims, "qxmatch2-shape", [&]{ return fmt("%zux%zu expected %zux%zu", id.dims[0], id.dims[1], nth, n1); })) return;
    for (size_t i = 0; i < n1; ++i) { V<L> q; for (size_t j = 0; j < n2; ++j) if (!self || i != j) q.push_back(angd(r1[i], d1[i], r2[j], d2[j])); std::sort(q.begin(), q.end()); std::set<size_t> seen; for (size_t k = 0; k < nth; ++k) { size_t j = id(k, i); L tol = 1e-6 + 1e-9*q[k]; checkf(j < n2 && !(self && j == i) && seen.insert(j).second && fabsl(angd(r1[i], d1[i], r2[j], d2[j]) - q[k]) < tol && fabsl(dd(k, i) - q[k]) < tol, "qxmatch2-neighbor", [&]{ return fmt("source %zu, neighbor %zu: %zu at %.9g, expected at %.9Lg", i, k, j, dd(k, i), q[k]); }); } } ev(self ? "self-matched" : "matched", n1);
    if (!self && !nom) { if (check(rid.size() == n2 && rd.size() == n2, "qxmatch2-mirror-shape", "")) for (size_t j = 0; j < n2; ++j) { L b = 1e30; for (size_t i = 0; i < n1; ++i) b = std::min(b, angd(r1[i], d1[i], r2[j], d2[j])); checkf(rid[j] < n1 && fabsl(angd(r1[rid[j]], d1[rid[j]], r2[j], d2[j]) - b) < 1e-6 + 1e-9*b && fabsl(rd[j] - b) < 1e-6 + 1e-9*b, "qxmatch2-mirror", [&]{ return fmt("source %zu", j); }); } ev("mirrored"); } sig(fmt("%d%zu%zu%zu", (int)self, n1/8, n2/8, nth));
}
SCEN(randsrc, 30, 1500) { Rng& r = rng; S d = newdir(); size_t n = r.b(0.12) ? r.u(0, 2) : r.u(3, 20); double c0 = r.d(20, 340), cd0 = r.d(-60, 60), s = r.pick(V<double>{0.05, 0.5}); vec1d ra(n), dec(n); for (size_t k = 0; k < n; ++k) { ra[k] = c0 + r.d(-s, s); dec[k] = cd0 + r.d(-s, s); } if (n >= 3) { ra[0] = c0 - s; dec[0] = cd0 - s; ra[1] = c0 + s; dec[1] = cd0 - s; ra[2] = c0; dec[2] = cd0 + s; } S pos = r.b(0.3) ? r.pick(V<S>{"p", "p."}) : S(); if (n) wcat(d + "/c.fits", (pos.size() ? "p." : S()) + "ra", (pos.size() ? "p." : S()) + "dec", ra, dec); size_t ns = r.b(0.3) ? 0 : r.u(1, 60); bool def = r.b(0.3); V<S> a = {"c.fits"}; if (ns) a.push_back(fmt("nsrc=%zu", ns)); if (pos.size()) a.push_back("pos=" + pos); size_t seed = 42; if (r.b()) { seed = r.u(0, 999); a.push_back(fmt("seed=%zu", seed)); } V<S> a2 = a; S of = def ? "c-rnd.fits" : r.b(0.3) ? "sub/o.fits" : "o.fits"; if (!def) a2.push_back("out=" + of); if (n < 3) { refused(tool("randsrc", d, a2), "too few positions"); return; } if (r.b(0.06)) { a2.push_back("model=unknown"); refused(tool("randsrc", d, a2), "unknown model"); return; }
    Run x = tool("randsrc", d, a2); if (!good(x)) return; if (!ns) ns = n; vec1d qr, qd; auto get = [&](const S& f, vec1d& u, vec1d& v) { try { fits::read_table(d + "/" + f, "ra", u, "dec", v); return true; } catch (fits::exception& e) { return check(false, "randsrc-output", e.msg); } }; if (!get(of, qr, qd)) return; if (!check(qr.size() == ns && qd.size() == ns, "randsrc-count", fmt("%zu expected %zu", qr.size(), ns))) return;
    // inside the hull: on the left of every edge of an independent hull
    V<std::pair<double,double>> p; for (size_t k = 0; k < n; ++k) p.push_back({ra[k], dec[k]}); std::sort(p.begin(), p.end()); V<std::pair<double,double>> hl; auto cr = [](std::pair<double,double> o, std::pair<double,double> b, std::pair<double,double> c) { return (b.first - o.first)*(c.second - o.second) - (b.second - o.second)*(c.first - o.first); }; for (int pass = 0; pass < 2; ++pass) { size_t st0 = hl.size(); for (auto& q : p) { while (hl.size() >= st0 + 2 && cr(hl[hl.size()-2], hl.back(), q) <= 0) hl.pop_back(); hl.push_back(q); } hl.pop_back(); std::reverse(p.begin(), p.end()); }
    for (size_t k = 0; k < ns; ++k) { bool in = true; for (size_t q = 0; q < hl.size(); ++q) if (cr(hl[q], hl[(q+1)%hl.size()], {qr[k], qd[k]}) < -1e-9*s*s) in = false; checkf(in, "randsrc-inside", [&]{ return fmt("position %zu (%.9g,%.9g)", k, qr[k], qd[k]); }); } ev("placed", ns);
    V<S> a3 = a; a3.push_back("out=again.fits"); if (!good(tool("randsrc", d, a3))) return; vec1d u, v; if (!get("again.fits", u, v)) return; bool same = u.size() == ns; for (size_t k = 0; same && k < ns; ++k) same = u[k] == qr[k] && v[k] == qd[k]; check(same, "randsrc-reproducible", ""); for (auto it = a3.begin(); it != a3.end();) if (it->find("seed=") == 0) it = a3.erase(it); else ++it; a3.push_back(fmt("seed=%zu", seed + 1)); if (!good(tool("randsrc", d, a3)) || !get("again.fits", u, v)) return; bool diff = false; for (size_t k = 0; k < std::min<size_t>(ns, u.size()); ++k) diff = diff || u[k] != qr[k]; check(diff, "randsrc-seed", ""); ev("reproduced"); sig(fmt("%zu%zu%d", n, ns, (int)def));
}
#endif

#if PART == 1
// ================================================================ tables: FITS to text
struct Col { S name; int type; size_t w; V<double> d; V<S> s; }; // type: 0 double 1 float 2 int 3 text 4 bool; w: 1, or the columns of a 2-D one
static S word(Rng& r, size_t a, size_t b) { S s; size_t n = r.u(a, b); for (size_t k = 0; k < n; ++k) s += S("abcXYZ_-.19")[r.u(0, 10)]; return s; }
static double val(Rng& r, int type) { switch (type) { case 0: return r.b(0.05) ? dnan : r.b() ? r.gauss()*std::pow(10.0, r.i(-12, 12)) : r.d(0, 360); case 1: return (float)(r.b() ? r.gauss()*std::pow(10.0, r.i(-6, 6)) : r.i(-99, 99)); case 2: return r.b(0.1) ? (double)r.i(-2000000000, 2000000000) : r.i(-9999, 9999); default: return r.b(); } }
static V<Col> mkcols(Rng& r, size_t n, size_t nc, bool two) { V<Col> c; for (size_t k = 0; k < nc; ++k) { Col q; q.name = fmt("%s%zu", r.pick(V<S>{"RA", "DEC", "FLUX", "X", "RADIUS"}).c_str(), k); q.type = r.i(0, 4); q.w = two && q.type != 3 && r.b(0.35) ? r.u(2, 4) : 1; for (size_t i = 0; i < n*q.w; ++i) { q.d.push_back(val(r, q.type)); q.s.push_back(q.type == 3 ? word(r, 1, 9) : S()); } c.push_back(q); } return c; }
template<std::size_t D, typename T> vec<D,T> asvec(const Col& c, size_t n);
template<typename T> vec<1,T> as1(const Col& c) { vec<1,T> v(c.d.size()); for (size_t i = 0; i < c.d.size(); ++i) v[i] = c.d[i]; return v; }
template<typename T> vec<2,T> as2(const Col& c) { size_t n = c.d.size()/c.w; vec<2,T> v(n, c.w); for (size_t i = 0; i < c.d.size(); ++i) v.safe[i] = c.d[i]; return v; }
static void addcol(fits::output_table& t, const Col& c) { if (c.type == 3) { t.write_column(c.name, tov(c.s)); return; } if (c.w == 1) switch (c.type) { case 0: t.write_column(c.name, as1<double>(c)); break; case 1: t.write_column(c.name, as1<float>(c)); break; case 2: t.write_column(c.name, as1<int_t>(c)); break; default: t.write_column(c.name, as1<bool>(c)); } else switch (c.type) { case 0: t.write_column(c.name, as2<double>(c)); break; case 1: t.write_column(c.name, as2<float>(c)); break; case 2: t.write_column(c.name, as2<int_t>(c)); break; default: t.write_column(c.name, as2<bool>(c)); } }
static void wtab(const S& f, const V<Col>& c) { ::unlink(f.c_str()); fits::output_table t(f); for (auto& q : c) addcol(t, q); }
// what a column holds, read through the library
static bool hascol(const S& f, const S& name) { fits::input_table t(f); for (auto& q : t.read_columns_info()) if (q.name == name) return true; return false; }
static bool samecol(const S& f, const Col& c, S& why, size_t w = 0, const V<double>* alt = nullptr, size_t rows = 0) { if (!w) w = c.w; const V<double>& e = alt ? *alt : c.d; try { if (c.type == 3) { vec1s v; fits::read_table(f, c.name, v); if (v.size() != c.s.size()) { why = fmt("%zu texts expected %zu", v.size(), c.s.size()); return false; } for (size_t i = 0; i < v.size(); ++i) if (v[i] != c.s[i]) { why = fmt("row %zu: '%s' expected '%s'", i, v[i].c_str(), c.s[i].c_str()); return false; } return true; } size_t n = e.size()/w; V<double> g; if (w == 1 && !rows) { vec1d v; if (c.type == 4) { vec1b b; fits::read_table(f, c.name, b); for (bool q : b) g.push_back(q); } else { fits::read_table(f, c.name, v); for (double q : v) g.push_back(q); } if (g.size() != n) { why = fmt("%zu rows expected %zu", g.size(), n); return false; } } else { std::array<size_t,2> dm; if (c.type == 4) { vec2b b; fits::read_table(f, c.name, b); dm = {b.dims[0], b.dims[1]}; for (bool q : b) g.push_back(q); } else { vec2d v; fits::read_table(f, c.name, v); dm = {v.dims[0], v.dims[1]}; for (double q : v) g.push_back(q); } if (dm[0] != n || dm[1] != w) { why = fmt("%zux%zu expected %zux%zu", dm[0], dm[1], n, w); return false; } } for (size_t i = 0; i < e.size(); ++i) if (!eqv(g[i], e[i])) { why = fmt("element %zu: %.17g expected %.17g", i, g[i], e[i]); return false; } return true; } catch (fits::exception& x) { why = x.msg; return false; } }
SCEN(fits2ascii, 60, 3000) { Rng& r = rng; S d = newdir(); size_t n = r.u(1, 12), nc = r.u(1, 5); V<Col> c = mkcols(r, n, nc, true); wtab(d + "/c.fits", c); V<S> a; V<size_t> ids; bool sel = r.b(0.3); if (sel) { size_t m = r.u(1, n + 2); for (size_t k = 0; k < m; ++k) ids.push_back(r.u(0, n-1)); fits::write_table(d + "/ids.fits", "ids", tov(V<uint_t>(ids.begin(), ids.end()))); a.push_back("ids=ids.fits"); } else for (size_t i = 0; i < n; ++i) ids.push_back(i);
    int filt = r.i(0, 3); S pat; auto low = [](S s) { for (auto& q : s) q = tolower(q); return s; }; std::set<size_t> in; for (size_t k = 0; k < nc; ++k) in.insert(k); if (filt == 1 || filt == 2) { size_t k = r.u(0, nc-1); bool exact = r.b(); pat = exact ? "^" + low(c[k].name) + "$" : low(c[k].name.substr(0, 1)); for (size_t q = 0; q < nc; ++q) { bool m = exact ? q == k : low(c[q].name).find(pat) != S::npos; if (m != (filt == 1)) in.erase(q); } a.push_back((filt == 1 ? "include=[" : "exclude=[") + pat + "]"); }
    struct Out { S name, type; size_t c, k; }; V<Out> ex; std::map<size_t,S> ren; S rl; for (size_t k = 0; k < nc; ++k) if (r.b(0.2)) { ren[k] = fmt("new%zu", k); rl += (rl.size() ? "," : "") + c[k].name + ":" + ren[k]; } if (rl.size()) a.push_back("rename=[" + rl + "]"); S sl; static const char* tn[] = {"[double]", "[float]", "[int]", "[string]", "[byte]"}; bool warn = false; for (size_t k = 0; k < nc; ++k) { if (c[k].w == 1) { if (in.count(k)) ex.push_back({ren.count(k) ? ren[k] : low(c[k].name), tn[c[k].type], k, 0}); } else if (r.b(0.8)) { int f = r.i(0, 1); S l = low(c[k].name) + ":b"; V<S> nm; if (f == 0) { for (size_t q = 0; q < c[k].w; ++q) nm.push_back(fmt("b%zuq%zu", k, q)); l += fmt("%zuq:[", k); for (size_t q = 0; q < c[k].w; ++q) l += (q ? "," : "") + fmt("%zu", q); l += "]"; } else { Col nmc; nmc.name = fmt("NAMES%zu", k); continue; } sl += (sl.size() ? ";" : "") + l; if (in.count(k)) for (size_t q = 0; q < c[k].w; ++q) ex.push_back({nm[q], tn[c[k].type], k, q}); } else if (in.count(k)) warn = true; }
    if (sl.size()) { S t; for (char q : sl) t += q; /* one split per run: commas separate the names inside the array */ V<S> parts; std::istringstream is(sl); S l; while (std::getline(is, l, ';')) parts.push_back(l); if (parts.size() > 1) { /* keep the first only */ size_t keep = npos; for (size_t k = 0; k < nc; ++k) if (parts[0].find(low(c[k].name) + ":") == 0) keep = k; V<Out> e2; for (auto& q : ex) if (c[q.c].w == 1 || q.c == keep) e2.push_back(q); ex = e2; } a.push_back("split=\"" + parts[0] + "\""); ev("split"); }
    if (ex.empty()) return; V<S> aa = {"c.fits", "o.dat"}; aa.insert(aa.end(), a.begin(), a.end()); int bad = r.b(0.15) ? r.i(0, 3) : -1; if (bad == 0) { aa[1] = "nodir/o.dat"; refused(tool("fits2ascii", d, aa), "output directory does not exist"); return; } if (bad == 1) { aa[1] = "/dev/full"; refused(tool("fits2ascii", d, aa), "full device"); return; } if (bad == 2) { aa.push_back("rename=[justone]"); refused(tool("fits2ascii", d, aa), "malformed renaming"); check(!exists(d + "/o.dat"), "output-of-failure", ""); return; } if (bad == 3 && !sel) { fits::write_table(d + "/ids.fits", "ids", vec1u{0, n + 1}); aa.push_back("ids=ids.fits"); refused(tool("fits2ascii", d, aa), "row out of range"); check(!exists(d + "/o.dat"), "output-of-failure", ""); return; }
    Run x = tool("fits2ascii", d, aa); if (!good(x)) return; S text = slurp(d + "/o.dat"); V<S> l = lines(text); auto show = [&] { S t = fmt("%zu rows; ", n); for (auto& q : aa) t += q + " "; return t + "\n" + text.substr(0, 700) + x.err.substr(0, 200); }; if (!checkf(l.size() == 3 + ids.size() && l[0][0] == '#' && l[1][0] == '#' && l[2][0] == '#', "lines", show)) return; V<S> hn = words(l[0].substr(1)), ht = words(l[1].substr(1)); if (!checkf(hn.size() == ex.size() && ht.size() == ex.size(), "columns", show)) return; for (size_t k = 0; k < ex.size(); ++k) checkf(hn[k] == ex[k].name && (ht[k] == ex[k].type || (c[ex[k].c].type == 4 && ht[k] == "[bool]")), "column-names", [&]{ return hn[k] + " " + ht[k] + " expected " + ex[k].name + " " + ex[k].type + show(); });
    for (size_t i = 0; i < ids.size(); ++i) { V<S> w = words(l[3+i]); if (!checkf(w.size() == ex.size(), "cells", show)) return; for (size_t k = 0; k < ex.size(); ++k) { auto& q = c[ex[k].c]; size_t at = ids[i]*q.w + ex[k].k; if (q.type == 3) checkf(w[k] == q.s[at], "text-cell", [&]{ return w[k] + " expected " + q.s[at]; }); else { double v; bool isn = isnum(w[k], v); checkf(isn && (q.type == 1 ? std::fabs(v - q.d[at]) <= 1e-6*std::fabs(q.d[at]) : eqv(v, q.d[at])), "number-cell", [&]{ return "column " + q.name + fmt(" row %zu: ", ids[i]) + w[k] + fmt(" expected %.17g", q.d[at]); }); } ev("cells"); } } if (sel) ev("selected"); if (rl.size()) ev("renamed"); if (warn) ev("two-dimensional-left-out"); sig(fmt("%zu%zu%d%d%d", n, nc, (int)sel, filt, (int)sl.size() > 0));
}
SCEN(catinfo, 8, 300) { Rng& r = rng; S d = newdir(); S com = word(r, 1, 30), cat = word(r, 1, 30), ver = word(r, 1, 6), chg = word(r, 1, 20); bool hc = r.b(0.8), hv = r.b(0.8); { fits::output_table t(d + "/c.fits"); t.write_column("RA", vec1d{1, 2}); if (hc) { t.write_column("COMMENTS", com); t.write_column("CATALOGS", cat); } if (hv) { t.write_column("VERSION", ver); t.write_column("CHANGELOG", chg); } } bool v = r.b(); V<S> a = {"c.fits"}; if (v) a.push_back("version"); Run x = tool("catinfo", d, a); if (!good(x)) return; S e = "c.fits\n\n"; if (v) { if (hv) e += "version: " + ver + "\n" + chg + "\n"; } else if (hc) e += com + "\n" + cat + "\n"; checkf(x.out == e, "catinfo", [&]{ return "got '" + x.out + "' expected '" + e + "'"; }); ev("catinfo"); sig(fmt("%d%d%d", (int)v, (int)hc, (int)hv)); }
// ================================================================ fitstool: tables
SCEN(columns, 60, 3000) { Rng& r = rng; S d = newdir(); size_t n = r.u(1, 8), nc = r.u(2, 6); V<Col> c = mkcols(r, n, nc, true); S f = d + "/c.fits"; wtab(f, c); bool rm = r.b(); V<S> a = {"c.fits", rm ? "remove" : "transpose"}; std::set<size_t> ch; S list; for (size_t k = 0; k < nc; ++k) if ((rm || c[k].w > 1) && r.b(0.4)) { if (c[k].w > 1 && n == 1 && !rm) continue; S nm = c[k].name; if (r.b()) for (auto& q : nm) q = tolower(q); list += (list.size() ? "," : "") + nm; ch.insert(k); } if (r.b(0.15)) list += (list.size() ? "," : "") + S("NOSUCH"); bool force = r.b(0.5) || list.find("NOSUCH") != S::npos; if (ch.empty()) { if (r.b() || !rm) { refused(tool("fitstool", d, {"c.fits", a[1]}), "no column given"); refused(tool("fitstool", d, {"none.fits", a[1], "cols=a", "force"}), "missing file"); S why; for (auto& q : c) check(samecol(f, q, why), "untouched", q.name + ": " + why); } return; } if (ch.size() == nc) return;
    a.push_back("cols=[" + list + "]"); if (force) a.push_back("force"); bool no = !force && rm && r.b(0.4); Run x = tool("fitstool", d, a, force ? "" : no ? "maybe\nn\n" : "y\n"); if (!good(x)) return; if (no) ch.clear(); S why; for (size_t k = 0; k < nc; ++k) { if (rm && ch.count(k)) { checkf(!hascol(f, c[k].name), "column-removed", [&]{ return c[k].name; }); ev("removed"); } else if (ch.count(k)) { V<double> t(c[k].d.size()); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < c[k].w; ++j) t[j*n+i] = c[k].d[i*c[k].w+j]; checkf(samecol(f, c[k], why, n, &t, 1), "column-transposed", [&]{ return c[k].name + fmt(" type %d ", c[k].type) + why; }); ev("transposed"); } else { checkf(samecol(f, c[k], why), "column-kept", [&]{ return c[k].name + fmt(" type %d ", c[k].type) + why; }); ev("column-kept"); } } if (no) ev("declined"); sig(fmt("%d%zu%zu%zu", (int)rm, n, nc, ch.size()));
}
SCEN(rows_to_columns, 50, 2500) { Rng& r = rng; S d = newdir(); size_t n = r.u(1, 8), nc = r.u(1, 5); V<Col> c; for (size_t k = 0; k < nc; ++k) { Col q; q.name = fmt("C%zu", k); q.type = r.i(0, 4); q.w = q.type == 3 ? 1 : r.b(0.5) ? 1 : r.u(2, 4); for (size_t i = 0; i < n*q.w; ++i) { q.d.push_back(val(r, q.type)); q.s.push_back(q.type == 3 ? word(r, 1, 9) : S()); } c.push_back(q); }
    { fitsfile* p = nullptr; int s = 0; fits_create_file(&p, ("!" + d + "/r.fits").c_str(), &s); fits_create_tbl(p, BINARY_TBL, n, 0, nullptr, nullptr, nullptr, nullptr, &s); for (size_t k = 0; k < nc; ++k) { auto& q = c[k]; int dt[] = {TDOUBLE, TFLOAT, TINT, TSTRING, TLOGICAL}; S code = q.type == 0 ? "D" : q.type == 1 ? "E" : q.type == 2 ? r.pick(V<S>{"J", "K"}) : q.type == 3 ? "A" : "L"; S form = q.type == 3 ? fmt("%zuA", 9 + r.u(0, 3)) : (q.w == 1 && r.b(0.5) ? S() : fmt("%zu", q.w)) + code; fits_insert_col(p, k+1, const_cast<char*>(q.name.c_str()), const_cast<char*>(form.c_str()), &s); if (q.type == 3) { V<char*> t; for (auto& z : q.s) t.push_back(const_cast<char*>(z.c_str())); fits_write_col(p, TSTRING, k+1, 1, 1, n, t.data(), &s); } else if (q.type == 4) { V<char> t(q.d.begin(), q.d.end()); fits_write_col(p, TLOGICAL, k+1, 1, 1, t.size(), t.data(), &s); } else { V<double> t = q.d; fits_write_col(p, TDOUBLE, k+1, 1, 1, t.size(), t.data(), &s); } (void)dt; } fits_close_file(p, &s); if (s) { fprintf(stderr, "harness: row table (%d)\n", s); ::_exit(3); } }
    S of = r.b(0.3) ? "sub/o.fits" : "o.fits"; if (n == 1) { refused(tool("fitstool", d, {"r.fits", "r2c", "out=" + of}), "already column-oriented"); return; } if (r.b(0.1)) { S b = slurp(d + "/r.fits"); refused(tool("fitstool", d, {"r.fits", "r2c", "out=r.fits"}), "output over the input"); check(slurp(d + "/r.fits") == b, "untouched", ""); return; } V<S> a = {"r.fits", "r2c", "out=" + of}; if (r.b()) a.push_back("silent"); Run x = tool("fitstool", d, a); if (!good(x)) return; S why; fitsfile* p = nullptr; int s = 0, ncol = 0; long nr = 0; fits_open_table(&p, (d + "/" + of).c_str(), READONLY, &s); fits_get_num_cols(p, &ncol, &s); fits_get_num_rows(p, &nr, &s); check(s == 0 && ncol == (int)nc && nr == 1, "r2c-columns", fmt("%d columns, %ld rows", ncol, nr)); auto flat = [&](const Col& q) { int id = 0, any; fits_get_colnum(p, CASEINSEN, const_cast<char*>(q.name.c_str()), &id, &s); V<double> g(q.d.size()); if (q.type == 4) { V<char> t(g.size()); fits_read_col(p, TLOGICAL, id, 1, 1, g.size(), nullptr, t.data(), &any, &s); for (size_t i = 0; i < g.size(); ++i) g[i] = t[i]; } else fits_read_col(p, TDOUBLE, id, 1, 1, g.size(), nullptr, g.data(), &any, &s); size_t at; bool okk = s == 0 && samep(g, q.d, 0, at); if (!okk) why = fmt("cfitsio status %d, element %zu", s, at); s = 0; return okk; }; for (auto& q : c) { checkf(q.type == 3 || (q.w > 1 && q.type != 4) ? samecol(d + "/" + of, q, why) : flat(q), "r2c-column", [&]{ return q.name + fmt(" type %d, %zu per row, %zu rows: ", q.type, q.w, n) + why; }); ev(q.type == 3 ? "r2c-text" : q.w > 1 ? "r2c-multi" : "r2c"); } fits_close_file(p, &s); sig(fmt("%zu%zu", n, nc));
}
SCEN(meta_columns, 30, 1500) { Rng& r = rng; S d = newdir(); size_t n = r.u(5, 9), nc = r.u(2, 5), nm = r.u(0, 3); V<Col> c; for (size_t k = 0; k < nc + nm; ++k) { Col q; q.name = fmt("C%zu", k); bool meta = k >= nc; q.type = r.i(0, meta ? 2 : 4); q.w = !meta && q.type != 3 && r.b(0.3) ? r.u(2, 3) : 1; size_t m = meta ? r.u(1, 4) : n; for (size_t i = 0; i < m*q.w; ++i) { q.d.push_back(val(r, q.type)); q.s.push_back(q.type == 3 ? word(r, 1, 4) : S()); } c.push_back(q); } if (r.b()) r.shuffle(c); S f = d + "/c.fits"; wtab(f, c); bool force = r.b(); V<S> a = {"c.fits", "meta"}; if (force) a.push_back("force"); Run x = tool("fitstool", d, a, force ? "" : "y\ny\n"); if (!good(x)) return;
    // every column is in exactly one of the two tables, with its values
    size_t nh = 0; { fitsfile* p = nullptr; int s = 0, k = 0; fits_open_file(&p, f.c_str(), READONLY, &s); fits_get_num_hdus(p, &k, &s); nh = k; fits_close_file(p, &s); } for (auto& q : c) { size_t found = 0; S why; bool eq = false; for (size_t h = 1; h < nh; ++h) { fits::input_table t(f); t.reach_hdu(h); bool has = false; for (auto& z : t.read_columns_info()) has = has || z.name == q.name; if (!has) continue; ++found; if (q.type == 3) { vec1s v; t.read_column(q.name, v).is_good(); eq = v.size() == q.s.size(); for (size_t i = 0; eq && i < v.size(); ++i) eq = v[i] == q.s[i]; } else { V<double> g; if (q.w > 1) { if (q.type == 4) { vec2b v; t.read_column(q.name, v).is_good(); for (bool z : v) g.push_back(z); } else { vec2d v; t.read_column(q.name, v).is_good(); for (double z : v) g.push_back(z); } } else if (q.type == 4) { vec1b v; t.read_column(q.name, v).is_good(); for (bool z : v) g.push_back(z); } else { vec1d v; t.read_column(q.name, v).is_good(); for (double z : v) g.push_back(z); } size_t at; eq = samep(g, q.d, 0, at); } } checkf(found == 1 && eq, "meta-column", [&]{ return q.name + fmt(": in %zu tables of %zu, values %s", found, nh - 1, eq ? "kept" : "changed"); }); ev("meta-column"); } if (nh > 2) ev("meta-moved"); sig(fmt("%zu%zu%zu", n, nc, nm));
}
// ================================================================ fitstool: keywords and extensions
// a chosen extension of a file with several ones: only that one is printed, read or edited
SCEN(hdus, 30, 1500) { Rng& r = rng; S d = newdir(), f = d + "/i.fits"; size_t nh = r.u(1, 4); V<V<double>> m; V<S> hd; V<long> nx, ny; for (size_t k = 0; k < nh; ++k) { nx.push_back(r.u(1, 5)); ny.push_back(r.u(1, 5)); m.push_back(pixels(r, nx[k]*ny[k])); S h; card(h, "MARK", S(fmt("%20zu", 100*k + r.u(0, 99)))); if (r.b()) card(h, fmt("ONLY%zu", k), S("'" + word(r, 1, 6) + "'")); wimg(f, {nx[k], ny[k]}, m[k], h, k > 0); } for (size_t k = 0; k < nh; ++k) hd.push_back(rimg(f, k).hdr);
    bool bad = r.b(0.15); size_t k = bad ? nh + r.u(0, 3) : r.u(0, nh-1); int op = r.i(0, 2); S arg = fmt("hdu=%zu", k); auto intact = [&](size_t but) { for (size_t q = 0; q < nh; ++q) { Img o = rimg(f, q); size_t at; checkf(o.ok && o.n == V<long>({nx[q], ny[q]}) && samep(o.v, m[q], 0, at) && (q == but || o.hdr == hd[q]), "other-extension-kept", [&]{ return fmt("extension %zu of %zu", q, nh); }); } };
    V<S> a = {"i.fits", op == 0 ? "hdr" : op == 1 ? "readkwd" : "editkwd", arg}; if (op) a.push_back(op == 1 ? "key=[MARK]" : "key=MARK"); if (op == 2) a.push_back("val=4321"); if (r.b(0.3)) a.push_back("verbose"); if (bad) { refused(tool("fitstool", d, a), "no such extension"); intact(npos); return; }
    if (op && a.back() == "verbose") a.pop_back(); Run x = tool("fitstool", d, a); if (!good(x)) return; if (op == 0) { V<S> l = lines(x.out); bool ok = l.size() == hd[k].size()/80; for (size_t q = 0; ok && q < l.size(); ++q) { S e = hd[k].substr(q*80, 80), g = l[q]; while (e.size() && e.back() == ' ') e.pop_back(); while (g.size() && g.back() == ' ') g.pop_back(); ok = g == e; } checkf(ok, "hdr-of-extension", [&]{ return fmt("extension %zu of %zu: ", k, nh) + x.out.substr(0, 400); }); intact(npos); }
    else if (op == 1) { checkf(x.out == kw(hd[k], "MARK") + "\n", "readkwd-of-extension", [&]{ return fmt("extension %zu of %zu: '", k, nh) + x.out + "' expected " + kw(hd[k], "MARK"); }); intact(npos); }
    else { S got = kw(rimg(f, k).hdr, "MARK"); checkf(got == "4321", "editkwd-of-extension", [&]{ return fmt("extension %zu of %zu: ", k, nh) + got; }); intact(k); } ev("extension"); sig(fmt("%d%zu%zu", op, k, nh)); }
SCEN(keywords, 70, 4000) { Rng& r = rng; S d = newdir(); long nx = r.u(1, 6), ny = r.u(1, 6); V<double> m = pixels(r, nx*ny); V<S> ks; S h; size_t nk = r.u(0, 5); for (size_t k = 0; k < nk; ++k) { S nm = fmt("KEY%zu", k); ks.push_back(nm); int w = r.i(0, 2); if (w == 0) card(h, nm, (L)r.gauss()); else if (w == 1) card(h, nm, S(fmt("%20lld", r.i(-99999, 99999)))); else card(h, nm, S("'" + word(r, 1, 8) + "'         / a comment")); } if (r.b(0.3)) { S c = "COMMENT some words"; c.resize(80, ' '); h += c; } wimg(d + "/i.fits", {nx, ny}, m, h); S before = rimg(d + "/i.fits").hdr; int op = r.i(0, 3); S f = d + "/i.fits";
    auto others = [&](const std::set<S>& but) { Img o = rimg(f); size_t at; if (!check(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, m, 0, at), "pixels-kept", "")) return S(); for (auto& k : ks) if (!but.count(k)) { checkf(kw(o.hdr, k) == kw(before, k), "keyword-kept", [&]{ return k + ": '" + kw(o.hdr, k) + "' expected '" + kw(before, k) + "'"; }); ev("keyword-kept"); } return o.hdr; };
    if (op == 0) { V<S> q; S l; size_t n = r.u(1, 4); for (size_t k = 0; k < n; ++k) { S z = ks.empty() || r.b(0.2) ? S("ABSENT") : r.pick(ks); q.push_back(z); l += (k ? "," : "") + (r.b(0.3) ? to_lower(z) : z); } Run x = tool("fitstool", d, {"i.fits", "readkwd", "key=[" + l + "]"}); if (!good(x)) return; S e; for (auto& z : q) { S v = kw(before, z); e += (v == "<none>" ? S() : v) + "\n"; } checkf(x.out == e, "readkwd", [&]{ return "got '" + x.out + "' expected '" + e + "'"; }); others({}); ev("readkwd"); sig(fmt("r%zu%zu", nk, n)); }
    else if (op == 1) { std::set<S> q; S l; size_t n = r.u(1, 3); for (size_t k = 0; k < n; ++k) { S z = ks.empty() || r.b(0.2) ? S("ABSENT") : r.pick(ks); q.insert(z); l += (k ? "," : "") + (r.b(0.3) ? to_lower(z) : z); } Run x = tool("fitstool", d, {"i.fits", "rmkwd", "key=[" + l + "]"}); if (!good(x)) return; S a = others(q); for (auto& z : q) check(kw(a, z) == "<none>", "rmkwd", z); ev("rmkwd"); sig(fmt("d%zu%zu", nk, n)); }
    else if (op == 2) { bool nw = ks.empty() || r.b(0.4); S k = nw ? fmt("NEW%zu", r.u(0, 9)) : r.pick(ks), v, e; double ev0 = dnan; int w = r.i(0, 5); switch (w) { case 0: ev0 = r.i(-99999, 99999); v = fmt("%.0f", ev0); break; case 1: ev0 = r.b() ? r.i(3000000000LL, 900000000000LL) : -r.i(3000000000LL, 900000000000LL); v = fmt("%.0f", ev0); break; case 2: v = fmt("%.10f", r.gauss()); ev0 = strtod(v.c_str(), nullptr); break; case 3: v = fmt("%llde%lld", r.i(1, 9), r.b() ? r.i(-9, -1) : r.i(1, 12)); ev0 = strtod(v.c_str(), nullptr); break; case 4: e = "t" + word(r, 1, 10); while (e.back() == '.') e.pop_back(); v = e; break; default: e = "q" + word(r, 1, 10); v = "'" + e + "'"; } bool inter = r.b(0.4); Run x = inter ? tool("fitstool", d, {"i.fits", "editkwd"}, (r.b() ? k : to_lower(k)) + "\n" + (nw ? "y\n" : "") + v + "\n\n") : tool("fitstool", d, {"i.fits", "editkwd", "key=" + k, "val=" + v}); if (!good(x)) return; S a = others({k}); S g = kw(a, k); double gv; if (w <= 3) checkf(isnum(g, gv) && close(gv, ev0, 1e-12), "editkwd-number", [&]{ return k + "=" + v + ": '" + g + "'" + x.str(); }); else checkf(g == e, "editkwd-text", [&]{ return k + "=" + v + ": '" + g + "'" + x.str(); });
        S cm; { fitsfile* p = nullptr; int s = 0; char vv[90], cc[90] = {0}; fits_open_file(&p, f.c_str(), READONLY, &s); fits_read_keyword(p, k.c_str(), vv, cc, &s); cm = cc; fits_close_file(p, &s); } S cb; if (!nw) { size_t at = before.find([&]{ S z = k; z.resize(8, ' '); return z; }() + "="); cb = before.substr(at, 80).find("a comment") != S::npos ? "a comment" : ""; } checkf(cm == cb, "editkwd-comment", [&]{ return "'" + cm + "' expected '" + cb + "'"; }); ev(inter ? "editkwd-interactive" : "editkwd"); if (w == 5) ev("quoted"); sig(fmt("e%d%d%d", w, (int)nw, (int)inter)); }
    else { Run x = tool("fitstool", d, {"i.fits", "hdr"}); if (!good(x)) return; V<S> l = lines(x.out); checkf(l.size() == before.size()/80, "hdr-lines", [&]{ return fmt("%zu lines, %zu cards", l.size(), before.size()/80); }); for (size_t k = 0; k < std::min(l.size(), before.size()/80); ++k) { S e = before.substr(k*80, 80); while (e.size() && e.back() == ' ') e.pop_back(); S g = l[k]; while (g.size() && g.back() == ' ') g.pop_back(); checkf(g == e, "hdr", [&]{ return "'" + g + "' expected '" + e + "'"; }); } ev("hdr"); refused(tool("fitstool", d, {"none.fits", r.pick(V<S>{"hdr", "rmkwd", "readkwd", "editkwd", "extract", "remove"})}), "missing file"); refused(tool("fitstool", d, {"i.fits", "unknownop"}), "unknown operation"); if (r.b(0.3)) { spit(d + "/junk.fits", "this is not a FITS file"); refused(tool("fitstool", d, {"junk.fits", r.pick(V<S>{"hdr", "cpwcs", "readkwd"}), "out=i.fits", "key=A"}), "not a FITS file"); others({}); } }
}
SCEN(extensions, 40, 2500) { Rng& r = rng; S d = newdir(); int op = r.i(0, 2);
    if (op == 0) { size_t n = r.u(1, 4); V<V<long>> nn; V<V<double>> v; V<S> hs; for (size_t k = 0; k < n; ++k) { long nx = r.u(1, 5), ny = r.u(1, 5); nn.push_back({nx, ny}); v.push_back(pixels(r, nx*ny)); S h; card(h, "MARK", S(fmt("%zu", k))); wimg(d + "/i.fits", nn[k], v[k], h, k > 0); } S b = slurp(d + "/i.fits"); size_t h = r.u(0, n); S of = r.b(0.3) ? "sub/o.fits" : "o.fits"; V<S> a = {"i.fits", "extract", "out=" + of}; if (h || r.b()) a.push_back(fmt("hdu=%zu", h)); if (of == "o.fits" && h < n && r.b()) { wimg(d + "/o.fits", {3, 2}, pixels(r, 6), ""); if (r.b()) a[2] = "out=!o.fits"; ev("overwritten"); } Run x = tool("fitstool", d, a); if (h == n) { refused(x, "HDU that does not exist"); check(!exists(d + "/" + of), "output-of-failure", ""); return; } if (!good(x)) return; Img o = rimg(d + "/" + of); int at0 = 0; if (o.ok && o.n.empty()) { o = rimg(d + "/" + of, 1); at0 = 1; } size_t at; checkf(o.ok && o.n == nn[h] && samep(o.v, v[h], 0, at) && kw(o.hdr, "MARK") == fmt("%zu", h), "extract", [&]{ return fmt("HDU %zu of %zu (at %d)", h, n, at0); }); check(slurp(d + "/i.fits") == b, "untouched", ""); refused(tool("fitstool", d, {"i.fits", "extract"}), "no output"); ev("extracted"); sig(fmt("x%zu%zu", h, n)); }
    else if (op == 1) { long nx = r.u(1, 5), ny = r.u(1, 5); double sc = std::pow(10.0, r.d(-5, -2)); Tan t = maketan(r, sc), t2 = maketan(r, sc*2); S h = header(t, nx, ny); V<double> v1 = pixels(r, nx*ny), v2 = pixels(r, nx*ny); wimg(d + "/a.fits", {nx, ny}, v1, h); S mk; card(mk, "MARK", S("5")); bool had = r.b(); wimg(d + "/b.fits", {nx, ny}, v2, had ? header(t2, nx, ny, mk) : mk); Run x = tool("fitstool", d, {"a.fits", "cpwcs", "out=b.fits"}); if (!good(x)) return; S ha = rimg(d + "/a.fits").hdr; Img o = rimg(d + "/b.fits"); size_t at; check(o.ok && samep(o.v, v2, 0, at) && kw(o.hdr, "MARK") == "5", "cpwcs-kept", ""); for (S k : {"CTYPE1", "CTYPE2", "CUNIT1", "CUNIT2"}) check(kw(o.hdr, k) == kw(ha, k), "cpwcs-text", k + " '" + kw(o.hdr, k) + "' expected '" + kw(ha, k) + "'"); for (S k : {"CRVAL1", "CRVAL2", "CRPIX1", "CRPIX2", "CD1_1", "CD1_2", "CD2_1", "CD2_2"}) { double p, q; checkf(isnum(kw(o.hdr, k), p) && isnum(kw(ha, k), q) && close(p, q, 1e-13, 1e-300), "cpwcs-number", [&]{ return k + " '" + kw(o.hdr, k) + "' expected '" + kw(ha, k) + "'"; }); } refused(tool("fitstool", d, {"a.fits", "cpwcs"}), "no output"); ev("cpwcs"); sig(fmt("w%d", (int)had)); }
    else { long nx = r.u(1, 5), ny = r.u(1, 5); size_t ex = r.u(0, 2); bool data = ex && r.b(0.25); V<long> n = {nx, ny}; for (size_t k = 0; k < ex; ++k) n.push_back(1); if (data) n.back() = 2; size_t t = 1; for (long q : n) t *= q; V<double> v = pixels(r, t); Tan tn = maketan(r, 1e-4); S h = header(tn, nx, ny); h.resize(h.size() - 80); for (size_t k = 0; k < ex; ++k) { card(h, fmt("CTYPE%zu", k + 3), S("'FREQ'")); card(h, fmt("CRVAL%zu", k + 3), (L)r.i(1, 9)); card(h, fmt("CRPIX%zu", k + 3), (L)1); card(h, fmt("CDELT%zu", k + 3), (L)1); } wimg(d + "/i.fits", n, v, h); S b = slurp(d + "/i.fits"); S before = rimg(d + "/i.fits").hdr; Run x = tool("fitstool", d, {"i.fits", "make2d"}); if (data) { refused(x, "dimensions with data"); check(slurp(d + "/i.fits") == b, "untouched", ""); return; } if (!good(x)) return; Img o = rimg(d + "/i.fits"); size_t at; checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, v, 0, at), "make2d", [&]{ return fmt("%zu axes", o.n.size()); }); kept(before, o.hdr, {"CTYPE1", "CRVAL1", "CRVAL2", "CD1_1", "CRPIX2"}, "make2d-kept"); for (S k : {"CTYPE3", "CRVAL3", "CRPIX4", "CDELT3"}) check(kw(o.hdr, k) == "<none>", "make2d-extra", k); ev(ex ? "make2d" : "make2d-nothing"); sig(fmt("m%zu", ex)); }
}
#endif

#if PART == 2
// ================================================================ sources: fits, subtraction, search, stacks
template<typename T> vec<1,T> tocol(const V<double>& v) { vec<1,T> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
struct Psf { L am, w; double at(long y, long x, L y0, L x0) const { L q = (y - y0)*(y - y0) + (x - x0)*(x - x0); return double(am*expl(-q/(2*w*w))); } S str() const { return fmt("gaussian,%.17Lg,%.17Lg", am, w); } };
static Psf mkpsf(Rng& r) { Psf p; p.am = (double)r.d(0.3, 4); p.w = (double)r.d(0.7, 3); return p; }
// numbers following a label in the output
static bool labelled(const S& out, const S& label, double& v, double& e) { size_t p = out.find(label); if (p == S::npos) return false; return sscanf(out.c_str() + p + label.size(), "%lf +/- %lf", &v, &e) == 2; }
static V<double> rcol(const S& f, const S& name) { V<double> v; vec1d t; if (exists(f)) { fits::input_table it(f); if (it.read_column(fits::missing, name, t)) v.assign(t.begin(), t.end()); } return v; }
SCEN(psffit, 40, 2500) { Rng& r = rng; S d = newdir(); long nx = r.u(2, 18), ny = r.u(2, 18); Psf p = mkpsf(r); double a0 = r.b() ? r.i(0, ny-1) : r.d(-1, ny), b0 = r.b() ? r.i(0, nx-1) : r.d(-1, nx); if (std::fabs(a0 - std::floor(a0) - 0.5) < 1e-3 || std::fabs(b0 - std::floor(b0) - 0.5) < 1e-3) return; long y0 = std::lround(a0), x0 = std::lround(b0); double f = r.d(-3, 10), bg = r.b(0.4) ? 0 : r.d(-2, 2); V<double> v(nx*ny), e(nx*ny, 1), m(nx*ny); bool werr = r.b(), nobg = r.b(0.4); double es = r.d(0.05, 1); for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) { size_t k = y*nx+x; m[k] = p.at(y, x, y0, x0); if (werr) e[k] = es*r.d(0.5, 2); v[k] = f*m[k] + bg + es*r.gauss(); if (r.b(0.03)) v[k] = dnan; if (werr && r.b(0.02)) e[k] = dnan; }
    wimg(d + "/i.fits", {nx, ny}, v); if (werr) wimg(d + "/e.fits", {nx, ny}, e); V<S> a = {"i.fits", fmt("%.9g", a0), fmt("%.9g", b0), "psf=" + p.str()};
    if (r.b(0.15)) { int w = r.i(0, 5); if (w == 0) { a[0] = "none.fits"; refused(tool("psffit", d, a), "missing image"); } else if (w == 1) { a[1 + r.i(0, 1)] = r.pick(V<S>{"abc", "1x", ""}); refused(tool("psffit", d, a), "unreadable position"); } else if (w == 2) { a[3] = r.pick(V<S>{"psf=", "psf=moffat,1,2", "psf=gaussian,1", "psf=gaussian,a,b", "psf=file,none.fits"}); refused(tool("psffit", d, a), "unusable PSF"); } else if (w == 3) { a.push_back("error=none.fits"); refused(tool("psffit", d, a), "missing error map"); } else if (w == 4) { a.resize(r.u(0, 2)); Run x = tool("psffit", d, a); check(!x.crash && x.out.size(), "usage", x.str()); } else { wimg(d + "/e2.fits", {nx + 1, ny}, V<double>((nx + 1)*ny, 1.0)); a.push_back("error=e2.fits"); refused(tool("psffit", d, a), "error map of another size"); } return; }
    int sel = r.i(0, 2); float rad = 0, frac = 1; if (werr) a.push_back("error=e.fits"); if (nobg) a.push_back("nobg"); if (sel == 1) { rad = (float)r.d(1.2, 9); a.push_back(fmt("radius=%.9g", rad)); } if (sel == 2) { frac = (float)r.d(0.2, 0.97); a.push_back(fmt("psf_frac=%.9g", frac)); } float fconv = 1; if (r.b(0.4)) { fconv = (float)r.d(0.1, 50); a.push_back(fmt("fconv=%.9g", fconv)); } bool save = r.b(), silent = r.b(0.3), res = r.b(); S rname = "r.fits"; if (res && r.b(0.3)) { a.push_back("residual"); rname = "i_res.fits"; } else if (res) a.push_back("residual=r.fits"); if (save) a.push_back("save"); if (silent) a.push_back("silent");
    double mx = 0; for (double t : m) mx = std::max(mx, t); L s11 = 0, s12 = 0, s22 = 0, t1 = 0, t2 = 0; size_t n = 0; bool edge = false; for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) { size_t k = y*nx+x; if (!std::isfinite(v[k]) || !std::isfinite(e[k])) continue; if (sel == 1) { double q = (y - y0)*(y - y0) + (x - x0)*(x - x0), z = (double)rad*rad; if (std::fabs(q - z) < 1e-5*z) edge = true; if (!(q < z)) continue; } if (sel == 2) { double z = (1.0 - frac)*mx; if (std::fabs(m[k] - z) < 1e-6*mx) edge = true; if (!(m[k] > z)) continue; } L w = 1/((L)e[k]*e[k]); s11 += w; s12 += w*m[k]; s22 += w*m[k]*m[k]; t1 += w*v[k]; t2 += w*v[k]*m[k]; ++n; } if (edge || n < 4) return; L det = s11*s22 - s12*s12; if (!(nobg ? s22 > 1e-12L : det > 1e-6L*s11*s22)) return;
    L fl = nobg ? t2/s22 : (s11*t2 - s12*t1)/det, fe = nobg ? 1/sqrtl(s22) : sqrtl(s11/det), b = nobg ? 0 : (s22*t1 - s12*t2)/det, be = nobg ? 0 : sqrtl(s22/det); Run x = tool("psffit", d, a); if (!good(x)) return; double tolf = 1e-6*(fe + fabsl(fl)), gf, ge;
    if (!silent) { checkf(labelled(x.out, "flux: ", gf, ge) && std::fabs(gf - (double)(fl*fconv)) <= 1e-5*std::fabs(gf) + tolf*fconv && std::fabs(ge - (double)(fe*fconv)) <= 1e-5*ge, "psffit-flux", [&]{ return fmt("expected %.9Lg +/- %.9Lg: ", fl*fconv, fe*fconv) + x.str(); }); if (!nobg) checkf(labelled(x.out, "background: ", gf, ge) && std::fabs(gf - (double)b) <= 1e-5*std::fabs(gf) + 1e-6*(be + fabsl(b)) && std::fabs(ge - (double)be) <= 1e-5*ge, "psffit-background", [&]{ return fmt("expected %.9Lg +/- %.9Lg: ", b, be) + x.str(); }); }
    if (save) { V<double> cf = rcol(d + "/i_flx.fits", "FLUX"), ce = rcol(d + "/i_flx.fits", "FLUX_ERR"); checkf(cf.size() == 1 && ce.size() == 1 && std::fabs(cf[0] - (double)(fl*fconv)) <= tolf*fconv && std::fabs(ce[0] - (double)(fe*fconv)) <= 1e-6*fe*fconv, "psffit-saved", [&]{ return fmt("expected %.9Lg +/- %.9Lg", fl*fconv, fe*fconv); }); if (!nobg && fconv == 1) { V<double> cb = rcol(d + "/i_flx.fits", "BG"), cbe = rcol(d + "/i_flx.fits", "BG_ERR"); check(cb.size() == 1 && cbe.size() == 1 && std::fabs(cb[0] - (double)b) <= 1e-6*(be + fabsl(b)) && std::fabs(cbe[0] - (double)be) <= 1e-6*be, "psffit-saved-background", ""); } ev("saved"); } else check(!exists(d + "/i_flx.fits"), "not-asked", "");
    if (res) { Img o = rimg(d + "/" + rname); V<double> want(v.size()); for (size_t k = 0; k < v.size(); ++k) want[k] = v[k] - (double)fl*m[k]; size_t at = 0; checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, want, tolf*mx + 1e-12, at), "psffit-residual", [&]{ return fmt("pixel %zu", at); }); ev("residual"); }
    ev(nobg ? "without-background" : "with-background"); ev(fmt("pixels-%d", sel)); sig(fmt("%d%d%d%ld%ld", sel, (int)nobg, (int)werr, nx/4, ny/4));
}
SCEN(subsrc, 40, 2500) { Rng& r = rng; S d = newdir(); long nx = r.u(2, 20), ny = r.u(2, 20); double scale = r.pick(V<double>{0.3, 1, 5})/3600; Tan t = maketan(r, scale); V<S> ks; S more = keys(r, ks); V<double> v = pixels(r, nx*ny); if (r.b(0.2)) v[r.u(0, v.size() - 1)] = dnan; wimg(d + "/i.fits", {nx, ny}, v, header(t, nx, ny, more)); S before = rimg(d + "/i.fits").hdr; Psf p = mkpsf(r); size_t n = r.u(1, 6); V<double> ra(n), dec(n), fl(n); V<L> px(n), py(n); V<bool> use(n, true); bool asc = r.b(0.35); for (size_t k = 0; k < n; ++k) { L x = r.d(-3, nx + 3), y = r.d(-3, ny + 3), a, b; t.sky(x + 1, y + 1, a, b); ra[k] = a; dec[k] = b; t.img(ra[k], dec[k], px[k], py[k]); fl[k] = (float)r.d(0.2, 20); if (!asc && r.b(0.15)) { fl[k] = r.pick(V<double>{0, -2, dnan, dinf}); use[k] = false; } if (r.b(0.08)) { ra[k] = (double)t.val[0] + 180; if (ra[k] >= 360) ra[k] -= 360; dec[k] = -(double)t.val[1]; use[k] = false; ev("unprojected"); } else if (!asc && r.b(0.06)) { (r.b() ? ra : dec)[k] = dnan; use[k] = false; ev("unprojected"); } }
    V<S> a = {"i.fits", asc ? "c.cat" : "c.fits", "psf=" + p.str()}; double fc = 1; if (r.b(0.4)) { fc = (double)r.d(0.2, 9); a.push_back(fmt("fconv=%.17g", fc)); } bool two = !asc && r.b(0.4), bad = false; S why;
    if (asc) { S s = r.b(0.3) ? "# ra dec flux\n" : ""; for (size_t k = 0; k < n; ++k) s += fmt("%.15g %.15g %.9g\n", ra[k], dec[k], fl[k]); spit(d + "/c.cat", s); }
    else { ::unlink((d + "/c.fits").c_str()); { fits::output_table o(d + "/c.fits"); S pre = r.b(0.3) ? "POS." : ""; o.write_column(pre + "RA", tov(ra)); o.write_column(pre + "DEC", tov(dec)); V<double> ids(n); bool wid = r.b(0.6); for (size_t k = 0; k < n; ++k) ids[k] = wid ? 10 + k*3 : k; if (wid) o.write_column("ID", tocol<int_t>(ids)); if (two) { size_t nb = r.u(1, 3), w = r.u(0, nb - 1); vec2f q(n, nb); for (size_t k = 0; k < n; ++k) for (size_t b = 0; b < nb; ++b) q(k, b) = b == w ? (float)fl[k] : (float)r.d(0.1, 9); o.write_column("FLUX", q); vec1s bs, ns; for (size_t b = 0; b < nb; ++b) { bs.push_back(fmt("band%zu", b)); ns.push_back(fmt("note%zu", 9 - b)); } int m = r.i(0, 3); if (nb == 1 && r.b()) m = 4; if (m < 3) { o.write_column("BANDS", bs); o.write_column("NOTES", ns); } else if (m == 3) o.write_column("BANDS", bs); if (m == 0 || m == 3) a.push_back(fmt("bands=band%zu", w)); else if (m == 1) a.push_back(fmt("notes=note%zu", 9 - w)); else if (m == 2) a.push_back(fmt("bands_notes=band%zu note%zu", w, 9 - w)); if (m == 0 && r.b(0.1)) { a.back() = "bands=other"; bad = true; why = "unknown band"; } else if (m == 0 && nb > 1 && r.b(0.1)) { a.back() = "bands=band"; bad = true; why = "several bands"; } ev("bands"); } else o.write_column("FLUX", tocol<float>(fl)); if (r.b(0.4)) { bool inc = r.b(); S l; V<bool> in(n); for (size_t k = 0; k < n; ++k) { in[k] = r.b(); if (in[k]) l += fmt("%s%d", l.empty() ? "" : ",", (int)ids[k]); } if (l.size()) { a.push_back((inc ? "include=[" : "exclude=[") + l + "]"); for (size_t k = 0; k < n; ++k) if (in[k] != inc) use[k] = false; ev("selected"); } } } }
    if (!bad && r.b(0.12)) { bad = true; int w = r.i(0, 2); if (w == 0) { a[0] = "none.fits"; why = "missing image"; } else if (w == 1) { a[1] = asc ? "none.cat" : "none.fits"; why = "missing catalog"; } else if (w == 2) { a[2] = r.pick(V<S>{"psf=", "psf=moffat", "psf=gaussian,1"}); size_t nu = 0; for (bool u : use) nu += u; if (!nu) return; why = "unusable PSF"; } }
    bool def = r.b(0.4), reg = r.b(0.4); if (!def) a.push_back("out=o.fits"); if (reg) a.push_back("reg=l.txt"); Run x = tool("subsrc", d, a); if (bad) { refused(x, why); check(!exists(d + "/o.fits") && !exists(d + "/i_res.fits"), "output-of-failure", ""); return; } if (!good(x)) return; V<double> want = v; double sc = 0; for (size_t k = 0; k < n; ++k) if (use[k]) { sc += fl[k]/fc*(double)p.am; for (long y = 0; y < ny; ++y) for (long q = 0; q < nx; ++q) want[y*nx+q] -= p.at(y, q, py[k] - 1, px[k] - 1)*(float)fl[k]/fc; ev("subtracted"); } Img o = rimg(d + (def ? "/i_res.fits" : "/o.fits")); size_t at = 0; checkf(o.ok && o.n == V<long>({nx, ny}) && samep(o.v, want, 2e-5*sc + 1e-9, at), "subsrc", [&]{ return fmt("pixel %zu: %g expected %g (%zu sources)", at, at < o.v.size() ? o.v[at] : 0, at < want.size() ? want[at] : 0, n) + x.str(); }); ks.push_back("CRVAL1"); ks.push_back("CD1_1"); kept(before, o.hdr, ks, "subsrc-header");
    if (reg) { V<S> l = lines(slurp(d + "/l.txt")); V<size_t> id; for (size_t k = 0; k < n; ++k) if (use[k]) id.push_back(k); bool g = l.size() == id.size(); for (size_t k = 0; g && k < id.size(); ++k) { V<S> w = words(l[k]); double ga, gd; g = w.size() == 2 && isnum(w[0], ga) && isnum(w[1], gd) && angd(ga, gd, ra[id[k]], dec[id[k]]) < 1e-4; } check(g, "subsrc-positions", slurp(d + "/l.txt")); ev("positions"); } sig(fmt("%d%d%zu%ld", (int)asc, (int)two, n, nx/5));
}
SCEN(findsrc, 40, 2500) { Rng& r = rng; S d = newdir(); size_t n = r.u(1, 30); double ra0 = r.b(0.2) ? 0.0 : r.d(0, 360), de0 = r.d(-80, 80), sp = r.pick(V<double>{1, 30, 600})/3600; V<double> ra(n), dec(n), flx(n); V<long> ix(n); for (size_t k = 0; k < n; ++k) { ra[k] = ra0 + r.d(-1, 1)*sp/std::cos(de0*dpi/180); if (ra[k] < 0) ra[k] += 360; if (ra[k] >= 360) ra[k] -= 360; dec[k] = de0 + r.d(-1, 1)*sp; flx[k] = r.i(-99, 99)*0.25; ix[k] = r.i(0, 9999); } size_t nf = 0; for (size_t k = 0; k < n; ++k) nf += std::isfinite(ra[k]) && std::isfinite(dec[k]); if (!nf) return; int nm = r.i(0, 2); S rn = nm == 0 ? "RA" : nm == 1 ? "POS.RA" : "ALPHA", dn = nm == 0 ? "DEC" : nm == 1 ? "POS.DEC" : "DELTA"; { fits::output_table o(d + "/c.fits"); o.write_column(rn, tov(ra)); o.write_column(dn, tov(dec)); o.write_column("FLUX", tov(flx)); V<double> q(ix.begin(), ix.end()); o.write_column("NUM", tocol<int_t>(q)); }
    int mode = r.i(0, 3); double ta, td; V<size_t> ids; V<S> a = {"c.fits"}; if (mode <= 1) { ta = ra0 + r.d(-1, 1)*sp; if (ta < 0) ta += 360; if (ta >= 360) ta -= 360; td = de0 + r.d(-1, 1)*sp; if (mode == 0) { a.push_back(fmt("%.15g", ta)); a.push_back(fmt("%.15g", td)); } else { double h = ta/15; int hh = (int)h, mm = (int)((h - hh)*60); double ss = ((h - hh)*60 - mm)*60; double ad = std::fabs(td); int dd = (int)ad, dm = (int)((ad - dd)*60); double ds = ((ad - dd)*60 - dm)*60; a.push_back(fmt("%02d:%02d:%.9f", hh, mm, ss)); a.push_back(fmt("%s%02d:%02d:%.9f", td < 0 ? "-" : "+", dd, dm, ds)); ev("sexagesimal-search"); } } else if (mode == 2) { size_t k = r.u(0, n - 1); if (!(std::isfinite(ra[k]) && std::isfinite(dec[k]))) return; ids.push_back(k); ta = ra[k]; td = dec[k]; a.push_back("id"); a.push_back(fmt(r.b() ? "%zu" : "[%zu]", k)); } else { size_t m = r.u(2, 5); S l; for (size_t k = 0; k < m; ++k) { ids.push_back(r.u(0, n - 1)); l += fmt("%s%zu", k ? "," : "", ids[k]); } a.push_back("id"); a.push_back("[" + l + "]"); }
    if (nm == 2) { a.push_back("ra=ALPHA"); a.push_back("dec=DELTA"); } bool bad = false; S why; if (r.b(0.15)) { bad = true; int w = r.i(0, 5); if (w == 0) { a[0] = "none.fits"; why = "missing catalog"; } else if (w == 1) { if (mode > 1) { a[2] = r.pick(V<S>{"abc", "[1,x]", ""}); } else { a[1 + r.i(0, 1)] = mode == 1 ? "1:2x:3" : "abc"; } why = "unreadable target"; } else if (w == 2) { if (mode < 2) return; a[2] = mode == 2 ? fmt("%zu", n + r.u(0, 5)) : fmt("[0,%zu]", n + r.u(0, 5)); why = "identifier that does not exist"; } else if (w == 3) { a.push_back(r.b() ? "ra=NONE" : "dec=NONE"); if (nm == 2) { a.erase(a.end() - 3, a.end() - 1); } why = "only one coordinate"; } else if (w == 4) { if (nm == 2) { a.pop_back(); a.pop_back(); why = "no standard position"; } else { a.push_back("ra=NONE"); a.push_back("dec=NONE"); why = "unknown columns"; } } else { a.resize(r.u(0, 2)); Run x = tool("findsrc", d, a); check(!x.crash && x.out.size(), "usage", x.str()); return; } refused(tool("findsrc", d, a), why); return; }
    size_t ns = 10; if (r.b(0.6)) { ns = r.u(1, 20); a.push_back(fmt("nsrc=%zu", ns)); } V<S> show; if (r.b()) { S l; if (r.b()) { show.push_back("FLUX"); l = "FLUX"; } if (r.b()) { show.push_back("NUM"); l += l.size() ? ",NUM" : "NUM"; } if (r.b(0.2)) l += l.size() ? ",NONE" : "NONE"; if (l.size()) a.push_back("show=[" + l + "]"); } bool reg = r.b(), rt = false; if (reg) { a.push_back("region=r.reg"); if ((rt = r.b())) a.push_back("region_text=FLUX"); }
    Run x = tool("findsrc", d, a); if (!good(x)) return; struct Row { double dist; size_t id; S rest; }; V<Row> got; for (auto& l : lines(x.out)) { size_t i, id; double q; int used = 0; char c; if (sscanf(l.c_str(), "%zu: %lf\", id=%zu%n", &i, &q, &id, &used) == 3) { if (!check(i == got.size(), "findsrc-rank", l)) return; got.push_back({q, id, l.substr(used)}); } (void)c; }
    if (mode == 3) { bool g = got.size() == ids.size(); for (size_t k = 0; g && k < ids.size(); ++k) g = got[k].id == ids[k]; checkf(g, "findsrc-listed", [&]{ return x.str(); }); ev("listed"); } else { V<std::pair<L,size_t>> o; for (size_t k = 0; k < n; ++k) if (std::isfinite(ra[k]) && std::isfinite(dec[k])) o.push_back({angd(ta, td, ra[k], dec[k]), k}); std::sort(o.begin(), o.end()); size_t m = std::min(ns, o.size()); if (!checkf(got.size() == m, "findsrc-number", [&]{ return fmt("%zu sources, expected %zu: ", got.size(), m) + x.str(); })) return; std::set<size_t> seen; for (size_t k = 0; k < m; ++k) { size_t id = got[k].id; L q = id < n ? angd(ta, td, ra[id], dec[id]) : -1; checkf(id < n && seen.insert(id).second && fabsl(q - o[k].first) <= 1e-6L*o[k].first + 1e-6L && std::fabs(got[k].dist - (double)q) <= 1e-4*q + 1e-5, "findsrc-nearest", [&]{ return fmt("rank %zu: source %zu at %g, expected %zu at %Lg (%Lg): ", k, id, got[k].dist, o[k].second, o[k].first, q) + x.str(); }); } ev("searched"); if (m < ns) ev("fewer-than-asked"); }
    for (auto& w : got) { if (w.id >= n) return; S want; for (auto& s : show) want += ", " + s + "=" + (s == "FLUX" ? fmt("%g", flx[w.id]) : fmt("%ld", ix[w.id])); checkf(w.rest == want, "findsrc-shown", [&]{ return "'" + w.rest + "' expected '" + want + "'"; }); }
    if (reg) { V<S> l; for (auto& t : lines(slurp(d + "/r.reg"))) if (t.substr(0, 7) == "circle(") l.push_back(t); if (!checkf(l.size() == got.size(), "findsrc-region", [&]{ return slurp(d + "/r.reg"); })) return; for (size_t k = 0; k < l.size(); ++k) { if (!std::isfinite(ra[got[k].id]) || !std::isfinite(dec[got[k].id])) continue; int h, m, dd, dm; double s, ds; char sg = '+'; S t = l[k].substr(7); size_t c = t.find(','); bool neg = c != S::npos && t[c+1] == '-'; bool g = c != S::npos && sscanf(t.c_str(), "%d:%d:%lf", &h, &m, &s) == 3 && sscanf(t.c_str() + c + 1 + (t[c+1] == '-' || t[c+1] == '+'), "%d:%d:%lf", &dd, &dm, &ds) == 3; (void)sg; double gr = g ? (h + m/60.0 + s/3600)*15 : 0, gd = g ? (neg ? -1 : 1)*(dd + dm/60.0 + ds/3600) : 0; S txt = "text={" + (rt ? fmt("%g", flx[got[k].id]) : fmt("%zu", got[k].id)) + "}"; checkf(g && angd(gr, gd, ra[got[k].id], dec[got[k].id]) < 0.02 && l[k].find(txt) != S::npos, "findsrc-region-source", [&]{ return l[k] + fmt(" for %.9g %.9g ", ra[got[k].id], dec[got[k].id]) + txt; }); } ev("regions"); } sig(fmt("%d%d%zu", mode, nm, n));
}
SCEN(qstack2, 60, 3000) { Rng& r = rng; S d = newdir(); bool sub = r.b(0.25), fromcube = !sub && r.b(0.3), wtd = !sub && r.b(0.4), useerr = r.b(), med = r.b(0.35), keep = r.b(0.4), cubeout = r.b(0.3); size_t hs = sub ? r.u(7, 9) : r.u(0, 4), w = 2*hs + 1, n = sub ? r.u(1, 3) : r.u(1, 8); V<V<double>> cut, wht; V<double> ra, dec; V<S> a; long nx = 0, ny = 0; Tan t = maketan(r, 1.0/3600); Psf p; p.am = 3; p.w = 0.9; V<double> v, e; V<double> ox, oy; S cat;
    auto wval = [&]() { return r.d(0.3, 2); }; if (fromcube) { size_t nim = r.u(1, 2); S li, lw; for (size_t q = 0; q < nim; ++q) { size_t m = r.u(1, 5); V<double> c = pixels(r, m*w*w), g; if (r.b(0.3)) c[r.u(0, c.size() - 1)] = dnan; for (size_t k = 0; k < c.size(); ++k) { c[k] = (float)c[k]; g.push_back((float)wval()); } vec3f fc(m, w, w), fg(m, w, w); for (size_t k = 0; k < c.size(); ++k) { fc.safe[k] = c[k]; fg.safe[k] = g[k]; } fits::write(d + fmt("/c%zu.fits", q), fc); fits::write(d + fmt("/g%zu.fits", q), fg); for (size_t k = 0; k < m; ++k) { cut.push_back(V<double>(c.begin() + k*w*w, c.begin() + (k+1)*w*w)); wht.push_back(V<double>(g.begin() + k*w*w, g.begin() + (k+1)*w*w)); } li += fmt("%sc%zu.fits", q ? "," : "", q); lw += fmt("%sg%zu.fits", q ? "," : "", q); } a = {"img=[" + li + "]", "out=o.fits"}; if (wtd) a.push_back((useerr ? "err=[" : "wht=[") + lw + "]"); n = cut.size(); }
    else { nx = r.u(w, w + 14); ny = r.u(w, w + 14); v = pixels(r, nx*ny); e.resize(nx*ny); for (size_t k = 0; k < v.size(); ++k) { v[k] = sub ? 0 : (float)v[k]; e[k] = (float)wval(); } if (!sub && r.b(0.4)) v[r.u(0, v.size() - 1)] = dnan; if (!sub && r.b(0.2)) e[r.u(0, v.size() - 1)] = dnan; for (size_t k = 0; k < n; ++k) { L x, y; if (sub) { x = hs + 0.0L + r.u(0, nx - w); y = hs + 0.0L + r.u(0, ny - w); if (k) { x = ox[0]; y = oy[0]; } double fx = r.d(-0.42, 0.42), fy = r.d(-0.42, 0.42); if (k == 0) { ox.push_back((double)x + fx); oy.push_back((double)y + fy); } x = ox[0]; y = oy[0]; } else { x = r.d(-2 - (double)hs, nx + 1 + (double)hs); y = r.d(-2 - (double)hs, ny + 1 + (double)hs); if (fabsl(x - floorl(x) - 0.5L) < 0.01L || fabsl(y - floorl(y) - 0.5L) < 0.01L) { --k; continue; } } L al, de; t.sky(x + 1, y + 1, al, de); double da = al, dd = de; if (!sub && r.b(0.05)) { (r.b() ? da : dd) = dnan; } else if (!sub && r.b(0.04)) { da = (double)t.val[0] + 180; if (da >= 360) da -= 360; dd = -(double)t.val[1]; } ra.push_back(da); dec.push_back(dd); if (!sub) { ox.push_back((double)x); oy.push_back((double)y); if (std::isnan(da) || std::isnan(dd) || std::fabs(dd + (double)t.val[1]) < 1e-9) ox.back() = dnan; } } if (sub) for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) v[y*nx+x] = p.at(y, x, oy[0], ox[0]); wimg(d + "/i.fits", {nx, ny}, v, header(t, nx, ny)); wimg(d + "/g.fits", {nx, ny}, e, header(t, nx, ny)); bool asc = r.b(0.4); S pre; bool hasnan = false; for (size_t k = 0; k < n; ++k) hasnan = hasnan || std::isnan(ra[k]) || std::isnan(dec[k]); if (asc && !hasnan) { cat = "c.cat"; S s; for (size_t k = 0; k < n; ++k) s += fmt("%.15g %.15g\n", ra[k], dec[k]); spit(d + "/c.cat", s); } else { cat = "c.fits"; if (r.b(0.3)) pre = "pos"; fits::output_table o(d + "/c.fits"); o.write_column(pre.empty() ? "RA" : "POS.RA", tov(ra)); o.write_column(pre.empty() ? "DEC" : "POS.DEC", tov(dec)); } a = {"cat=" + cat, "img=i.fits", "out=o.fits", fmt("hsize=%zu", hs)}; if (pre.size()) a.push_back("pos=pos"); if (wtd) a.push_back(useerr ? "err=g.fits" : "wht=g.fits"); if (sub) a.push_back("subpixel"); }
    if (r.b(0.12)) { int q = r.i(0, 4); S why; if (q == 0) { for (auto& s : a) if (s.substr(0, 4) == "img=") s = "img=none.fits"; why = "missing image"; } else if (q == 1) { a.erase(std::find(a.begin(), a.end(), "out=o.fits")); why = "no output"; } else if (q == 2) { if (fromcube) return; for (auto& s : a) if (s.substr(0, 4) == "cat=") s = "cat=none.fits"; why = "missing catalog"; } else if (q == 3) { if (fromcube) return; a.erase(std::find(a.begin(), a.end(), fmt("hsize=%zu", hs))); why = "no size"; } else { a.push_back(r.pick(V<S>{fmt("ids=[0,%zu]", n), "ids=[0,x]", "ids=[0]", fmt("ids=[%zu,*]", n + 3)})); why = "bad range of identifiers"; } refused(tool("qstack2", d, a), why); check(!exists(d + "/o.fits"), "output-of-failure", ""); return; }
    size_t i0 = 0, i1 = n - 1; if (r.b(0.3)) { i0 = r.u(0, n - 1); i1 = r.u(i0, n - 1); S s0 = i0 == 0 && r.b() ? "*" : fmt("%zu", i0), s1 = i1 == n - 1 && r.b() ? "*" : fmt("%zu", i1); a.push_back("ids=[" + s0 + "," + s1 + "]"); ev("range"); } if (med) a.push_back("median"); else if (r.b()) a.push_back("mean"); if (keep) a.push_back("keepnan"); if (cubeout) a.push_back("cube"); bool bs = !cubeout && r.b(0.3); size_t nb = 0; if (bs) { nb = r.u(1, 5); a.push_back("bstrap"); a.push_back(fmt("nbstrap=%zu", nb)); a.push_back(fmt("sbstrap=%zu", (size_t)r.u(1, 4))); }
    bool weigh = wtd && !med; if (fromcube) { cut = V<V<double>>(cut.begin() + i0, cut.begin() + i1 + 1); wht = V<V<double>>(wht.begin() + i0, wht.begin() + i1 + 1); } else for (size_t k = i0; k <= i1 && !sub; ++k) { if (!std::isfinite(ox[k])) continue; long xc = std::lround(ox[k]), yc = std::lround(oy[k]); V<double> c, g; bool any = false, fin = true, wfin = true; for (long y = yc - (long)hs; y <= yc + (long)hs; ++y) for (long x = xc - (long)hs; x <= xc + (long)hs; ++x) { bool in = x >= 0 && y >= 0 && x < nx && y < ny; any = any || in; c.push_back(in ? v[y*nx+x] : dnan); g.push_back(in ? e[y*nx+x] : dnan); fin = fin && std::isfinite(c.back()); wfin = wfin && std::isfinite(g.back()); } if (!any || (!keep && !(fin && (!weigh || wfin)))) continue; if (weigh && !wfin) return; /* undefined weights */ cut.push_back(c); wht.push_back(g); }
    Run x = tool("qstack2", d, a); if (x.crash) return; if (sub) { if (!good(x)) return; Img o = rimg(d + "/o.fits"); size_t np = cubeout ? i1 - i0 + 1 : 1; if (!checkf(o.ok && o.v.size() == np*w*w, "qstack2-shape", [&]{ return x.str(); })) return; for (size_t q = 0; q < np; ++q) { L s = 0, sx = 0, sy = 0; for (size_t y = 0; y < w; ++y) for (size_t z = 0; z < w; ++z) { double u = o.v[q*w*w + y*w + z]; if (!std::isfinite(u)) continue; s += u; sx += u*z; sy += u*y; } checkf(std::fabs(sx/s - hs) < 0.03 && std::fabs(sy/s - hs) < 0.03, "qstack2-centered", [&]{ return fmt("source at (%g,%g) found at (%Lg,%Lg) of the cutout, expected (%zu,%zu)", ox[0], oy[0], sx/s, sy/s, hs, hs); }); } ev("subpixel"); sig(fmt("s%zu%zu", hs, n)); return; }
    if (cut.empty()) { ev("nothing"); return; } if (!good(x)) return; Img o = rimg(d + "/o.fits"); size_t np = cut.size(); if (cubeout) { V<double> want; for (auto& c : cut) want.insert(want.end(), c.begin(), c.end()); size_t at = 0; checkf(o.ok && o.n == V<long>({(long)w, (long)w, (long)np}) && samep(o.v, want, 0, at), "qstack2-cube", [&]{ return fmt("%zu cutouts, pixel %zu: ", np, at) + x.str(); }); ev("cubes"); sig(fmt("c%zu%zu", hs, np)); return; }
    if (!checkf(o.ok && o.n == V<long>({(long)w, (long)w}), "qstack2-shape", [&]{ return x.str(); })) return; V<double> lo(w*w, dinf), up(w*w, -dinf); for (size_t k = 0; k < w*w; ++k) { L s = 0, sw = 0; V<double> f; bool nan = false; double mg = 0; for (size_t q = 0; q < np; ++q) { double u = cut[q][k], g = weigh ? wht[q][k] : 1; if (weigh && useerr) g = 1/(g*g); s += (L)u*g; sw += g; if (std::isfinite(u)) f.push_back(u); else nan = true; mg = std::max(mg, std::fabs(u)); if (std::isfinite(u)) { lo[k] = std::min(lo[k], u); up[k] = std::max(up[k], u); } } double want; if (med) { std::sort(f.begin(), f.end()); size_t z = f.size(); want = z == 0 ? dnan : f[z/2]; } else want = nan ? dnan : double(s/sw); checkf((std::isnan(want) && std::isnan(o.v[k])) || std::fabs(o.v[k] - want) <= 2e-6*mg + 1e-7, "qstack2-stack", [&]{ return fmt("pixel %zu of %zu cutouts: %g expected %g (median %d, weights %d)", k, np, o.v[k], want, (int)med, (int)weigh); }); }
    ev(med ? "medians" : weigh ? "weighted-means" : "means"); if (bs) { Img b = rimg(d + "/o_bs.fits"); if (checkf(b.ok && b.n == V<long>({(long)w, (long)w, (long)nb}), "qstack2-bootstrap", [&]{ return x.str(); })) for (size_t k = 0; k < b.v.size(); ++k) checkf(std::isnan(b.v[k]) || (b.v[k] >= lo[k%(w*w)] - 1e-5 && b.v[k] <= up[k%(w*w)] + 1e-5), "qstack2-bootstrap-range", [&]{ return fmt("pixel %zu: %g not in [%g,%g]", k, b.v[k], lo[k%(w*w)], up[k%(w*w)]); }); ev("bootstraps"); } sig(fmt("%d%d%zu%zu", (int)med, (int)weigh, hs, np));
}
#endif
