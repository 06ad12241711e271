// Files that cannot be written completely: the size a file may reach is limited at an arbitrary byte while the
// library writes it. Either the failure is reported, or the file is byte for byte what it is without a limit.
#include "model.hpp"
#include <vif/astro/qxmatch.hpp>
#include <vif/astro/ds9.hpp>
#include <vif/astro/wcs.hpp>
#include <vif/astro/astro.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <functional>
using namespace vif;
using namespace vif::astro;
using namespace vh;
using S = std::string; template<typename T> using V = std::vector<T>;

// what CFITSIO itself reports: an error when writing, seeking or closing that the library receives must reach the caller
static int cfitsio_errors = 0, cfitsio_last = 0; static int seen(int s) { if (s == 103 || s == 105 || s == 106 || s == 107 || s == 108 || s == 110 || s == 116) { ++cfitsio_errors; cfitsio_last = s; } return s; }
#define WRAP(fn, params, args) extern "C" int __real_##fn params; extern "C" int __wrap_##fn params { return seen(__real_##fn args); }
WRAP(ffclos, (fitsfile* f, int* s), (f, s))
WRAP(ffflus, (fitsfile* f, int* s), (f, s))
WRAP(ffrdef, (fitsfile* f, int* s), (f, s))
WRAP(ffpcl, (fitsfile* f, int a, int b, LONGLONG c, LONGLONG d, LONGLONG e, void* g, int* s), (f, a, b, c, d, e, g, s))
WRAP(ffppr, (fitsfile* f, int a, LONGLONG b, LONGLONG c, void* d, int* s), (f, a, b, c, d, s))
WRAP(ffprec, (fitsfile* f, const char* a, int* s), (f, a, s))
WRAP(ffptdm, (fitsfile* f, int a, int b, long* c, int* s), (f, a, b, c, s))
WRAP(ffrsim, (fitsfile* f, int a, int b, long* c, int* s), (f, a, b, c, s))
WRAP(ffuky, (fitsfile* f, int a, const char* b, void* c, const char* d, int* s), (f, a, b, c, d, s))
WRAP(ffiimg, (fitsfile* f, int a, int b, long* c, int* s), (f, a, b, c, s))
WRAP(fficol, (fitsfile* f, int a, char* b, char* c, int* s), (f, a, b, c, s))
WRAP(ffmahd, (fitsfile* f, int a, int* b, int* s), (f, a, b, s))

static size_t fds() { DIR* p = opendir("/proc/self/fd"); size_t n = 0; while (readdir(p)) ++n; closedir(p); return n; }
static bool slurp(const S& f, S& o) { o.clear(); FILE* h = fopen(f.c_str(), "rb"); if (!h) return false; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h))) o.append(b, n); fclose(h); return true; }
static void spit(const S& f, const S& c) { FILE* h = fopen(f.c_str(), "wb"); if (!h) return; fwrite(c.data(), 1, c.size(), h); fclose(h); }
// while it exists, files cannot grow beyond n bytes
struct Limit { struct rlimit old; explicit Limit(size_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); struct rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); } void lift() { setrlimit(RLIMIT_FSIZE, &old); } ~Limit() { lift(); } };
template<typename F> Outcome guarded_fd(F&& f) { int base = ::open("/dev/null", O_RDONLY); ::close(base); Outcome o = guarded(f); if (o.rejected()) for (int k = base; k < base + 16; ++k) ::close(k); return o; }

// op(path): true if it claims that everything went well. base: previous content of the file, if any
static void attempt(Rng& r, const S& name, const std::function<bool(const S&)>& op, const S* base, size_t block, bool special) {
    S f = st().scratch + "/out.dat", ref, got; auto prepare = [&]() { if (base) spit(f, *base); else ::unlink(f.c_str()); }; bool ok = false; prepare(); vh::note(name);
    Outcome o = guarded_fd([&]() { ok = op(f); }); if (!check(o.ok() && ok, "refused:" + name, o.str())) return; if (!check(slurp(f, ref) && !ref.empty(), "no-file:" + name, "")) return;
    size_t nfd = fds(), n = r.u(2, 4); for (size_t k = 0; k < n; ++k) { size_t lim; int how = r.i(0, 5); if (how == 0) lim = 0; else if (how == 1) lim = r.u(1, 200); else if (how == 2) lim = ref.size() - std::min(ref.size(), (size_t)r.u(1, 3)); else if (how == 3) lim = (r.u(0, ref.size())/block)*block; else if (how == 4) lim = 2*ref.size() + 300000; else lim = r.u(0, ref.size());
        prepare(); ok = false; o.kind = returned; cfitsio_errors = 0; { Limit l(lim); o = guarded_fd([&]() { ok = op(f); }); l.lift(); } bool said = !o.ok() || !ok; vh::note(name + fmt(" %zu bytes, limit %zu, ", ref.size(), lim) + o.str() + (ok ? " success" : " failure")); slurp(f, got);
        if (how == 4) { check(!said && got == ref, "failed-without-fault:" + name, o.str()); ev("enough-space"); continue; }
        if (said) { ev("reported"); if (o.ok()) ev("reported-by-value"); else ev(o.rejected() ? "reported-by-diagnostic" : "reported-by-exception"); } else if (block == 2880 && got != ref && !cfitsio_errors) ev("not-seen-by-cfitsio"); else { ev("completed"); if (block == 2880) check(!cfitsio_errors, "error-lost:" + name, fmt("CFITSIO reported %d errors (status %d), the operation ended normally", cfitsio_errors, cfitsio_last)); checkf(got == ref, "silently-cut:" + name, [&]{ size_t p = 0; while (p < got.size() && p < ref.size() && got[p] == ref[p]) ++p; return fmt("%zu bytes on disk, first difference at %zu, expected %zu bytes; the limit was %zu", got.size(), p, ref.size(), lim); }); } sig(name + fmt(" %d %zu %d", how, lim/std::max<size_t>(1, ref.size()/16), (int)said)); }
    // the library works afterwards, and holds no file
    prepare(); ok = false; o = guarded_fd([&]() { ok = op(f); }); check(o.ok() && ok && slurp(f, got) && got == ref, "broken-afterwards:" + name, o.str()); check(fds() <= nfd, "file-left-open:" + name, fmt("%zu descriptors, %zu before", fds(), nfd)); ::unlink(f.c_str());
    // places where no file can be created, and a device without space
    S dir = st().scratch + "/adir"; ::unlink(dir.c_str()); ::mkdir(dir.c_str(), 0755); spit(dir + "/x", "x"); for (const S& bad : {st().scratch + "/no/such/dir/f.dat", dir}) { if (base && bad != dir) continue; ok = false; o = guarded_fd([&]() { ok = op(bad); }); check(!o.ok() || !ok, "uncreatable-accepted:" + name, bad == dir ? "a directory" : "a missing directory"); ev("uncreatable"); } ::unlink((dir + "/x").c_str()); ::rmdir(dir.c_str());
    if (special) { ok = false; o = guarded_fd([&]() { ok = op("/dev/full"); }); check(!o.ok() || !ok, "full-device-accepted:" + name, ""); ev("full-device"); }
}
static S words(Rng& r, size_t n) { S o; for (size_t i = 0; i < n; ++i) o.push_back((char)r.u('a', 'z')); return o; }

SCEN(text, 120, 6000) { Rng& r = rng;
    size_t n = r.b(0.3) ? r.u(1, 5) : r.b(0.7) ? r.u(1, 300) : r.u(300, 6000); vec1d x(n), y(n); vec1s s(n); for (auto& t : x) t = r.d(-1e5, 1e5); for (auto& t : y) t = r.d(0, 1); for (auto& t : s) t = words(r, r.u(1, 9)); int kind = r.i(0, 6);
    if (kind == 0) { bool csv = r.b(), hd = r.b(); attempt(r, csv ? "csv-table" : "text-table", [&](const S& f) { ascii::output_format o = csv ? ascii::output_format::csv() : ascii::output_format::standard(); if (hd) o.header = {"x", "y", "s"}; ascii::write_table(f, o, x, y, s); return true; }, nullptr, 512, true); }
    else if (kind == 1) { S src = st().scratch + "/src.dat"; S c; for (size_t i = 0; i < n*8; ++i) c.push_back((char)r.u(0, 255)); spit(src, c); attempt(r, "copy", [&](const S& f) { return file::copy(src, f); }, nullptr, 512, true); ::unlink(src.c_str()); }
    else if (kind == 2 || kind == 3) { vec<1,ds9::region> regs; for (size_t i = 0; i < std::min<size_t>(n, 200); ++i) { ds9::region g; g.physical = kind == 2; g.type = r.b() ? "circle" : "box"; g.params = {r.d(150, 151), r.d(1, 2), r.d(1, 5)}; if (g.type == "box") { g.params.push_back(r.d(1, 5)); g.params.push_back(r.d(0, 90)); } regs.push_back(g); }
        if (kind == 2 && r.b()) attempt(r, "regions-physical", [&](const S& f) { ds9::write_regions_physical(f, regs); return true; }, nullptr, 512, true); else { astro::make_wcs_header_params p; p.pixel_scale = 0.2; p.sky_ref_ra = 150.5; p.sky_ref_dec = 1.5; p.pixel_ref_x = 10; p.pixel_ref_y = 10; p.dims_x = 20; p.dims_y = 20; fits::header h; if (!make_wcs_header(p, h)) return; wcs w(h); bool ph = r.b(); attempt(r, ph ? "regions-to-physical" : "regions-to-sky", [&](const S& f) { if (ph) ds9::write_regions_physical(f, regs, w); else ds9::write_regions_wcs(f, regs, w); return true; }, nullptr, 512, true); } }
    else if (kind == 4) { V<S> a = {"prog"}; for (size_t i = 0; i < std::min<size_t>(n, 100); ++i) a.push_back(words(r, r.u(1, 20))); V<char*> av; for (auto& t : a) av.push_back(&t[0]); attempt(r, "arguments", [&](const S& f) { save_args(f, "prog", (int)av.size(), av.data()); return true; }, nullptr, 512, true); }
    else if (kind == 5) attempt(r, "positions", [&](const S& f) { print_radec(f, x, y); return true; }, nullptr, 512, true);
    else { // the coordinates written are those given
        S f = st().scratch + "/radec.txt"; print_radec(f, x, y); vec1d a, b; ascii::read_table(f, a, b); bool ok = a.size() == n && b.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = std::fabs(a[i] - x[i]) < 1e-9*std::fabs(x[i]) + 1e-9 && std::fabs(b[i] - y[i]) < 1e-9; check(ok, "positions-written", ""); ev("positions"); }
}
SCEN(fitsfiles, 120, 6000) { Rng& r = rng;
    size_t n = r.b(0.4) ? r.u(1, 50) : r.b(0.7) ? r.u(50, 3000) : r.u(3000, 40000); vec1d x(n); vec1f y(n); vec1i z(n); vec1s s(n); for (size_t i = 0; i < n; ++i) { x[i] = r.d(-1, 1); y[i] = (float)r.d(-1, 1); z[i] = (int)r.i(-1000, 1000); s[i] = words(r, r.u(1, 6)); } vec2d im(r.u(1, 40), r.u(1, 200)); for (auto& t : im) t = r.gauss(); fits::header h; for (size_t i = 0; i < r.u(0, 60); ++i) h = fits::setkey(h, fmt("KEY%zu", i), (double)i), (void)0; int kind = r.i(0, 9); S base;
    auto prior = [&](const std::function<void(const S&)>& w) { S f = st().scratch + "/base.fits"; ::unlink(f.c_str()); w(f); slurp(f, base); ::unlink(f.c_str()); };
    if (kind == 0) attempt(r, "image", [&](const S& f) { fits::write(f, im); return true; }, nullptr, 2880, false);
    else if (kind == 1) attempt(r, "image-header", [&](const S& f) { fits::write(f, x, h); return true; }, nullptr, 2880, false);
    else if (kind == 2) attempt(r, "table", [&](const S& f) { if (n % 2) fits::write_table(f, "X", x, "S", s, "Z", z); else fits::write_table(f, ftable(x, y, s)); return true; }, nullptr, 2880, false);
    else if (kind == 3) attempt(r, "image-closed", [&](const S& f) { fits::output_image o(f); o.write(im); if (n % 3 == 0) { o.reach_hdu(1); o.write(x); } o.write_keyword("ABC", 3.0); o.close(); return o.cfitsio_status() == 0; }, nullptr, 2880, false);
    else if (kind == 4) attempt(r, "image-flushed", [&](const S& f) { fits::output_image o(f); o.write(im); o.write_keyword("ABC", 3.0); o.flush(); return true; }, nullptr, 2880, false);
    else if (kind == 5) attempt(r, "table-closed", [&](const S& f) { fits::output_table o(f); if (n % 2) o.set_format(fits::table_format::row_oriented); o.write_column("A", x); o.write_column("B", s); o.write_keyword("ABC", 3.0); o.close(); return o.cfitsio_status() == 0; }, nullptr, 2880, false);
    else if (kind == 6) { prior([&](const S& f) { fits::write_table(f, "X", x, "S", s); }); attempt(r, "table-update", [&](const S& f) { fits::update_table(f, "Z", z, "X", vec1d(2*x)); return true; }, &base, 2880, false); }
    else if (kind == 7) { prior([&](const S& f) { fits::write(f, im); }); attempt(r, "hdu-update", [&](const S& f) { fits::update_hdu(f, vec2d(3*im), 0); return true; }, &base, 2880, false); }
    else if (kind == 8) { prior([&](const S& f) { fits::write(f, im); }); attempt(r, "keywords-update", [&](const S& f) { fits::image g(f); for (size_t i = 0; i < 1 + n % 90; ++i) g.write_keyword(fmt("KW%zu", i), (double)i); g.update(vec2d(im + 1)); g.flush(); return true; }, &base, 2880, false); }
    else { qxmatch_res q; q.id = vec2u(1, n); q.d = vec2d(1, n); q.rid = vec1u(n); q.rd = vec1d(n); for (size_t i = 0; i < n; ++i) { q.id[i] = i; q.d[i] = x[i]; q.rid[i] = n - i; q.rd[i] = y[i]; } attempt(r, "matches", [&](const S& f) { qxmatch_save(f, q); return true; }, nullptr, 2880, false); }
}
