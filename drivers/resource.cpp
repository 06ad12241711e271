// Memory, file descriptors and threads held before and after repeated operations (successful and failing ones).
#include "model.hpp"
#include <vif/math/mpfit.hpp>
#include <vif/astro/qstack.hpp>
#include <vif/astro/qxmatch.hpp>
#include <vif/astro/ds9.hpp>
#include <vif/astro/template_fit.hpp>
#include <vif/math/optimize.hpp>
#include <vif/astro/wcs.hpp>
#include <vif/astro/image.hpp>
#include <vif/astro/astro.hpp>
#include <dirent.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <chrono>
using namespace vif;
using namespace vif::astro;
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
using S = std::string;

size_t entries(const char* d) { DIR* p = opendir(d); size_t n = 0; while (readdir(p)) ++n; closedir(p); return n; }
struct Held { long mem, fds, threads; };
Held held() {
    // an ended thread may stay listed for an instant after it was joined
    Held h; h.fds = entries("/proc/self/fd"); h.threads = entries("/proc/self/task"); h.mem = (long)__sanitizer_get_current_allocated_bytes(); return h;
}
// Repeats an operation: what is held may not grow with every repetition.
template<typename F> void steady(const S& name, F&& f) {
    vh::note(name); size_t thrown = 0; auto one = [&]() { try { f(); } catch (std::exception& e) { ++thrown; } };
    const int reps = 4; one(); one(); Held a = held(); for (int k = 0; k < reps; ++k) one(); Held b = held();
    bool grew = b.mem > a.mem || b.fds > a.fds || b.threads > a.threads;
    if (grew) {
        // growth must be confirmed twice: caches and buffers may grow once
        long dm = 0, df = 0, dt = 0; bool m = true, d = true, t = true; Held p = held(); for (int r = 0; r < 3; ++r) { for (int k = 0; k < reps; ++k) one(); std::this_thread::sleep_for(std::chrono::milliseconds(2)); Held q = held(); m = m && q.mem > p.mem; d = d && q.fds > p.fds; t = t && q.threads > p.threads; dm = q.mem - p.mem; df = q.fds - p.fds; dt = q.threads - p.threads; p = q; }
        vh::check(!m, "memory-kept:" + name, fmt("%ld bytes more after each %d repetitions", dm, reps));
        vh::check(!d, "files-left-open:" + name, fmt("%ld more file descriptors after each %d repetitions", df, reps));
        vh::check(!t, "threads-left:" + name, fmt("%ld more threads after each %d repetitions", dt, reps));
    } else vh::check(true, "steady", "");
    ev("op:" + name); if (thrown) ev("failing-op"); sig(name);
}
vec1d rd(Rng& r, size_t n, double a = -5, double b = 5) { vec1d v(n); for (auto& x : v) x = r.d(a, b); return v; }
vec2d rd2(Rng& r, size_t n, size_t m, double a = -5, double b = 5) { vec2d v(n, m); for (auto& x : v) x = r.d(a, b); return v; }
vec1u rperm(Rng& r, size_t n) { std::vector<size_t> p(n); for (size_t k = 0; k < n; ++k) p[k] = k; r.shuffle(p); vec1u v(n); for (size_t k = 0; k < n; ++k) v[k] = p[k]; return v; }
struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Quiet { Null o; std::streambuf *e, *c; Quiet() { e = std::cerr.rdbuf(&o); c = std::cout.rdbuf(&o); } ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(c); } };
void spit(const S& f, const S& t) { std::ofstream o(f, std::ios::binary); o << t; }

#if PART == 0
SCEN(vectors, 40, 800) {
    size_t n = rng.u(1, 40), m = rng.u(1, 6); vec1d v = rd(rng, n); vec2d w = rd2(rng, n, m); vec1u id = rperm(rng, n);
    steady("vector views", [&]() { vec1d a = v; a[id] = a[id]*2.0; vec2d b = w; b(_,0) = v; b(id,_) += b; auto c = b(0,_); a = a[where(a > 0)]; std::vector<double> s(v.begin(), v.end()); });
    steady("vector growth", [&]() { vec1s s; for (size_t k = 0; k < n; ++k) s.push_back(to_string(v[k])); vec1s t = std::move(s); s = t; append(t, s); prepend(t, t); inplace_remove(t, {0}); t.resize(3); t.clear(); vec2d b = w; append<0>(b, w); append<1>(b, b); });
    steady("vector generic", [&]() { vec1u s = sort(v); vec1u a, b; match(id, s, a, b); auto u = unique_values(id); auto h = histogram(v, make_bins(-5, 5, 5)); auto x = flatten(w); auto y = reform(w, m, n); auto z = replicate(v, 3); auto sh = shift(v, 2); auto r = reverse(v); auto c = set_union(id, s); });
    steady("vector statistics", [&]() { auto a = median(v) + mean(v) + rms(v) + percentile(v, 0.2); auto b = partial_median(0, w); auto c = partial_mean(1, w); run_dim(1, w, [](uint_t i, vec1d q) { return total(q); }); auto i = cumul(v); });
    size_t k0 = rng.u(1, n*m); auto boom = [&]() { throw std::runtime_error("no"); };
    steady("user functions that throw", [&]() { size_t k = 0; switch (rng.u(0, 5)) {
        case 0: run_dim(1, w, [&](uint_t i, vec1d q) { if (i + 1 >= k0 || i + 1 == n) boom(); }); break;
        case 1: histogram(v, make_bins(-5, 5, 3), [&](uint_t i, vec1u q) { boom(); }); break;
        case 2: vectorize_lambda([&](double x) { if (++k == std::min<size_t>(k0, n)) boom(); return x; })(v); break;
        case 3: { vec1d c = v; inplace_sort(c, [&](double x, double y) { if (++k == k0) boom(); return x < y; }); break; }
        case 4: { thread::parallel_for pf(0); pf.execute([&](uint_t i) { if (i == 3) boom(); }, 10); break; }
        case 5: regex_replace("abab", "a", [&](vec1s q) -> S { if (++k == 2) boom(); return "x"; }); break; } });
    steady("vectorize and random", [&]() { auto f = vectorize_lambda([](double x) { return x*2; }); auto y = f(v); auto seed = make_seed(3); auto g = randomn(seed, n); auto k = randomi(seed, 0, 5, n, m); shuffle(seed, k); auto rr = random_pdf(seed, indgen<double>(n), abs(v) + 1, 5); });
}
SCEN(texts, 40, 800) {
    S s; for (size_t k = rng.u(0, 60); k; --k) s += "ab,c  12#(" [rng.u(0, 9)]; vec1s v = {s, "abc", "", "x1y22", s + s}; S ex = rng.pick(std::vector<S>{"[a-b]+", "([0-9])", "x*", "(a)(b)?", "c$"});
    steady("string functions", [&]() { auto a = split(s, ","); auto b = split_any_of(s, ", #"); auto c = collapse(v, ";"); auto d = trim(s); auto e = replace(s, "a", "bb"); auto f = wrap(s, 20, " ", false); auto g = align_left(s, 70); auto h = to_upper(v); auto l = cut(s, 4); auto m = distance(s, "abc"); auto h2 = hash(s, 3); });
    steady("regular expressions", [&]() { auto a = regex_match(v, ex); bool m1 = regex_match(s, ex); auto m2 = regex_match(s, vec1s{ex, "b", "c+"}); auto b = regex_extract(s, ex); auto c = regex_replace(s, ex, [](vec1s q) { return S("z"); }); });
    steady("regex that throws", [&]() { auto c = regex_replace("abab", "a", [](vec1s q) -> S { throw std::runtime_error("no"); }); });
    steady("conversions", [&]() { double d; int i; vec1d vd; from_string(s, d); from_string(s, i); from_string(v, vd); auto a = to_string_vector(v); S b = to_string(s); S f = to_string(format::fixed(1.5)); });
}
SCEN(files, 40, 500) {
    S d = st().scratch + "/fs"; file::mkdir(d + "/a/b"); spit(d + "/x.txt", "# a b\n1 2\n3 4\n"); spit(d + "/bad.txt", "1 2\n3\n"); spit(d + "/a/y.txt", "1"); Quiet q;
    steady("directories", [&]() { auto a = file::list_files(d); auto b = file::list_directories(d); file::explorer x; file::explorer::file_data fd; x.open(d); x.find_next(fd); x.open(d, "*.txt"); while (x.find_next(fd)); file::explorer y(d); y.find_next(fd); auto e = file::list_files(d, "*.txt"); auto g = file::list_files(d + "/none"); auto h = file::list_directories(d + "/x.txt"); });
    steady("file operations", [&]() { file::copy(d + "/x.txt", d + "/z.txt"); file::copy(d + "/none", d + "/zz.txt"); file::is_older(d + "/x.txt", d + "/z.txt"); file::exists(d + "/none"); file::remove(d + "/z.txt"); file::remove(d + "/none"); file::mkdir(d + "/x.txt/no"); auto t = file::to_string(d + "/x.txt"); auto p = file::get_basename(d) + file::get_directory(d) + file::remove_extension(d); });
    steady("text tables", [&]() { vec1d a, b; ascii::read_table(d + "/x.txt", a, b); ascii::write_table(d + "/o.txt", a, b); ascii::write_table(d + "/p.txt", ascii::output_format::csv(), a, ascii::columns(1, vec2d(2, 1))); });
    steady("arguments", [&]() { S p = "prog", a0 = "x=3", a1 = "name=[a,b]", a2 = "-flag"; char* av[] = {&p[0], &a0[0], &a1[0], &a2[0]}; int x = 0; vec1s name; bool flag = false; read_args(4, av, arg_list(x, name, flag)); });
    steady("spawned programs", [&]() { spawn("true"); spawn("exit 3"); });
}
SCEN(threads, 12, 200) {
    size_t nt = rng.u(1, 4), n = rng.u(0, 40); std::atomic<int> c(0);
    steady("parallel_for", [&]() { thread::parallel_for pf(nt); vec1d o(n); pf.execute([&](uint_t i) { o.safe[i] = i; }, n); pf.chunk_size = 3; pf.execute([&](uint_t i) { o.safe[i] = i; }, n); });
    steady("worker", [&]() { thread::worker w; for (size_t k = 0; k < n; ++k) w.push([&]() { ++c; }); w.wait(); w.push([&]() { ++c; }); });
    steady("worker pool", [&]() { thread::worker_pool<int> p(nt, [&](int& i) { c += i; }); for (size_t k = 0; k < n; ++k) p.process(1); p.consume_all(); p.join(); });
    steady("worker pool restarted", [&]() { thread::worker_pool<int> p; auto f = [&](int& i) { c += i; }; p.start(nt, f); p.process(1); p.start(nt+1, f); p.process(2); p.consume_all(); });
    steady("worker pool with jobs left", [&]() { thread::worker_pool<S> p(nt, [&](S& s) { c += s.size(); }); for (size_t k = 0; k < n; ++k) p.process(S(50, 'x')); });
    steady("queue", [&]() { thread::lock_free_queue<S> q; for (size_t k = 0; k < n; ++k) q.push(S(40, 'q')); S o; if (n > 3) { q.pop(o); q.pop(o); } if (rng.b()) { q.clear(); q.push(S(40, 'r')); } });
    steady("threads and pool", [&]() { auto t = thread::pool(nt); for (auto& x : t) x.start([&]() { ++c; }); for (auto& x : t) x.join(); });
}
#endif
#if PART == 1
SCEN(fits_images, 30, 500) {
    S d = st().scratch, f = d + "/i.fits", g = d + "/g.fits", tr = d + "/tr.fits", junk = d + "/junk.fits"; vec2d im = rd2(rng, rng.u(1, 9), rng.u(1, 9)); fits::header h = "SIMPLE  =                    T"; fits::write(f, im); vec1d one = rd(rng, 5);
    { std::ifstream i(f, std::ios::binary); S b((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); spit(tr, b.substr(0, rng.pick(std::vector<size_t>{100, 2880, 2900}))); spit(junk, "hello"); }
    steady("image written and read", [&]() { fits::write(g, im); vec2d r; fits::read(g, r); fits::header hh; fits::read(g, r, hh); fits::write(g, r, hh); hh = fits::read_header(g); });
    steady("image streams", [&]() { fits::output_image o(g); o.write(im); o.reach_hdu(1); o.write(one); o.write_keyword("AA", int_t(3)); o.close(); fits::input_image i(g); vec2d r; i.read(r); i.reach_hdu(1); vec1d q; i.read(q); i.open(f); i.read(r); auto hd = i.read_header(); int k; i.read_keyword("NAXIS", k); i.read_keyword("NOPE", k); });
    steady("image updated", [&]() { fits::write(g, im); fits::image o(g); o.update(im*2.0); o.flush(); o.remove_hdu(); });
    steady("image in the wrong type", [&]() { fits::input_image i(f); vec3d r; i.read(r); });
    steady("image in a missing extension", [&]() { fits::input_image i(f); i.reach_hdu(7); });
    steady("image in a missing file", [&]() { fits::input_image i(d + "/none.fits"); });
    steady("image in a missing directory", [&]() { fits::output_image i(d + "/no/none.fits"); i.write(im); });
    steady("image in a file that is not FITS", [&]() { fits::input_image i(junk); vec2d r; i.read(r); });
    { S tt = d + "/ttrunc.fits", ty = d + "/ttyped.fits"; vec1s tx(400); for (auto& t : tx) t = S(30, 'q'); fits::write_table(tt, "A", tx); fits::write_table(ty, "A", tx, "ONE", S(6000, 'z')); if (::truncate(tt.c_str(), 5760 + 200) == 0 && ::truncate(ty.c_str(), 5760 + 200) == 0) { steady("text column in a truncated table", [&]() { fits::input_table i(tt); vec1s r; i.read_column("A", r); }); steady("text value in a truncated table", [&]() { fits::input_table i(ty); S r; i.read_column("ONE", r); }); }
      struct rlimit ol; getrlimit(RLIMIT_FSIZE, &ol); signal(SIGXFSZ, SIG_IGN); for (size_t lim : {size_t(0), size_t(3000), size_t(9000), size_t(20000)}) { struct rlimit nl = ol; nl.rlim_cur = lim; vec1s big(3000); for (auto& t : big) t = S(40, 'q'); vec2d im(100, 100); S fl = d + "/full.fits"; auto lt = [&](auto&& f) { setrlimit(RLIMIT_FSIZE, &nl); try { f(); } catch (...) { setrlimit(RLIMIT_FSIZE, &ol); throw; } setrlimit(RLIMIT_FSIZE, &ol); }; steady("text column on a full disk", [&]() { lt([&]() { fits::write_table(fl, "A", big); }); }); steady("text value on a full disk", [&]() { lt([&]() { fits::write_table(fl, "A", S(100000, 'z')); }); }); steady("image on a full disk", [&]() { lt([&]() { fits::write(fl, im); }); }); ev("full-disk"); } }
    steady("image in a truncated file", [&]() { fits::input_image i(tr); vec2d r; i.read(r); });
    steady("image opened as a table", [&]() { fits::input_table i(f); vec1d r; i.read_column("a", r); });
    steady("closed image used", [&]() { fits::input_image i(f); i.close(); vec2d r; i.read(r); });
    steady("file kinds", [&]() { fits::file_axes(f); fits::file_dimensions(f); fits::file_axes(junk); });
    steady("pixel subsets", [&]() { fits::input_image i(f); auto v = i.read_pixel<double>(vec1u{0, 0}); v = i.read_pixel<double>(vec1u{50, 50}); });
    steady("sections that are missing", [&]() { spit(d + "/e.sectfits", ""); fits::read_sectfits(d + (rng.b() ? "/e.sectfits" : "/no.sectfits")); });
    steady("image streams moved", [&]() { fits::input_image i(f); fits::input_image j = std::move(i); vec2d r; j.read(r); i.read(r); });
    steady("image overwritten while open", [&]() { fits::output_image o(g); o.write(im); o.open(d + "/g2.fits"); o.write(im); o.reach_hdu(12); });
    steady("sections", [&]() { spit(d + "/l.sectfits", "i.fits\ng.fits\n"); fits::write(g, im); auto v = fits::read_sectfits(d + "/l.sectfits"); auto hh = fits::read_header_sectfits(d + "/l.sectfits", 0); });
}
SCEN(fits_tables, 30, 500) {
    S d = st().scratch, f = d + "/t.fits", g = d + "/u.fits", bad = d + "/b.fits"; size_t n = rng.u(1, 20); vec1d a = rd(rng, n); vec1s s(n); for (auto& x : s) x = S(rng.u(0, 9), 'z'); vec2f m(n, 3); vec1b b(n); vec1i i(n); fits::write_table(f, ftable(a, s, m, b, i)); fits::write(bad, a);
    steady("table written and read", [&]() { fits::write_table(g, ftable(a, s, m, b, i)); vec1d ra; vec1s rs; vec2f rm; fits::read_table(g, "a", ra, "s", rs, "m", rm); fits::read_table_loose(g, "a", ra, "zz", rs); fits::update_table(g, "a", ra, "c", rs); });
    steady("table streams", [&]() { fits::output_table o(g); o.write_columns(ftable(a, s)); o.close(); fits::table t(g); vec1s r; t.read_column("s", r); t.update_column("s", r); t.remove_column("a"); t.flush(); auto c = t.read_columns_info(); });
    steady("column of the wrong type", [&]() { fits::input_table t(f); vec1d r; bool ok = t.read_column("s", r).is_good(); ok = t.read_column("nope", r).is_good(); vec3d q; ok = t.read_column("m", q).is_good(); });
    steady("table in a missing file", [&]() { fits::input_table t(d + "/none.fits"); });
    steady("table opened on an image", [&]() { fits::input_table t(bad); vec1d r; t.read_columns("a", r); });
    steady("update of a missing table", [&]() { fits::table t(d + "/none.fits"); });
    steady("column of the wrong length", [&]() { fits::output_table o(g); vec1d q(n+1); o.write_column("a", a); o.write_column("b", q); });
    steady("elements and rows", [&]() { fits::table t(f); double x; t.read_elements("a", x, fits::at(0)); t.update_elements("a", x, fits::at(0)); });
    steady("table description", [&]() { auto c = fits::read_table_columns(f); });
}
#endif
#if PART == 2
SCEN(numerics, 12, 400) {
    size_t n = rng.u(2, 9); matrix::mat2d a(n, n); for (auto& x : a) x = rng.d(-1, 1); matrix::mat2d p = a*transpose(a) + matrix::make_identity(n)*2.0, sing(n, n); vec1d x = rd(rng, n), y = rd(rng, n), xs = indgen<double>(n);
    vec2d im = rd2(rng, n, n+1);
    steady("matrices", [&]() { matrix::mat2d i; matrix::invert(a, i); auto c = p; matrix::decompose_cholesky ch; ch.decompose(c); matrix::decompose_lu d; d.decompose(a); vec1d s = d.solve(x); matrix::decompose_svd w; w.decompose(a); vec1d vals; matrix::mat2d vecs; matrix::eigen_symmetric(p, vals, vecs); auto t = a*x; matrix::invert_symmetric(p, i); vec1d rs; matrix::solve_symmetric(p, x, rs); });
    steady("singular matrices", [&]() { matrix::mat2d i; matrix::invert(sing, i); matrix::decompose_lu d; d.decompose(sing); matrix::decompose_cholesky e; e.decompose(sing); });
    steady("fits of lines", [&]() { auto r = linfit(y, 1.0, 1.0, x); auto b = linfit_batch<vec1d>(vec1d(n) + 1.0, 1.0, x); b.fit(y); auto r2 = linfit_pack(y, 1.0 + 0.0*y, vec2d(2, n)); auto nn = linfit_nn(y, 1.0, 1.0, x); });
    steady("non-linear fits", [&]() { auto r = mpfitfun(y, 1.0, x, [](const vec1d& q, const vec1d& p) { return p[0] + p[1]*q; }, vec1d{1, 2}); });
    steady("minimization", [&]() { minimize_params o; auto r = minimize_bfgs(o, vec1d{1, 2}, [](const vec1d& p, minimize_function_output out) { vec1d r(3); r[0] = sqr(p[0]) + sqr(p[1]-1); r[1] = 2*p[0]; r[2] = 2*(p[1]-1); return r; }); });
    steady("fits of functions that throw", [&]() { size_t k = 0, kk = rng.u(1, 12); switch (rng.u(0, 2)) {
        case 0: mpfitfun(y, 1.0, x, [&](const vec1d& q, const vec1d& p) { if (++k == kk) throw std::runtime_error("no"); return p[0] + p[1]*q; }, vec1d{1, 2}); break;
        case 1: { minimize_params o; minimize_bfgs(o, vec1d{1, 2}, [&](const vec1d& p, minimize_function_output out) { if (++k == kk) throw std::runtime_error("no"); vec1d r(3); r[0] = sqr(p[0]) + sqr(p[1]-1); r[1] = 2*p[0]; r[2] = 2*(p[1]-1); return r; }); break; }
        case 2: integrate_func([&](double t) { if (++k == kk) throw std::runtime_error("no"); return t*t; }, 0, 1); break; } });
    steady("interpolation", [&]() { auto v = interpolate(y, xs, rd(rng, 5, -1, n)); auto w = interpolate_3spline(y, xs, 0.5); auto b = bilinear(im, 0.3, 0.4); auto i = integrate(xs, y); auto c = integrate_func([](double t) { return t*t; }, 0, 1); auto hull = build_convex_hull(x, y); auto q = in_convex_hull(0.1, 0.2, hull); });
#ifndef NO_FFTW
    steady("Fourier transforms", [&]() { auto f = fft(im); vec2d g(n, n+1); ifft(f, g); vec2cd zc(n, n), zd(n, n); fft_c2c(zc, zd); ifft_c2c(zd, zc); auto c = convolve2d(im, rd2(rng, 3, 3)); auto b = batch_convolve2d(rd2(rng, 3, 3)); auto e = b.convolve(im); auto b2 = std::move(b); auto e2 = b2.convolve(im); });
#endif
}
S cardof(const S& k, const S& v) { S c = k; c.resize(8, ' '); c += "= " + v; c.resize(80, ' '); return c; }
S hdr(double ra, double dec, size_t nx, size_t ny) { return cardof("SIMPLE", "T") + cardof("BITPIX", "-64") + cardof("NAXIS", "2") + cardof("NAXIS1", to_string(nx)) + cardof("NAXIS2", to_string(ny)) + cardof("CTYPE1", "'RA---TAN'") + cardof("CTYPE2", "'DEC--TAN'") + cardof("CRPIX1", "3") + cardof("CRPIX2", "3") + cardof("CRVAL1", to_string(ra)) + cardof("CRVAL2", to_string(dec)) + cardof("CDELT1", "-0.0003") + cardof("CDELT2", "0.0003") + cardof("END", "").substr(0, 3) + S(77, ' '); }
SCEN(astronomy, 6, 200) {
    Quiet qq; size_t nx = rng.u(3, 9), ny = rng.u(3, 9); vec2d im = rd2(rng, ny, nx); S h = hdr(150, 2, nx, ny); S f = st().scratch + "/a.fits"; fits::write(f, im, h); vec1d ra = rd(rng, 20, 149.99, 150.01), dec = rd(rng, 20, 1.99, 2.01); double cra, cdec; { wcs w(h); xy2ad(w, 2.0, 2.0, cra, cdec); }
    steady("astrometry", [&]() { wcs w(h); double x, y, a, d; ad2xy(w, 150.0, 2.0, x, y); xy2ad(w, 2.0, 2.0, a, d); wcs v(h); wcs u = std::move(v); v = wcs(h); v = std::move(u); vec1d vx, vy; ad2xy(w, ra, dec, vx, vy); double as; get_pixel_size(w, as); wcs e; e = std::move(w); });
    steady("astrometry of a bad header", [&]() { wcs w(S("garbage")); wcs v(hdr(150, 2, nx, ny).substr(0, 160)); double as; get_pixel_size(v, as); });
    { S hb = h; auto set = [&](const S& k, const S& v) { size_t i = hb.find(cardof(k, "").substr(0, 9)); hb.replace(i, 80, cardof(k, v)); }; int w = rng.i(0, 3); if (w == 0) set("CDELT1", "0"); else if (w == 1) set("CTYPE1", "'DEC--TAN'"); else if (w == 2) { set("CTYPE1", "'RA---SIN'"); set("CTYPE2", "'DEC--SIN'"); set("CDELT1", "40"); set("CDELT2", "40"); } else { set("CTYPE1", "'RA---XYZ'"); set("CTYPE2", "'DEC--XYZ'"); }
      steady("astrometry that is refused", [&]() { wcs x(hb); if (!x.is_valid()) ev("bad-astrometry"); }); }
    steady("regridding", [&]() { wcs a(h), b(hdr(150.0003, 2, ny, nx)); auto r = regrid_interpolate(im, a, b); auto q = regrid_drizzle(im, a, b); });
    steady("cross-matching", [&]() { qxmatch_params p; p.nth = 2; p.thread = 3; auto r = qxmatch(ra, dec, ra + 0.001, dec, p); p.thread = 1; auto s = qxmatch(ra, dec, p); p.brute_force = true; auto t = qxmatch(ra, dec, ra, dec, p); auto c = xmatch_clean_best(t); });
    steady("stacking", [&]() { vec3d cube; vec1u ids; qstack_params p; auto o = qstack(vec1d{cra}, vec1d{cdec}, f, 1, cube, ids, p); auto md = qstack_median(cube); auto mm = qstack_mean(cube); });
    steady("images", [&]() { auto a = translate(im, 0.4, 0.6); auto b = rotate(im, 30); auto c = enlarge(im, 2); auto d = shrink(c, 2); auto e = subregion(im, {{0, 0, 2, 2}}); auto m = circular_mask({ny, nx}, 2.0); auto s = segment(im > 0); segment_deblend_params dp; segment_deblend_output so; auto db = segment_deblend(im, so, dp); auto bx = boxcar(im, 1, [](const vec1d& q) { return mean(q); }); auto rp = radial_profile(im, 2); });
    steady("segments that throw", [&]() { vec2u sg = segment(im > 0); foreach_segment(sg, vec1u{}, [&](uint_t k, const vec1u& ids) { throw std::runtime_error("no"); }); auto bx = boxcar(im, 1, [](const vec1d& q) -> double { throw std::runtime_error("no"); }); });
    steady("catalogues saved", [&]() { qxmatch_params p; auto r = qxmatch(ra, dec, ra, dec, p); qxmatch_save(st().scratch + "/q.fits", r); auto q = qxmatch_restore(st().scratch + "/q.fits"); });
    steady("filters", [&]() { S df = st().scratch + "/db.dat"; spit(df, "a=fl.dat\n"); spit(st().scratch + "/fl.dat", "1 0.5\n2 1\n3 0\n"); auto db = read_filter_db(df); filter_t q; get_filter(db, "a", q); get_filter(db, "zz", q); get_filter(db, "x:range:1:2", q); auto no = read_filter_db(df + "none"); });
    steady("regions", [&]() { S rf = st().scratch + "/r.reg"; spit(rf, "fk5\ncircle(150,2,1\")\nbox(150,2,2\",1\",3)\nbad line(\n"); vec<1,ds9::region> reg; ds9::read_regions(rf, reg); wcs w(h); vec2b mk(ny, nx); ds9::mask_regions(rf, w, mk); ds9::write_regions_wcs(rf, reg, w); ds9::write_regions_physical(rf + "2", reg, w); });
    steady("cosmology and spectra", [&]() { cosmo_t c = get_cosmo("std"); auto d = lumdist(vec1d{0.1, 2.0, 3.0}, c); vec1d lam = indgen<double>(20)/10 + 1; vec1d sed = abs(rd(rng, 20)); filter_t fl; fl.lam = lam; fl.res = lam*0 + 1; auto v = sed2flux(fl, lam, sed); auto l = lsun2uJy(1.0, 20.0, lam, sed); });
}
#endif
