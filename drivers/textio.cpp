// ASCII tables, file system helpers and command line arguments against independent references.
#include "model.hpp"
#include <libgen.h>
#include <fnmatch.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
using namespace vif;
using namespace vh;

std::string text(Rng& r, const std::string& al, size_t n) { std::string s; for (size_t k = 0; k < n; ++k) s += al[r.u(0, al.size()-1)]; return s; }
#define EQS(what, got, exp) vh::checkf((got) == (exp), what, [&]() { return "got '" + std::string(got) + "' expected '" + std::string(exp) + "'"; })
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void spit(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
// a refused call leaves its streams open: the monitor closes them
template<typename F> Outcome guarded_fd(F&& f) { int base = ::open("/dev/null", O_RDONLY); ::close(base); Outcome o = guarded(f); if (!o.ok()) for (int k = base; k < base + 16; ++k) ::close(k); return o; }
std::string rn(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else o += c; } return o; }

struct Capture { std::ostringstream o; std::streambuf *e, *c; Capture() { e = std::cerr.rdbuf(o.rdbuf()); c = std::cout.rdbuf(o.rdbuf()); } ~Capture() { std::cerr.rdbuf(e); std::cout.rdbuf(c); } };
#if PART == 0
std::string g17(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
std::string g6(double x) { char b[64]; snprintf(b, sizeof b, "%g", x); return b; }
std::string e6(double x) { char b[64]; snprintf(b, sizeof b, "%e", x); return b; }
// ------------------------------------------------------------ writing
struct Col { std::vector<std::string> cells; };
std::string expected_file(const ascii::output_format& o, const std::vector<std::vector<std::string>>& cols, size_t nrow) {
    size_t c = cols.size(); std::vector<size_t> w(c, o.min_width);
    if (o.auto_width) for (size_t j = 0; j < c; ++j) { for (auto& s : cols[j]) w[j] = std::max(w[j], s.size()); if (o.header.size()) w[j] = std::max(w[j], o.header.safe[j].size() + (j == 0 ? o.header_chars.size() : 0)); }
    auto pad = [](const std::string& s, size_t n) { return s.size() >= n ? s : std::string(n - s.size(), ' ') + s; };
    std::string t;
    if (o.header.size()) { t += o.header_chars; for (size_t j = 0; j < c; ++j) { if (j) t += o.delim; size_t hw = w[j]; if (j == 0 && hw >= o.header_chars.size()) hw -= o.header_chars.size(); t += pad(o.header.safe[j], hw); } t += "\n"; }
    for (size_t i = 0; i < nrow; ++i) { for (size_t j = 0; j < c; ++j) { if (j) t += o.delim; t += pad(cols[j][i], w[j]); } t += "\n"; }
    return t;
}
SCEN(ascii_write, 6000, 120000) {
    std::string f = st().scratch + "/w.txt"; size_t n = rng.b(0.1) ? 0 : rng.u(1, 9), m = rng.u(1, 4);
    ascii::output_format o = rng.b(0.4) ? ascii::output_format::standard() : rng.b(0.5) ? ascii::output_format::csv() : ascii::output_format(rng.b(), rng.u(0, 8), rng.pick(std::vector<std::string>{" ", ",", ";", " | "}));
    vec1u id(n); vec1d x(n); vec1s s(n); vec2d v(n, m), e(n, m); vec1b b(n);
    std::vector<std::string> ci, cx, cxs, csr, cb; std::vector<std::vector<std::string>> cv(m), ce(m);
    for (size_t i = 0; i < n; ++i) {
        id[i] = rng.b(0.1) ? (uint_t)rng.next() : rng.u(0, 500); ci.push_back(std::to_string(id[i])); x[i] = rng.b(0.1) ? (rng.b() ? dnan : dinf) : rng.b() ? rng.i(-9999, 9999)*0.25 : rng.gauss()*std::pow(10.0, rng.i(-8, 8)); cx.push_back(g17(x[i])); cxs.push_back(e6(x[i]));
        s[i] = text(rng, "abcXYZ_-", rng.u(1, 7)); csr.push_back(s[i]); b[i] = rng.b(); cb.push_back(b[i] ? "1" : "0");
        for (size_t k = 0; k < m; ++k) { v(i,k) = rng.i(-999, 999)*0.5; e(i,k) = rng.i(0, 99); cv[k].push_back(g6(v(i,k))); ce[k].push_back(g6(e(i,k))); }
    }
    int form = (int)rng.i(0, 8); std::vector<std::vector<std::string>> cols;
    bool hdr = rng.b(0.5);
    auto H = [&](size_t c) { if (hdr) { vec1s h; for (size_t k = 0; k < c; ++k) h.push_back(text(rng, "abcdef", rng.u(1, 9))); o.header = h; o.header_chars = rng.pick(std::vector<std::string>{"# ", "#", "% "}); } };
    vh::note(fmt("write_table form %d, %zu rows, %zu columns in the 2-D group, delim '%s', auto_width %d, min_width %zu, header %d", form, n, m, o.delim.c_str(), (int)o.auto_width, (size_t)o.min_width, (int)hdr));
    switch (form) {
        case 0: cols = {ci, cx, csr}; H(3); ascii::write_table(f, o, id, format::precision(x, 17), s); break;
        case 1: cols = {ci}; for (auto& q : cv) cols.push_back(q); H(cols.size()); ascii::write_table(f, o, id, ascii::columns(m, v)); break;
        case 2: cols = {ci}; for (size_t k = 0; k < m; ++k) { cols.push_back(cv[k]); cols.push_back(ce[k]); } cols.push_back(csr); H(cols.size()); ascii::write_table(f, o, id, ascii::columns(m, v, e), s); break;
        case 3: cols = {csr}; for (auto& q : cv) cols.push_back(q); H(cols.size()); ascii::write_table(f, o, s, v); break;
        case 4: cols = {ci, csr, cx}; o.header = vec1s{"id", "s", "z"}; if (o.header_chars != "# ") o.header_chars = "# "; { vec1s z = s; std::vector<std::vector<std::string>> c4 = {ci, csr, csr}; cols = c4; ascii::write_table(f, o, ftable(id, s, z)); } break;
        case 5: { cols = {ci}; for (auto& q : cv) cols.push_back(q); vec1s h = {"id"}; for (size_t k = 0; k < m; ++k) h.push_back("v_" + std::to_string(k+1)); o.header = h; ascii::write_table(f, o, ftable(id, v)); break; }
        case 6: { struct { vec1u id; vec1s name; } cat; cat.id = id; cat.name = s; cols = {ci, csr}; o.header = vec1s{"id", "name"}; ascii::write_table(f, o, ftable(cat.id, cat.name)); break; }
        case 7: cols = {cxs, cb}; H(2); ascii::write_table(f, o, format::scientific(x), b); break;
        default: { vec1u idx; for (size_t i = 0; i < n; ++i) if (rng.b()) idx.push_back(i); std::vector<std::string> a, c; for (size_t i : idx) { a.push_back(ci[i]); c.push_back(csr[i]); } cols = {a, c}; H(2); ascii::write_table(f, o, id[idx], s[idx]); }
    }
    size_t nr = cols[0].size(); std::string got = slurp(f), exp = expected_file(o, cols, nr); vh::checkf(got == exp, "file-content", [&]() { return "got '" + rn(got) + "' expected '" + rn(exp) + "'"; }); vh::ev("written"); vh::sig(fmt("w%d %zu %zu %d", form, n, m, (int)hdr));
    // read back what was written
    if (form == 0 && (o.delim == " " || o.delim == ",") && !(hdr && o.header_chars[0] == '%')) {
        ascii::input_format in = o.delim == " " ? ascii::input_format::standard() : ascii::input_format::csv(); if (o.delim == "," && (o.auto_width || o.min_width)) { in.delim = ", "; in.delim_single = false; }
        vec1u id2; vec1d x2; vec1s s2; ascii::read_table(f, in, id2, x2, s2); vh::check(eqvec(flat(id2), flat(id)) && eqvec(flat(x2), flat(x)) && eqvec(flat(s2), flat(s)) && vh::consistent(id2) && vh::consistent(x2) && vh::consistent(s2), "round-trip", rn(got)); vh::ev("round-trip");
    }
    // refused: different lengths, wrong group size, wrong header
    int bad = (int)rng.i(0, 4); vec1d y(n + rng.u(1, 3)); Outcome r; ascii::output_format o2; vec1u none;
    if (bad == 0) r = guarded_fd([&]() { ascii::write_table(f, id, y); }); else if (bad == 1) r = guarded_fd([&]() { ascii::write_table(f, y, id); }); else if (bad == 2) r = guarded_fd([&]() { ascii::write_table(f, none, y); }); else if (bad == 3) r = guarded_fd([&]() { ascii::write_table(f, id, ascii::columns(m + (rng.b() || m < 2 ? 1 : -1), v)); }); else { o2.header = vec1s{"a"}; r = guarded_fd([&]() { ascii::write_table(f, o2, id, x); }); }
    vh::check(r.refused(), "bad-write-accepted", fmt("kind %d", bad)); vh::ev("refused"); vh::check(guarded_fd([&]() { ascii::write_table(st().scratch + "/no/such/dir/f.txt", id); }).refused(), "unwritable-accepted", "");
}
// ------------------------------------------------------------ reading
SCEN(ascii_read, 12000, 250000) {
    std::string f = st().scratch + "/r.txt"; int pat = (int)rng.i(0, 8); size_t n = rng.b(0.08) ? 0 : rng.u(1, 8); if (pat == 6) n = rng.b(0.8) ? rng.u(0, 1) : 2; size_t g = rng.u(1, 3);
    std::string types; // i integer, u unsigned, d real, s string, x anything (skipped)
    switch (pat) { case 0: types = "ids"; break; case 1: types = "xdx"; break; case 2: types = "u" + std::string(g, 'd'); break; case 3: types = "u"; for (size_t k = 0; k < g; ++k) types += "di"; break; case 4: types = "u"; for (size_t k = 0; k < g; ++k) types += "dx"; break; case 5: types = std::string(g, 'x') + "s"; break; case 6: types = "ids"; break; case 7: types = "fs"; break; default: types = "dss"; }
    size_t extra = rng.b(0.3) ? rng.u(1, 3) : 0, nc = types.size() + extra;
    ascii::input_format in; int layout = (int)rng.i(0, 5); std::string sep; // blank / csv / single custom / multi-character single / several characters / tabs
    if (layout == 1) in = ascii::input_format::csv(); else if (layout == 2) { in.delim = rng.pick(std::vector<std::string>{";", "|", ":"}); in.delim_single = true; } else if (layout == 3) { in.delim = rng.pick(std::vector<std::string>{"||", "<>", ", "}); in.delim_single = true; } else if (layout == 4) { in.delim = ",; "; } else if (layout == 5) { in.delim = "\t"; in.delim_single = true; }
    if (nc < 2 && in.delim_single) { extra = 1; nc = 2; }
    if (rng.b(0.2)) in.skip_pattern = rng.pick(std::vector<std::string>{"%", "//", "!!"}); if (rng.b(0.1)) in.auto_skip = false; if (rng.b(0.2)) in.skip_first = rng.u(1, 3);
    bool holes = in.delim_single;
    std::vector<std::vector<std::string>> cell(n, std::vector<std::string>(nc)); std::string nl = rng.b(0.15) ? "\r\n" : "\n", t;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < nc; ++j) { char ty = j < types.size() ? types[j] : 'x'; std::string& c = cell[i][j];
        if (ty == 'i') c = std::to_string((long long)(rng.b(0.1) ? (long long)rng.next() : rng.i(-999, 999))); else if (ty == 'u') c = std::to_string((unsigned long long)(rng.b(0.1) ? rng.next() : (uint64_t)rng.u(0, 999))); else if (ty == 'd') c = rng.b(0.1) ? rng.pick(std::vector<std::string>{"nan", "inf", "-inf", "NaN", "1e300", "-1e-300"}) : g17(rng.gauss()*std::pow(10.0, rng.i(-9, 9))); else if (ty == 'f') c = g6(rng.gauss()*1e3);
        else { c = text(rng, holes && layout != 3 ? "abcXYZ_. " : "abcXYZ_.", rng.u(1, 6)); if (holes && rng.b(0.2)) c = ""; }
        if (holes && (layout == 1 || layout == 2) && ty != 's' && ty != 'x' && rng.b(0.1)) c = " " + c + " "; }
    if (layout == 5) for (size_t i = 0; i < n; ++i) { bool any = false; for (auto& c : cell[i]) any = any || c.find_first_not_of(" \t") != c.npos; if (!any) cell[i][nc-1] = "z"; }
    if (layout != 5 && holes && false) {}
    // fault: one bad cell or one short line
    int fault = n && rng.b(0.2) ? (int)rng.i(1, 3) : 0; size_t fi = n ? rng.u(0, n-1) : 0, fj = 0; size_t shortlen = 0; std::string why = "none";
    if (fault == 1 || fault == 2) { std::vector<size_t> num; for (size_t j = 0; j < types.size(); ++j) if (std::string("iudf").find(types[j]) != std::string::npos) num.push_back(j); if (num.empty()) fault = 0; else { fj = rng.pick(num); cell[fi][fj] = fault == 1 ? rng.pick(std::vector<std::string>{"abc", "1x", "--1", "1.2.3"}) : types[fj] == 'd' ? "1e999" : types[fj] == 'f' ? "1e128" : "99999999999999999999"; why = "bad cell " + cell[fi][fj]; } }
    if (fault == 3) { size_t need = types.size(); if (need < 2) fault = 0; else { shortlen = rng.u(1, need-1); bool any = false; for (size_t j = 0; j < shortlen; ++j) any = any || cell[fi][j].find_first_not_of(" \t") != std::string::npos; if (!any) cell[fi][0] = types[0] == 'x' || types[0] == 's' ? "q" : "1"; why = fmt("line %zu has %zu columns", fi, shortlen); } }
    bool readable = !fault; if (pat == 6 && n > 1) { readable = false; }
    for (size_t k = 0; k < in.skip_first; ++k) t += text(rng, "hdrHDR", 4) + nl;
    size_t ncom = 0; for (size_t i = 0; i <= n; ++i) {
        if (rng.b(0.2)) t += std::string(rng.u(0, 3), ' ') + nl;
        if (in.auto_skip && rng.b(0.2)) { t += std::string(rng.u(0, 2), ' ') + in.skip_pattern + text(rng, "comment 123,", rng.u(0, 9)) + nl; ++ncom; }
        if (i == n) break;
        size_t last = fault == 3 && i == fi ? shortlen : nc;
        auto gap = [&](bool must) { if (layout == 0) return text(rng, " \t", must ? rng.u(1, 3) : rng.u(0, 2)); if (layout == 4) return text(rng, ",; ", must ? rng.u(1, 3) : 0); return must ? in.delim : std::string(); };
        t += gap(false); for (size_t j = 0; j < last; ++j) { if (j) t += gap(true); t += cell[i][j]; } t += gap(false);
        if (i + 1 < n || rng.b(0.8)) t += nl; else break;
    }
    spit(f, t); vh::note(fmt("read_table pattern %d layout %d delim '%s' single %d skip '%s' first %zu fault: %s; ", pat, layout, rn(in.delim).c_str(), (int)in.delim_single, in.skip_pattern.c_str(), (size_t)in.skip_first, why.c_str()) + "file '" + rn(t).substr(0, 600) + "'");
    vec1i vi; vec1d vd; vec1s vs, vs2; vec1u vu; vec2d md; vec2i mi; vec1f vf; int_t si = -77; double sdv = -77; std::string ss = "?";
    Outcome r = guarded_fd([&]() { switch (pat) {
        case 0: ascii::read_table(f, in, vi, vd, vs); break; case 1: ascii::read_table(f, in, _, vd, _); break; case 2: ascii::read_table(f, in, vu, ascii::columns(g, md)); break; case 3: ascii::read_table(f, in, vu, ascii::columns(g, md, mi)); break;
        case 4: ascii::read_table(f, in, vu, ascii::columns(g, md, _)); break; case 5: ascii::read_table(f, in, ascii::columns(g, _), vs); break; case 6: ascii::read_table(f, in, si, sdv, ss); break; case 7: ascii::read_table(f, in, vf, vs); break; default: ascii::read_table(f, in, vd, vs, vs2); } });
    vh::sig(fmt("r%d %d %zu %d %zu", pat, layout, n, fault, ncom));
    if (!readable) { vh::check(r.refused(), "bad-table-accepted", why); vh::ev("refused"); return; }
    if (!vh::check(r.ok(), "good-table-refused", r.str())) return;
    auto num = [&](size_t i, size_t j) { return strtod(cell[i][j].c_str(), nullptr); };
    auto okv = [&](const char* what, bool shape, std::function<bool(size_t)> f) { bool ok = shape; for (size_t i = 0; ok && i < n; ++i) ok = f(i); vh::check(ok, what, ""); };
    auto I = [&](size_t c, const vec1i& v) { okv("integers", v.size() == n && vh::consistent(v), [&](size_t i) { return (long long)v.safe[i] == strtoll(cell[i][c].c_str(), nullptr, 10); }); };
    auto U = [&](size_t c, const vec1u& v) { okv("unsigned", v.size() == n && vh::consistent(v), [&](size_t i) { return v.safe[i] == strtoull(cell[i][c].c_str(), nullptr, 10); }); };
    auto D = [&](size_t c, const vec1d& v) { okv("reals", v.size() == n && vh::consistent(v), [&](size_t i) { return eqv(v.safe[i], num(i, c)); }); };
    auto S = [&](size_t c, const vec1s& v) { okv("strings", v.size() == n && vh::consistent(v), [&](size_t i) { return v.safe[i] == cell[i][c]; }); };
    auto M = [&](size_t c, size_t step, const vec2d& v) { okv("matrix", (v.dims[0] == n && v.dims[1] == g) && vh::consistent(v), [&](size_t i) { for (size_t k = 0; k < g; ++k) if (!eqv(v.safe(i,k), num(i, c + k*step))) return false; return true; }); };
    switch (pat) { case 0: I(0, vi); D(1, vd); S(2, vs); break; case 1: D(1, vd); break; case 2: U(0, vu); M(1, 1, md); break; case 3: U(0, vu); M(1, 2, md); okv("matrix-int", mi.dims[0] == n && mi.dims[1] == g, [&](size_t i) { for (size_t k = 0; k < g; ++k) if ((long long)mi.safe(i,k) != strtoll(cell[i][2 + 2*k].c_str(), nullptr, 10)) return false; return true; }); break;
        case 4: U(0, vu); M(1, 2, md); break; case 5: S(g, vs); break; case 6: if (n == 1) vh::check((long long)si == strtoll(cell[0][0].c_str(), nullptr, 10) && eqv(sdv, num(0, 1)) && ss == cell[0][2], "scalars", ""); else vh::check(si == -77 && sdv == -77 && ss == "?", "scalars-kept", ""); break;
        case 7: okv("floats", vf.size() == n, [&](size_t i) { return vf.safe[i] == strtof(cell[i][0].c_str(), nullptr); }); S(1, vs); break; default: D(0, vd); S(1, vs); S(2, vs2); }
    vh::ev("tables"); vh::ev("cells", n*nc); if (in.skip_first) vh::ev("skip-first"); if (in.delim_single) vh::ev("single-delimiter");
}
// arbitrary bytes: a table or a diagnostic, nothing else
SCEN(ascii_garbage, 8000, 200000) {
    std::string f = st().scratch + "/g.txt", t; size_t n = rng.u(0, 60); int al = (int)rng.i(0, 2); for (size_t k = 0; k < n; ++k) t += al == 0 ? (char)rng.u(0, 255) : al == 1 ? "0123456789 ,.\n\n\t-e"[rng.u(0, 16)] : ",;# \n\r\t1a"[rng.u(0, 8)];
    ascii::input_format in = rng.b() ? ascii::input_format::standard() : ascii::input_format::csv(); if (rng.b(0.3)) in.skip_first = rng.u(0, 5); if (rng.b(0.1)) { in.delim = rng.b() ? "\t" : "1a"; } spit(f, t); vh::note("garbage '" + rn(t) + "'"); vec1i a; vec1s b; vec2d m;
    Outcome r = guarded_fd([&]() { if (rng.b()) ascii::read_table(f, in, a, b); else ascii::read_table(f, in, b, ascii::columns(rng.u(0, 3), m)); });
    vh::check(r.ok() || r.rejected(), "exception", r.str()); vh::ev(r.ok() ? "garbage-read" : "garbage-refused"); if (r.ok()) vh::check(vh::consistent(a) && vh::consistent(b) && vh::consistent(m) && b.size() <= n, "shape", "");
    vh::sig(fmt("g%d %zu %d", al, n/10, (int)r.ok())); if (rng.b(0.01)) { vh::check(guarded_fd([&]() { ascii::read_table(st().scratch + "/absent.txt", a); }).refused(), "absent-accepted", ""); std::string d = st().scratch; guarded_fd([&]() { ascii::read_table(d, a, b); }); vh::ev("directory"); }
}
#elif PART == 1
std::string squeeze(const std::string& s) { std::string o; for (char c : s) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c; return o; }
SCEN(paths, 20000, 300000) {
    std::string p; do { p = text(rng, "ab./_", rng.u(1, 14)); } while (false); if (rng.b(0.2)) p = squeeze(p); vh::note("path '" + p + "'");
    std::vector<char> b1(p.begin(), p.end()), b2; b1.push_back(0); b2 = b1; std::string base = ::basename(b1.data()), dir = ::dirname(b2.data()); std::string bn = base; { std::vector<char> c(p.begin(), p.end()); c.push_back(0); bn = __xpg_basename(c.data()); }
    EQS("basename", file::get_basename(p), bn); std::string d2 = dir; if (d2.back() != '/') d2 += "/"; EQS("directory", squeeze(file::get_directory(p)), squeeze(d2));
    size_t k = std::string::npos; for (size_t i = 0; i < p.size(); ++i) if (p[i] == '.') k = i; std::string ext = k == std::string::npos ? "" : p.substr(k), stem = k == std::string::npos ? p : p.substr(0, k);
    EQS("get_extension", file::get_extension(p), ext); EQS("remove_extension", file::remove_extension(p), stem); auto sp = file::split_extension(p); EQS("split-stem", sp.first, stem); EQS("split-ext", sp.second, ext); EQS("stem+ext", sp.first + sp.second, p);
    std::string dz = file::directorize(p); EQS("directorize", dz, p.back() == '/' ? p : p + "/"); EQS("directorize-twice", file::directorize(dz), dz); vh::check(file::is_absolute_path(p) == (p[0] == '/'), "absolute", ""); vh::check(file::directorize("") == "" && !file::is_absolute_path("") && file::get_extension("") == "", "empty", "");
    vec1s v = {p, "x/y.z", p + "b"}; vec1s vb = file::get_basename(v), vd = file::get_directory(v), ve = file::get_extension(v), vr = file::remove_extension(v); bool ok = vb.size() == 3 && vd.size() == 3; for (size_t i = 0; ok && i < 3; ++i) ok = vb[i] == file::get_basename(v[i]) && vd[i] == file::get_directory(v[i]) && ve[i] == file::get_extension(v[i]) && vr[i] == file::remove_extension(v[i]); vh::check(ok, "vectorised", "");
    std::string rt = file::get_directory(p) + file::get_basename(p); vh::ev("paths"); vh::sig(squeeze(p).substr(0, 6) + s1(p.size())); (void)rt;
}
SCEN(filesystem, 400, 6000) {
    std::string root = st().scratch + "/fs"; std::string cmd = "rm -rf '" + root + "'"; vh::check(system(cmd.c_str()) == 0 && ::mkdir(root.c_str(), 0755) == 0, "scratch", ""); root += "/";
    std::map<std::string, std::string> files; std::set<std::string> dirs; std::map<std::string, long> age; size_t n = rng.u(3, 18); std::string log;
    auto nm = [&]() { return text(rng, "ab", rng.u(1, 3)) + rng.pick(std::vector<std::string>{"", ".txt", ".fits"}); };
    file::explorer ex; auto list = [&](const std::string& pat, bool wantdirs) { std::set<std::string> o; for (auto& x : files) if (!wantdirs && x.first[0] != '.' && fnmatch(pat.c_str(), x.first.c_str(), 0) == 0) o.insert(x.first); for (auto& x : dirs) if (wantdirs && x[0] != '.' && fnmatch(pat.c_str(), x.c_str(), 0) == 0) o.insert(x); return o; };
    for (size_t k = 0; k < n; ++k) {
        int op = (int)rng.i(0, 7); std::string a = nm(), b = nm(); log += fmt("%d:%s,%s ", op, a.c_str(), b.c_str()); vh::note("file system history " + log);
        if (op == 0) { if (dirs.count(a)) continue; if (rng.b(0.2)) a = "." + a; std::string c; size_t m = rng.b(0.2) ? 0 : rng.u(1, 300); if (rng.b(0.05)) m = 20000; for (size_t i = 0; i < m; ++i) c += (char)rng.u(0, 255); spit(root + a, c); files[a] = c; vh::check(file::exists(root + a), "exists", a); EQS("to_string", file::to_string(root + a), c); }
        else if (op == 1) { bool file_in_way = files.count(a); std::string sub = rng.b() ? "/" + nm() : ""; std::string tgt = root + a + sub; if (rng.b(0.3)) tgt += "/"; bool r = file::mkdir(tgt); vh::check(r == !file_in_way, "mkdir", a + sub); if (!file_in_way) { dirs.insert(a); struct stat s; vh::check(::stat(tgt.c_str(), &s) == 0 && S_ISDIR(s.st_mode), "mkdir-created", tgt); vh::check(file::mkdir(tgt), "mkdir-again", tgt); vh::check(file::exists(tgt), "exists-dir", tgt); } else vh::ev("mkdir-refused"); }
        else if (op == 2) { bool have = files.count(a), have2 = files.count(b), d2 = dirs.count(b); if (a == b || dirs.count(a)) continue; bool r = file::copy(root + a, root + b); vh::check(r == (have && !d2), "copy", a + " -> " + b); if (r) { files[b] = files[a]; EQS("copy-content", slurp(root + b), files[a]); EQS("copy-source", slurp(root + a), files[a]); vh::ev("copied"); } else if (have2) EQS("failed-copy-kept", slurp(root + b), files[b]); }
        else if (op == 3) { if (dirs.count(a)) continue; bool r = file::remove(root + a); files.erase(a); vh::check(r && ::access((root + a).c_str(), F_OK) != 0, "remove", a); vh::ev("removed"); }
        else if (op == 4) { if (dirs.count(a) || dirs.count(b) || a == b) continue; bool have = files.count(a); bool r = file::move(root + a, root + b); vh::check(r == have, "move", ""); if (have) { files[b] = files[a]; files.erase(a); EQS("move-content", slurp(root + b), files[b]); vh::check(!file::exists(root + a), "move-source", ""); } }
        else if (op == 5) { std::string pat = rng.pick(std::vector<std::string>{"*", "", "a*", "*.txt", "*b*", "*.fits", "ab"}); for (int w = 0; w < 2; ++w) { vec1s l = w ? file::list_directories(root, pat) : file::list_files(root, pat); std::set<std::string> g(l.begin(), l.end()), e = list(pat.empty() ? "*" : pat, w); vh::checkf(g == e && l.size() == e.size(), w ? "list_directories" : "list_files", [&]() { return "pattern " + pat + " got " + svv(l); }); } vh::ev("listed"); vh::check(file::list_files(root + "absent").empty() && file::list_directories(root + "absent").empty(), "list-absent", ""); }
        else if (op == 6) { std::string pat = rng.pick(std::vector<std::string>{"*", "", "a*"}); bool r = rng.b(0.1) ? ex.open(root + "absent", pat) : ex.open(root, pat); file::explorer::file_data fd; std::set<std::string> g; bool early = rng.b(0.3); while (ex.find_next(fd)) { g.insert(fd.name); EQS("full_path", fd.full_path, root + "/" + fd.name); if (files.count(fd.name)) { vh::check(!fd.is_dir && fd.size == files[fd.name].size() && fd.is_hidden == (fd.name[0] == '.'), "file-data", fd.name); } else vh::check(fd.is_dir, "dir-data", fd.name); if (early) break; } if (r && !early) { bool ok = true; for (auto& x : files) if (pat == "*" || pat == "" || x.first[0] == 'a') ok = ok && g.count(x.first); vh::check(ok, "explorer-complete", pat); } if (rng.b()) ex.close(); vh::check(r || !ex.find_next(fd), "closed-explorer", ""); vh::ev("explored"); }
        else { std::vector<std::string> fs; for (auto& x : files) fs.push_back(x.first); if (fs.size() < 2) continue; std::string p = rng.pick(fs), q = rng.pick(fs); long tp = rng.i(1000, 1010), tq = rng.i(1000, 1010); auto setm = [&](const std::string& x, long t) { struct timespec ts[2] = {{t, 0}, {t, 0}}; utimensat(AT_FDCWD, (root + x).c_str(), ts, 0); }; setm(p, tp); setm(q, tq); if (p == q) tp = tq; vh::check(file::is_older(root + p, root + q) == (tp < tq), "is_older", fmt("%ld %ld", tp, tq)); vh::check(!file::is_older(root + p, root + "absent") && !file::is_older(root + "absent", root + p), "is_older-absent", ""); vh::ev("ages"); }
    }
    vh::check(!file::exists(root + "absent") && !file::exists("") && file::to_string(root + "absent") == "" && !file::copy(root + "absent", root + "zz") && !file::copy(st().scratch, root + "zz2") && file::remove(root + "absent"), "absent", ""); { std::string sp, want, dr = "x"; if (FILE* h = ::fopen("/proc/self/cmdline", "rb")) { int c; while ((c = ::fgetc(h)) != EOF) want.push_back((char)c); ::fclose(h); } Outcome o = vh::guarded([&]() { sp = file::to_string("/proc/self/cmdline"); dr = file::to_string(root); }); vh::check(o.ok() && sp == want && dr.empty(), "special-file", o.str()); vh::ev("special-file"); }
    // relative paths, from a directory of our own, and with no error pending
    { int here = ::open(".", O_RDONLY|O_DIRECTORY); vh::check(here >= 0 && ::chdir(root.c_str()) == 0, "scratch", ""); std::string rel = "rel" + text(rng, "xy", 2) + (rng.b() ? "/" + text(rng, "xy", 2) : "") + (rng.b(0.3) ? "/" : ""); errno = 0; bool r = file::mkdir(rel); struct stat s; bool is = ::stat(rel.c_str(), &s) == 0 && S_ISDIR(s.st_mode); errno = 0; bool again = file::mkdir(rel), none = file::mkdir(""), cur = file::mkdir("."); vh::check(::fchdir(here) == 0, "scratch", ""); ::close(here); vh::check(r && is && again, "mkdir-relative", rel); vh::check(none && cur, "mkdir-nothing", ""); vh::ev("relative"); }
    for (auto& x : files) EQS("final-content", slurp(root + x.first), x.second); vh::sig(log);
}
#elif PART == 2
std::string dash(Rng& r) { return r.b(0.6) ? "" : r.b() ? "-" : "--"; }
SCEN(args, 12000, 200000) {
    int_t n = rng.i(-9, 9); double x = 2.5; std::string s = "def"; vec1i v = {7, 8}; vec1s w = {"q"}; bool flag = false; float p = 1.5; uint_t nn = 3; vec1d d = {0.5}; struct { int_t deep; } o; o.deep = 4;
    int_t en = n; double ex = x; std::string es = s; std::vector<int_t> evv = {7, 8}; std::vector<std::string> ew = {"q"}; bool ef = flag; float ep = p; uint_t enn = nn; std::vector<double> ed = {0.5}; int_t eo = 4;
    std::vector<std::string> a; std::vector<std::string> unknown, bad; size_t na = rng.b(0.1) ? 0 : rng.u(1, 8); std::set<std::string> closed;
    for (size_t k = 0; k < na; ++k) {
        int c = (int)rng.i(0, 10); std::string name = rng.pick(std::vector<std::string>{"n", "x", "s", "v", "w", "flag", "pow", "nn", "d", "deep"}); if (c == 0) { std::string u = rng.pick(std::vector<std::string>{"nope", "nx=3", "N=2", "xs=1", "fla", "flagg=1", "zz", "pp=3", "p=2", "vv=[1]", "de"}); u = dash(rng) + u; a.push_back(u); unknown.push_back(u); continue; }
        if (closed.count(name)) continue; std::string pre = dash(rng), q = rng.b(0.15) ? (rng.b() ? "'" : "\"") : ""; bool err = rng.b(0.08);
        auto put = [&](const std::string& val) { std::string sp = rng.b(0.1) ? " " : ""; a.push_back(pre + name + (sp) + "=" + sp + q + val + q); };
        if (err && name != "s" && name != "w") { std::string b = name == "v" || name == "d" ? rng.pick(std::vector<std::string>{"[1,abc]", "abc", "[1,,2]", "[x]"}) : rng.pick(std::vector<std::string>{"abc", "1x", "", "--3"}); if (name == "v" || name == "d") q = ""; put(b); bad.push_back(name); closed.insert(name); continue; }
        if (name == "n" || name == "deep") { int_t z = rng.i(-999, 999); put(std::to_string(z)); (name == "n" ? en : eo) = z; } else if (name == "nn") { enn = rng.u(0, 9999); put(std::to_string(enn)); } else if (name == "x") { ex = rng.i(-999, 999)*0.125; put(fmt("%.10g", ex)); } else if (name == "pow") { ep = (float)(rng.i(-99, 99)*0.25); put(fmt("%g", ep)); }
        else if (name == "s") { es = text(rng, "abc=[].,/", rng.u(1, 8)); put(es); }
        else if (name == "flag") { if (rng.b()) { a.push_back(pre + name); ef = true; } else { ef = rng.b(); put(ef ? "1" : "0"); } }
        else { // lists
            size_t m = rng.u(0, 4); std::string body; std::vector<int_t> iv; std::vector<std::string> sv2; std::vector<double> dv; std::string gap = rng.b(0.2) ? " " : ""; for (size_t i = 0; i < m; ++i) { if (i) body += "," + gap; if (name == "v") { iv.push_back(rng.i(-50, 50)); body += std::to_string(iv.back()); } else if (name == "d") { dv.push_back(rng.i(-50, 50)*0.5); body += fmt("%g", dv.back()); } else { sv2.push_back(text(rng, "abc/.", rng.u(1, 5))); body += q + sv2.back() + q; } }
            q = ""; if (m == 1 && rng.b()) put(body); else put("[" + body + "]"); if (name == "v") evv = iv; else if (name == "d") ed = dv; else ew = sv2; }
    }
    std::string shown; for (auto& z : a) shown += " " + z; vh::note("arguments:" + shown);
    std::vector<std::vector<char>> store; store.push_back({'p', 0}); for (auto& z : a) { std::vector<char> c(z.begin(), z.end()); c.push_back(0); store.push_back(c); } std::vector<char*> av; for (auto& c : store) av.push_back(c.data()); av.push_back(nullptr);
    std::string err; { Capture cap; read_args(store.size(), av.data(), arg_list(n, x, s, v, name(p, "pow"), w, flag, name(nn, "nn"), d, o.deep)); err = cap.o.str(); }
    vh::check(n == en, "int", fmt("%ld expected %ld", (long)n, (long)en)); vh::check(x == ex, "double", ""); EQS("string", s, es); vh::check(eqvec(flat(v), evv) && vh::consistent(v), "vec-int", svv(v) + " expected " + sv(evv)); vh::check(eqvec(flat(w), ew) && vh::consistent(w), "vec-string", svv(w) + " expected " + sv(ew)); vh::check(flag == ef, "flag", ""); vh::check(p == ep, "named", ""); vh::check(nn == enn, "named-2", ""); vh::check(eqvec(flat(d), ed), "vec-double", svv(d)); vh::check(o.deep == eo, "member", "");
    size_t cnt = 0; for (size_t q = err.find("unrecognized"); q != std::string::npos; q = err.find("unrecognized", q + 1)) ++cnt; size_t conv = 0; for (size_t q = err.find("could not convert"); q != std::string::npos; q = err.find("could not convert", q + 1)) ++conv;
    vh::check(cnt == unknown.size(), "unrecognized-warnings", err); for (auto& u : unknown) vh::check(err.find("'" + u + "'") != std::string::npos, "unrecognized-named", u); vh::check(conv == bad.size(), "conversion-warnings", err); for (auto& b : bad) vh::check(err.find("'" + b + "'") != std::string::npos, "conversion-named", b);
    vh::ev("read"); vh::ev("unknown", unknown.size()); vh::ev("unconvertible", bad.size()); vh::sig(fmt("%zu %zu %zu", a.size(), unknown.size(), bad.size()) + (a.empty() ? "" : a[0].substr(0, 5)));
}
// write, serialize, read again: the same values
SCEN(args_roundtrip, 4000, 60000) {
    int_t n = rng.i(-999999, 999999); uint_t u = rng.u(0, 99999); double x = rng.i(-9999, 9999)*0.25; std::string s = text(rng, "abc/._", rng.u(1, 9)); vec1i v; vec1s w; for (size_t k = rng.u(0, 4); k > 0; --k) v.push_back(rng.i(-99, 99)); for (size_t k = rng.u(0, 4); k > 0; --k) w.push_back(text(rng, "xyz", rng.u(1, 4))); bool b = rng.b(); std::string ser; { program_arguments pa(vec1s{}); pa.write(arg_list(n, name(u, "count"), x, s, v, name(w, "list"), b)); ser = pa.serialize(); }
    vh::note("serialized " + ser); vec1s parts; std::istringstream is(ser); std::string t; while (is >> t) parts.push_back(t); int_t n2 = 0; uint_t u2 = 0; double x2 = 0; std::string s2 = "z"; vec1i v2 = {1}; vec1s w2 = {"1"}; bool b2 = !b; { Capture c; program_arguments pb(parts); pb.read(arg_list(n, name(u2, "count"))); pb.read(std::string("n, x, s, v"), n2, x2, s2, v2); pb.read(std::string("name(w2,\"list\"), b"), name(w2, "list"), b2); }
    // arguments nobody asked for are reported, whatever the way they were given
    if (rng.b(0.2)) { std::string err; size_t nu = rng.u(0, 2); { Capture c; vec1s p3 = parts; for (size_t k = 0; k < nu; ++k) p3.push_back(fmt("zz%zu=1", k)); program_arguments pc(p3); int_t n3 = 0; uint_t u3 = 0; double x3 = 0; std::string s3; vec1i v3; vec1s w3; bool b3 = false; pc.read(std::string("n, x, s, v, b"), n3, x3, s3, v3, b3); pc.read(std::string("name(u3,\"count\"), name(w3,\"list\")"), name(u3, "count"), name(w3, "list")); c.o.str(""); { program_arguments gone(std::move(pc)); } err = c.o.str(); c.o.str(""); } size_t cnt = 0; for (size_t q = err.find("unrecognized"); q != std::string::npos; q = err.find("unrecognized", q + 1)) ++cnt; vh::check(cnt == nu, "unrecognized-in-list", err); vh::ev("unknown", nu); }
    vh::check(n2 == n && u2 == u && x2 == x && s2 == s && b2 == b && eqvec(flat(v2), flat(v)) && eqvec(flat(w2), flat(w)), "round-trip", ser); vh::ev("round-trip"); vh::sig(fmt("%zu %zu", (size_t)v.size(), (size_t)w.size()));
}
// names without a value, defaults, merged lists, saved command lines
SCEN(args_forms, 6000, 60000) {
    int_t n = 5; double x = 2.5; std::string s = "q"; vec1i v = {7, 8}; vec1s w = {"z"}; vec1d d = {0.5, 1}; bool b = false; float f = 3; vec1b vb = {false, true};
    std::vector<std::string> names = {"n", "x", "s", "v", "w", "d", "b", "f", "vb"}; std::set<std::string> given; std::vector<std::string> a1, a2; for (auto& z : names) if (rng.b(0.4)) { given.insert(z); (rng.b() ? a1 : a2).push_back(dash(rng) + z); } std::string shown; for (auto& z : a1) shown += " " + z; shown += " |"; for (auto& z : a2) shown += " " + z; vh::note("bare names:" + shown);
    std::string ser, err; { Capture cap; vec1s t1, t2; for (auto& z : a1) t1.push_back(z); for (auto& z : a2) t2.push_back(z); program_arguments pa(t1), pb(t2); pa.merge(pb); pa.read(arg_list(n, x, s, v, w, d, b, f, vb)); ser = pa.serialize();
      int_t n2 = 0; double x2 = 0; std::string s2; vec1i v2; vec1s w2; vec1d d2; bool b2 = false; float f2 = 0; vec1b vb2; pb.read(std::string("n,x,s,v,w,d,b,f,vb"), n2, x2, s2, v2, w2, d2, b2, f2, vb2); }
    auto g = [&](const char* z) { return given.count(z) > 0; };
    vh::check(n == (g("n") ? 1 : 5), "bare-int", shown); vh::check(x == (g("x") ? 1.0 : 2.5), "bare-double", shown); EQS("bare-string", s, std::string(g("s") ? "1" : "q")); vh::check(b == g("b"), "bare-bool", shown); vh::check(f == (g("f") ? 1.f : 3.f), "bare-float", shown);
    vh::check(g("v") ? v.size() == 1 && v[0] == 1 : v.size() == 2 && v[0] == 7 && v[1] == 8, "bare-vec", svv(v)); vh::check(g("w") ? w.size() == 1 && w[0] == "1" : w.size() == 1 && w[0] == "z", "bare-vec-string", svv(w)); vh::check(g("d") ? d.size() == 1 && d[0] == 1 : d.size() == 2 && d[0] == 0.5 && d[1] == 1, "bare-vec-double", svv(d)); vh::check(g("vb") ? vb.size() == 1 && vb[0] : vb.size() == 2 && !vb[0] && vb[1], "bare-vec-bool", svv(vb));
    vh::check(vh::consistent(v) && vh::consistent(w) && vh::consistent(d) && vh::consistent(vb), "consistent", "");
    // what was given comes first and unchanged, then the default of everything else
    std::string es; for (auto& z : a1) es += z + " "; for (auto& z : a2) es += z + " "; std::map<std::string,std::string> df = {{"n", "n=5"}, {"x", "x=2.5"}, {"s", "s=q"}, {"v", "v=[7,8]"}, {"w", "w=[z]"}, {"d", "d=[0.5,1]"}, {"b", "b=0"}, {"f", "f=3"}, {"vb", "vb=[0,1]"}}; for (auto& z : names) if (!given.count(z)) es += df[z] + " "; if (!es.empty()) es.pop_back(); EQS("serialized", ser, es);
    // too few names is an error of the program, reported
    if (rng.b(0.05)) { Capture cap; bool thrown = false; program_arguments pa(vec1s{}); int_t q = 1, r = 2; try { pa.read(std::string("q"), q, r); } catch (std::logic_error&) { thrown = true; } vh::check(thrown, "too-few-names", ""); vh::ev("too-few-names"); }
    // the command line as one string, quoted so that the shell gives the same arguments back
    { std::vector<std::string> c = {"prog"}; for (size_t k = rng.u(0, 4); k > 0; --k) c.push_back(rng.b() ? text(rng, "ab/.=", rng.u(1, 6)) : text(rng, "ab", 1) + "=" + text(rng, "a b", rng.u(1, 6))); std::vector<std::vector<char>> st_; for (auto& z : c) { st_.emplace_back(z.begin(), z.end()); st_.back().push_back(0); } std::vector<char*> av; for (auto& z : st_) av.push_back(z.data()); av.push_back(nullptr);
      std::string cmd = make_cmd((int)c.size(), av.data()); std::vector<std::string> back; std::string cur; bool inq = false, any = false; for (char z : cmd) { if (z == '"') { inq = !inq; any = true; } else if (z == ' ' && !inq) { back.push_back(cur); cur.clear(); } else cur += z; } back.push_back(cur); vh::check(back == c, "make_cmd", cmd);
      std::string fn = st().scratch + "/cmd.txt", pl = "name"; for (size_t k = 1; k < c.size(); ++k) pl += " " + c[k]; save_args(fn, "name", (int)c.size(), av.data()); EQS("save_args", slurp(fn), pl); }
    vh::ev("bare-names", given.size()); vh::sig(shown);
}
SCEN(environment, 2000, 20000) {
    std::string key = "VIF_CHECK_" + text(rng, "ABC", 3); int_t z = rng.i(-9999, 9999); std::string val = rng.pick(std::vector<std::string>{std::to_string(z), "text here", "", "12abc"}); vh::note(key + "=" + val); ::unsetenv(key.c_str()); vh::check(system_var(key, "dflt") == "dflt" && system_var<int_t>(key, 5) == 5, "absent", ""); ::setenv(key.c_str(), val.c_str(), 1); EQS("string", system_var(key, "dflt"), val); char* e; strtol(val.c_str(), &e, 10); bool good = !val.empty() && *e == 0; vh::check(system_var<int_t>(key, 5) == (good ? z : 5), "number", val); vh::check(system_var<double>(key, 2.5) == (good ? (double)z : 2.5), "real", val); ::unsetenv(key.c_str()); vh::ev("environment"); vh::sig(val);
    if (rng.b(0.02)) { vh::check(spawn("true") && !spawn("exit 3") && !spawn("false"), "spawn", ""); std::string f = st().scratch + "/sp"; ::unlink(f.c_str()); vh::check(spawn("sleep 0.05; echo done > '" + f + "'") && slurp(f) == "done\n", "spawn-waits", ""); vh::ev("spawned"); }
}
#else
static double undur(const std::string& t, bool& ok) { // reads 1d02h03m04s, 1s002ms003us004ns, 12ms
    double r = 0; ok = !t.empty(); size_t k = 0; int last = -1; static const std::vector<std::pair<std::string,double>> U = {{"d", 86400}, {"h", 3600}, {"m", 60}, {"s", 1}, {"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}};
    while (k < t.size()) { size_t q = k; while (q < t.size() && isdigit((unsigned char)t[q])) ++q; if (q == k) { ok = false; return 0; } size_t e = q; while (e < t.size() && isalpha((unsigned char)t[e])) ++e; std::string u = t.substr(q, e-q); int w = -1; for (int z = 0; z < 7; ++z) if (U[z].first == u) w = z; if (w <= last) { ok = false; return 0; } double val = atof(t.substr(k, q-k).c_str());
        size_t wid = w >= 4 ? 3 : 2; if (k > 0 && q-k != wid) ok = false; if (k == 0 && t[0] == '0' && q > 1) ok = false; if (w > 0 && last >= 0 && val >= (w == 1 ? 24 : w <= 3 ? 60 : 1000)) ok = false; last = w; r += val*U[w].second; k = e; }
    return r;
}
SCEN(durations, 20000, 200000) {
    int c = (int)rng.i(0, 5); double t = c == 0 ? std::pow(10.0, rng.d(-8.9, 0)) : c == 1 ? rng.d(1, 100) : c == 2 ? rng.d(60, 90000) : c == 3 ? rng.d(80000, 4e6) : c == 4 ? (double)rng.pick(std::vector<int>{1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 90000, 172800, 86460, 7200}) : rng.i(1, 999)*1e-3; vh::note(fmt("duration %.17g", t)); bool ok;
    std::string s = time_str(t); double b = undur(s, ok); double exp, tol; if (t >= 1) { exp = std::floor(t); tol = 1e-9; } else { exp = t; tol = t >= 1e-3 ? 0.501e-3 : t >= 1e-6 ? 0.501e-6 : 0.501e-9; }
    vh::check(ok && std::fabs(b - exp) <= tol, "time_str", s + fmt(" reads back as %.12g", b));
    if (t < 1e5) { s = seconds_str(t); b = undur(s, ok); vh::check(ok && b <= t*(1 + 1e-14) + 1e-12 && b >= t - 1.01e-9 - t*1e-13, "seconds_str", s + fmt(" reads back as %.15g", b)); }
    if (rng.b(0.02)) { long t0 = time(nullptr); std::string d = today(); long t1 = time(nullptr); auto f = [](long z) { time_t q = z; char o[32]; strftime(o, sizeof o, "%Y%m%d", localtime(&q)); return std::string(o); }; vh::check(d == f(t0) || d == f(t1), "today", d); struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); double n1 = ts.tv_sec + ts.tv_nsec*1e-9, n = now(); clock_gettime(CLOCK_REALTIME, &ts); double n2 = ts.tv_sec + ts.tv_nsec*1e-9; vh::check(n >= n1 - 1e-3 && n <= n2 + 1e-3, "now", fmt("%.6f", n)); vh::ev("clock"); }
    vh::ev("durations"); vh::sig(s1(c) + s.substr(0, 5));
}
SCEN(profiling, 300, 2000) {
    size_t n = rng.u(0, 20), calls = 0; double d = rng.d(0, 2e-3); vh::note(fmt("profile %zu calls of %g s", n, d)); struct timespec a, b; auto work = [&]() { ++calls; struct timespec w = {0, (long)(d*1e9)}; nanosleep(&w, nullptr); }; clock_gettime(CLOCK_MONOTONIC, &a); double t = profile(work, n); clock_gettime(CLOCK_MONOTONIC, &b); double el = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec)*1e-9;
    vh::check(calls == n, "calls", fmt("%zu", calls)); vh::check(t <= el + 5e-3 && t >= n*d*0.95 - 5e-3, "time", fmt("%g for %zu x %g, elapsed %g", t, n, d, el)); calls = 0; t = profile(work); vh::check(calls == 1 && t >= d*0.95 - 5e-3, "one-call", ""); vh::ev("profiled"); vh::sig(s1(n));
}
// a progress bar never lies about the count, ends exactly once, and never shows more than it should
SCEN(progress_bar, 2000, 20000) {
    size_t n = rng.b(0.2) ? 1 : rng.u(2, 150), mod = rng.b(0.5) ? 1 : rng.u(2, 40), extra = rng.b(0.3) ? rng.u(1, 5) : 0; int form = (int)rng.i(0, 2); vh::note(fmt("progress of %zu by %zu, form %d, %zu more calls", n, mod, form, extra)); std::string out;
    { Capture cap; auto p = progress_start(n); for (size_t k = 0; k < n + extra; ++k) { if (form == 0) progress(p, mod); else if (form == 1) progress_tick(p, 0.0); else print_progress(p, k, mod); } out = cap.o.str(); }
    std::vector<std::string> fr; std::string c; size_t nl = 0; bool after = false; for (char z : out) { if (z == '\r') { if (!c.empty()) fr.push_back(c); c.clear(); } else if (z == '\n') { ++nl; if (!c.empty()) fr.push_back(c); c.clear(); after = true; } else { c += z; } }
    vh::check(nl == 1 && c.empty() && !out.empty() && out.back() == '\n', "ends-once", fmt("%zu line ends", nl)); size_t last = 0, minlen = 0; bool ok = true; for (auto& f : fr) { size_t a = f.find('['), b = f.find(']'); if (a != 0 || b == std::string::npos || b != progress_ndash + 1) { ok = false; break; } size_t dashes = 0; while (f[1+dashes] == '-') ++dashes; long i = atol(f.c_str() + b + 1); size_t pc = f.find('%'); long per = -1; { size_t q = pc; while (q > 0 && isdigit((unsigned char)f[q-1])) --q; per = atol(f.c_str() + q); }
        size_t hi = n; if (i < 1 || (size_t)i > hi || (size_t)i < last || f.size() < minlen) { ok = false; break; } if ((size_t)i <= n) { if (dashes != (size_t)std::floor(progress_ndash*(double)i/(double)n) || per != (long)std::floor(100.0*i/(double)n)) { ok = false; break; } } last = i; minlen = f.size(); }
    vh::checkf(ok && last == n, "frames", [&]() { return fr.empty() ? std::string("none") : "last: " + fr.back(); });
    if (form != 1) { size_t e = 0; for (size_t k = 0; k < n; ++k) if (k % mod == 0 || k == n-1) ++e; vh::check(fr.size() == e, "number-of-frames", fmt("%zu expected %zu", fr.size(), e)); }
    vh::ev("frames", fr.size()); vh::sig(fmt("%zu %zu %d", std::min<size_t>(n, 12), std::min<size_t>(mod, 4), form));
}
// what is printed is what was given, in order; help text keeps every word and stays within 80 columns
SCEN(printing, 6000, 60000) {
    int_t a = rng.i(-9999, 9999); double x = rng.i(-999, 999)*0.25; std::string t = text(rng, "ab c", rng.u(0, 9)); vec1i v; std::string e = "{"; for (size_t k = rng.u(0, 4); k > 0; --k) { v.push_back(rng.i(-9, 9)); e += (e.size() > 1 ? ", " : "") + std::to_string(v.back()); } e += "}"; std::string all = std::to_string(a) + t + fmt("%g", x) + e + "\n", out; vh::note("print " + all);
    { Capture c; print(a, t, x, v); out = c.o.str(); } EQS("print", out, all); { Capture c; error(a, t, x, v); out = c.o.str(); } EQS("error", out, "error: " + all); { Capture c; warning(a, t, x, v); out = c.o.str(); } EQS("warning", out, "warning: " + all); { Capture c; vif::note(a, t, x, v); out = c.o.str(); } EQS("note", out, "note: " + all);
    std::string msg, nm = text(rng, "xyz", rng.u(1, 6)); std::vector<std::string> words; for (size_t k = rng.u(1, 40); k > 0; --k) { words.push_back(text(rng, "abcdef", rng.u(1, 12))); msg += (msg.empty() ? "" : " ") + words.back(); } int form = (int)rng.i(0, 3);
    { Capture c; if (form == 0) terminal_format::header(msg); else if (form == 1) terminal_format::paragraph(msg); else if (form == 2) terminal_format::bullet(nm, msg); else terminal_format::item(msg); out = c.o.str(); }
    std::istringstream is(out); std::string l; std::vector<std::string> got, lines; while (std::getline(is, l)) lines.push_back(l); if (form == 1) { vh::check(!lines.empty() && lines.back().empty(), "paragraph-blank", ""); if (!lines.empty()) lines.pop_back(); } size_t ind = form <= 1 ? 2 : form == 2 ? nm.size() + 6 : 3; std::string h = form <= 1 ? "  " : form == 2 ? "    " + nm + ": " : " - "; bool ok = !lines.empty() && lines[0].compare(0, h.size(), h) == 0;
    for (size_t k = 0; k < lines.size(); ++k) { ok = ok && lines[k].size() <= 80; if (k) ok = ok && lines[k].find_first_not_of(' ') == ind; std::istringstream w(k ? lines[k] : lines[k].substr(std::min(h.size(), lines[k].size()))); std::string z; while (w >> z) got.push_back(z); } vh::checkf(ok, "help-layout", [&]() { return out; }); vh::checkf(got == words, "help-words", [&]() { return out; });
    // no line could have taken the next word
    for (size_t k = 0; k + 1 < lines.size(); ++k) { std::istringstream w(lines[k+1]); std::string z; w >> z; size_t len = lines[k].find_last_not_of(' ') + 1; vh::checkf(len + 1 + z.size() > 80 - 1, "help-full-lines", [&]() { return out; }); }
    vh::ev("printed"); vh::ev("help"); vh::sig(fmt("%d %zu", form, lines.size()));
}
// a prompt repeats until the answer can be read
SCEN(prompts, 3000, 30000) {
    std::string in; size_t bad = rng.u(0, 3); for (size_t k = 0; k < bad; ++k) in += rng.pick(std::vector<std::string>{"abc", "", "12 x", "  ", "1.5.2", "x1"}) + "\n"; bool real = rng.b(); int_t n = rng.i(-999, 999); double x = rng.i(-999, 999)*0.25; in += std::string(rng.u(0, 2), ' ') + (real ? fmt("%g", x) : std::to_string(n)) + std::string(rng.u(0, 2), ' ') + "\nrest\n"; vh::note("prompt with " + in);
    std::istringstream is(in); std::streambuf* old = std::cin.rdbuf(is.rdbuf()); std::string out; bool r; int_t gn = 0; double gx = 0; { Capture c; if (real) r = prompt("? ", gx, "bad"); else r = prompt("? ", gn, "bad"); out = c.o.str(); } std::string rest; std::getline(std::cin, rest); std::cin.rdbuf(old); std::cin.clear();
    vh::check(r && (real ? gx == x : gn == n), "value", ""); EQS("consumed", rest, std::string("rest")); std::string e; for (size_t k = 0; k < bad; ++k) e += "? error: bad\n"; e += "? "; EQS("dialogue", out, e); vh::ev("prompted"); vh::sig(fmt("%zu %d", bad, real));
}
#endif
