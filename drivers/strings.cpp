// String conversions, text manipulation, regular expressions and hashing against independent references.
#include "model.hpp"
#include <regex>
#include <sstream>
using namespace vif;
using namespace vh;

std::string text(Rng& r, const std::string& al, size_t n) { std::string s; for (size_t k = 0; k < n; ++k) s += al[r.u(0, al.size()-1)]; return s; }
std::string rtext(Rng& r, const std::string& al, size_t mx = 24) { return r.b(0.06) ? "" : text(r, al, r.u(0, mx)); }
vec1s tov(const std::vector<std::string>& m) { vec1s v; for (auto& x : m) v.push_back(x); return v; }
#define EQS(what, got, exp) vh::checkf((got) == (exp), what, [&]() { return "got '" + std::string(got) + "' expected '" + std::string(exp) + "'"; })
#define EQV(what, got, exp) vh::checkf(eqvec(got, exp), what, [&]() { return "got " + sv(got) + " expected " + sv(exp); })

#if PART == 0
template<typename T> T anyint(Rng& r) {
    switch (r.i(0, 5)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T)r.i(0, 9); case 3: return (T)(std::numeric_limits<T>::max() - (T)r.i(0, 9)); default: return (T)r.next(); }
}
template<typename T> void ints(Rng& rng) {
    T x = anyint<T>(rng), y = 0; std::ostringstream o; o << (std::numeric_limits<T>::is_signed ? std::to_string((long long)x) : std::to_string((unsigned long long)x)); std::string e = o.str(); vh::note("integer " + e);
    EQS("to_string", to_string(x), e); bool ok = from_string(e, y); vh::check(ok && y == x, "from_string", e); y = 0; ok = from_string("  " + e + " ", y); vh::check(ok && y == x, "from_string-spaces", e);
    // too large to fit, by one digit or more
    std::string big = e + text(rng, "0123456789", rng.u(1, 4)); bool fits; if (std::numeric_limits<T>::is_signed) { errno = 0; char* q; long long v = strtoll(big.c_str(), &q, 10); fits = errno == 0 && v >= (long long)std::numeric_limits<T>::min() && v <= (long long)std::numeric_limits<T>::max(); } else { errno = 0; char* q; unsigned long long v = strtoull(big.c_str(), &q, 10); fits = errno == 0 && v <= (unsigned long long)std::numeric_limits<T>::max(); }
    vh::check(from_string(big, y) == fits, "overflow", big); ev(fits ? "fits" : "overflow");
    std::string bad = rng.pick(std::vector<std::string>{e + "x", "x" + e, e + ".5", e + " 3", "", " ", "abc", e + "," + e, "--" + e, e + "e2", "0x1F", "nan", "+-1", "1 2"}); vh::check(!from_string(bad, y), "garbage-accepted", "'" + bad + "'"); ev("garbage");
    vh::sig(e.substr(0, 3) + s1(e.size()) + bad.substr(0, 2));
}
SCEN(int_conv, 4000, 80000) { ints<int>(rng); }
SCEN(int_t_conv, 4000, 80000) { ints<int_t>(rng); }
SCEN(uint_t_conv, 4000, 80000) { ints<uint_t>(rng); }
SCEN(short_conv, 2000, 40000) { ints<short>(rng); }
template<typename T> void reals(Rng& rng) {
    T x; int c = (int)rng.i(0, 6); double z; if (c == 0) z = rng.d(-10, 10); else if (c == 1) z = std::ldexp(rng.d(-1, 1), (int)rng.i(-100, 100)); else if (c == 2) z = (double)rng.i(-1000000, 1000000); else if (c == 3) z = rng.i(-1000, 1000)*1e-3; else if (c == 4) z = rng.pick(std::vector<double>{0, -0.0, 1, 1e5, 1e6, 1e7, 1e-4, 1e-5, 123456, 1234567, 0.15}); else if (c == 5) z = std::numeric_limits<T>::max()*rng.d(); else z = std::numeric_limits<T>::min()*rng.d(1, 3); x = (T)z;
    int p = (int)rng.i(1, 18); char b[400]; vh::note(fmt("%.17g precision %d", (double)x, p));
    snprintf(b, sizeof b, "%g", (double)x); EQS("default", to_string(x), std::string(b)); snprintf(b, sizeof b, "%e", (double)x); EQS("scientific", to_string(format::scientific(x)), std::string(b)); snprintf(b, sizeof b, "%.*g", p, (double)x); EQS("precision", to_string(format::precision(x, p)), std::string(b));
    if (std::fabs(x) < 1e15) { snprintf(b, sizeof b, "%f", (double)x); EQS("fixed", to_string(format::fixed(x)), std::string(b)); snprintf(b, sizeof b, "%.*f", p, (double)x); EQS("fixed-precision", to_string(format::fixed(format::precision(x, p))), std::string(b)); EQS("precision-fixed", to_string(format::precision(format::fixed(x), p)), std::string(b)); }
    snprintf(b, sizeof b, "%.*e", p, (double)x); EQS("scientific-precision", to_string(format::scientific(format::precision(x, p))), std::string(b));
    // with enough digits nothing is lost
    T y = 0; int full = std::numeric_limits<T>::max_digits10; bool ok = from_string(to_string(format::precision(x, full)), y); vh::check(ok && y == x, "round-trip", to_string(format::precision(x, full))); ok = from_string(to_string(format::scientific(format::precision(x, full))), y); vh::check(ok && y == x, "round-trip-sci", "");
    // formatting one value leaves the stream's state alone
    std::ostringstream o; o << format::fixed(format::precision(x, p)) << "|" << 0.5; std::string t = o.str(); EQS("state-restored", t.substr(t.find('|')), std::string("|0.5"));
    std::string bad = rng.pick(std::vector<std::string>{"abc", "1.5x", "", "1,5", "1.5 2", "--1", "1e", "nanx", "infi", "e5", ".", "1.2.3"}); vh::check(!from_string(bad, y), "garbage-accepted", "'" + bad + "'");
    std::vector<std::pair<std::string,int>> sp = {{"nan", 0}, {"NaN", 0}, {"NAN", 0}, {"+nan", 0}, {"-nan", 0}, {"inf", 1}, {"INF", 1}, {"+inf", 1}, {"Inf", 1}, {"-inf", -1}, {"-INF", -1}}; auto s = sp[rng.u(0, sp.size()-1)]; if (rng.b(0.4)) s.first = rng.pick(std::vector<std::string>{"", " ", "\t", "  "}) + s.first + rng.pick(std::vector<std::string>{"", " ", "\t ", "   "}); y = 0; ok = from_string(s.first, y); vh::check(ok && (s.second == 0 ? std::isnan(y) : (std::isinf(y) && (y > 0) == (s.second > 0))), "special", s.first);
    vh::check(!from_string("1e999", y) && !from_string("-1e400", y), "overflow", ""); ev("real"); vh::sig(fmt("%d %d", c, p));
}
SCEN(double_conv, 6000, 100000) { reals<double>(rng); }
SCEN(float_conv, 6000, 100000) { reals<float>(rng); }
// vectors: one string for all, one string per element, and back
SCEN(vec_conv, 6000, 100000) {
    size_t n = rng.b(0.1) ? 0 : rng.u(1, 8); vec1i v; std::string e = "{"; for (size_t k = 0; k < n; ++k) { int_t x = rng.i(-99999, 99999); v.push_back(x); e += (k ? ", " : "") + std::to_string(x); } e += "}"; vh::note("vector of integers " + e); EQS("to_string-vec", to_string(v), e);
    vec1s s = to_string_vector(v); bool ok = s.size() == n && vh::consistent(s); for (size_t k = 0; ok && k < n; ++k) ok = s.safe[k] == std::to_string(v.safe[k]); vh::check(ok, "to_string_vector", svv(s)); vec1i w; vec1b r = from_string(s, w); vh::check(r.size() == n && vh::consistent(w) && eqvec(flat(w), flat(v)), "from_string-vec", svv(w)); for (bool q : r) vh::check(q, "from_string-flag", "");
    if (n) { size_t k = rng.u(0, n-1); vec1s t = s; t[k] = rng.pick(std::vector<std::string>{"abc", "", "1x", "9999999999999999999999"}); vec1i z; vec1b f = from_string(t, z); bool g = f.size() == n && z.size() == n; for (size_t j = 0; g && j < n; ++j) g = (bool)f.safe[j] == (j != k) && (j == k || z.safe[j] == v.safe[j]); vh::check(g, "one-bad-element", svv(f)); ev("partial-failure"); }
    vec2i m(rng.u(1, 3), rng.u(1, 3)); for (auto& x : m) x = rng.i(-9, 9); vec2s ms = to_string_vector(m); vec2i mb; vec2b fb = from_string(ms, mb); vh::check(ms.dims == m.dims && mb.dims == m.dims && fb.dims == m.dims && eqvec(flat(mb), flat(m)), "2-D", "");
    vec1d d(n); for (auto& x : d) x = rng.i(-4000, 4000)*0.37; vec1s ds = to_string_vector(format::precision(d, 17)); vec1d db; from_string(ds, db); vh::check(eqvec(flat(db), flat(d)), "vec-precision", svv(ds)); EQS("bool", to_string(true) + to_string(false), std::string("10"));
    // vectors of booleans, strings, reals; views; 2-D vectors; arrays of dimensions; several arguments at once
    { vec1b b; vec1s t; std::string eb = "{", et = "{", er = "{"; vec1u ids; for (size_t k = 0; k < n; ++k) { bool q = rng.b(); b.push_back(q); eb += (k ? ", " : ""); eb += q ? "1" : "0"; t.push_back(rtext(rng, "ab,{} ", 4)); et += (k ? ", " : "") + t.safe[k]; ids.push_back(n-1-k); er += (k ? ", " : "") + std::to_string(v.safe[n-1-k]); } eb += "}"; et += "}"; er += "}"; EQS("bool-vec", to_string(b), eb); EQS("string-vec", to_string(t), et); EQS("view", to_string(v[ids]), er);
      const vec1i& cv = v; EQS("const-view", to_string(cv[ids]), er); std::string em = "{"; for (size_t k = 0; k < m.size(); ++k) em += (k ? ", " : "") + std::to_string(m.safe[k]); em += "}"; EQS("2-D-text", to_string(m), em); EQS("dims", to_string(m.dims), "{" + std::to_string(m.dims[0]) + ", " + std::to_string(m.dims[1]) + "}");
      vec1s bs = to_string_vector(b); bool g = bs.size() == n; for (size_t k = 0; g && k < n; ++k) g = bs.safe[k] == (b.safe[k] ? "1" : "0"); vh::check(g, "bool-to_string_vector", svv(bs)); vec1b bb; vec1b fb2 = from_string(bs, bb); vh::check(eqvec(flat(bb), flat(b)), "bool-from_string", svv(bb));
      vec1s vs2 = to_string_vector(v[ids]); g = vs2.size() == n; for (size_t k = 0; g && k < n; ++k) g = vs2.safe[k] == s.safe[n-1-k]; vh::check(g, "view-to_string_vector", svv(vs2)); vec1i vi2; from_string(s[ids], vi2); g = vi2.size() == n; for (size_t k = 0; g && k < n; ++k) g = vi2.safe[k] == v.safe[n-1-k]; vh::check(g, "view-from_string", svv(vi2)); }
    vh::sig(s1(n));
}
#elif PART == 1
// slow but obvious references
std::string rreplace(const std::string& s, const std::string& p, const std::string& r) { std::string o; size_t k = 0; while (k < s.size()) { if (s.compare(k, p.size(), p) == 0) { o += r; k += p.size(); } else o += s[k++]; } return o; }
std::vector<std::string> rsplit(const std::string& s, const std::string& p) { std::vector<std::string> o; std::string c; size_t k = 0; while (k < s.size()) { if (s.compare(k, p.size(), p) == 0) { o.push_back(c); c.clear(); k += p.size(); } else c += s[k++]; } o.push_back(c); return o; }
std::vector<std::string> rwords(const std::string& s, const std::string& ch) { std::vector<std::string> o; std::string c; for (char x : s) { if (ch.find(x) != std::string::npos) { if (!c.empty()) o.push_back(c); c.clear(); } else c += x; } if (!c.empty()) o.push_back(c); return o; }
SCEN(find_replace, 20000, 300000) {
    std::string al = rng.pick(std::vector<std::string>{"ab", "abc,", "a b\t"}); std::string s = rtext(rng, al), p = text(rng, al, rng.u(1, 3)), r = rng.b(0.2) ? "" : rng.b(0.3) ? p + p : text(rng, al, rng.u(0, 4)); vh::note("find/replace '" + s + "' '" + p + "' -> '" + r + "'");
    size_t f = npos; for (size_t k = 0; k + p.size() <= s.size(); ++k) if (s.compare(k, p.size(), p) == 0) { f = k; break; } vh::check(find(s, p) == f, "find", s1(find(s, p))); EQS("replace", replace(s, p, r), rreplace(s, p, r));
    bool b = s.size() >= p.size() && s.substr(0, p.size()) == p, e = s.size() >= p.size() && s.substr(s.size()-p.size()) == p; vh::check(begins_with(s, p) == b, "begins_with", ""); vh::check(ends_with(s, p) == e, "ends_with", ""); vh::check(begins_with(s, "") && ends_with(s, ""), "empty-affix", ""); vh::check(begins_with(p + s, p) && ends_with(s + p, p), "affix", "");
    std::string o; Outcome q = guarded([&]() { o = erase_begin(s, p); }); if (b) EQS("erase_begin-str", o, s.substr(p.size())); else vh::check(q.refused(), "erase_begin-missing-accepted", ""); q = guarded([&]() { o = erase_end(s, p); }); if (e) EQS("erase_end-str", o, s.substr(0, s.size()-p.size())); else vh::check(q.refused(), "erase_end-missing-accepted", ""); if (!b) ev("refused");
    size_t n = rng.u(0, s.size() + 2); EQS("erase_begin", erase_begin(s, n), (n >= s.size() ? std::string() : s.substr(n))); EQS("erase_end", erase_end(s, n), (n >= s.size() ? std::string() : s.substr(0, s.size()-n))); EQS("keep_first", keep_first(s, n), s.substr(0, std::min(n, s.size()))); EQS("keep_first-default", keep_first(s), s.substr(0, 1)); EQS("keep_last-default", keep_last(s), (s.empty() ? s : s.substr(s.size()-1))); EQS("keep_last", keep_last(s, n), (n >= s.size() ? s : s.substr(s.size()-n)));
    vec1s v = tov({s, p, r, s + p}); vec1u fv = find(v, p); vec1s rv = replace(v, p, r); bool ok = fv.size() == 4 && rv.size() == 4; for (size_t k = 0; ok && k < 4; ++k) ok = fv.safe[k] == find(v.safe[k], p) && rv.safe[k] == rreplace(v.safe[k], p, r); vh::check(ok, "vectorised", ""); vec1b bv = begins_with(v, p); vh::check(bv[0] == b && bv[1], "vectorised-bool", ""); vh::check(length(s) == s.size() && empty(s) == s.empty() && length(v)[0] == s.size(), "length", "");
    ev("find-replace"); vh::sig(fmt("%zu %zu %zu %d%d", s.size(), p.size(), r.size(), (int)b, (int)e));
}
SCEN(splitting, 20000, 300000) {
    std::string al = rng.pick(std::vector<std::string>{"ab,", "a,;", "ab, "}); std::string s = rtext(rng, al), p = rng.pick(std::vector<std::string>{",", ",,", "a", "ab", ", ", "zz"}), ch = rng.pick(std::vector<std::string>{",", ",;", " ,", "ab"}); vh::note("split '" + s + "' by '" + p + "' / any of '" + ch + "'");
    auto e = rsplit(s, p); vec1s g = split(s, p); vh::check(vh::consistent(g), "split-dims", ""); EQV("split", flat(g), e); EQS("rejoin", collapse(g, p), s); if (p.size() == 1) EQV("split-char", flat(split(s, p)), e); auto w = rwords(s, ch); vec1s gw = split_any_of(s, ch); vh::check(vh::consistent(gw), "split_any_of-dims", ""); EQV("split_any_of", flat(gw), w);
    size_t n = rng.u(1, 9); vec1s c = cut(s, n); EQS("cut-rejoin", collapse(c), s); bool ok = vh::consistent(c); for (size_t k = 0; k < c.size(); ++k) ok = ok && (k + 1 < c.size() ? c.safe[k].size() == n : c.safe[k].size() <= n && !c.safe[k].empty()); vh::check(ok, "cut-lengths", svv(c));
    int k = (int)rng.i(-6, 5); std::string o; Outcome q = guarded([&]() { o = get_word(s, k, ch); }); long long pos = k < 0 ? (long long)w.size() + k : k; if (pos >= 0 && pos < (long long)w.size()) { vh::check(q.ok(), "get_word-refused", q.str()); if (q.ok()) EQS("get_word", o, w[pos]); } else { vh::check(q.refused(), "get_word-missing-accepted", o); ev("refused"); }
    auto m = rng.u(0, 5); std::vector<std::string> parts; for (size_t i = 0; i < m; ++i) parts.push_back(rtext(rng, "abc", 4)); std::string j, js; for (size_t i = 0; i < m; ++i) { j += parts[i]; if (i) js += p; js += parts[i]; } EQS("collapse", collapse(tov(parts)), j); EQS("collapse-sep", collapse(tov(parts), p), js);
    ev("split"); vh::sig(fmt("%zu %zu %zu", s.size(), e.size(), w.size()) + p);
}
SCEN(trimming, 12000, 200000) {
    std::string ch = rng.pick(std::vector<std::string>{" \t\n\r", "x", ".-"}); std::string al = ch + "ab"; std::string s = rtext(rng, al, 12); vh::note("trim '" + s + "' of '" + ch + "'"); size_t b = 0, e = s.size(); while (b < e && ch.find(s[b]) != std::string::npos) ++b; while (e > b && ch.find(s[e-1]) != std::string::npos) --e; EQS("trim", trim(s, ch), s.substr(b, e-b)); if (ch[0] == ' ') EQS("trim-default", trim(s), s.substr(b, e-b));
    std::string u = rtext(rng, "aZz09_-éÿ", 12), up, lo; for (unsigned char c : u) { up += (c >= 'a' && c <= 'z') ? (char)(c - 32) : (char)c; lo += (c >= 'A' && c <= 'Z') ? (char)(c + 32) : (char)c; } EQS("to_upper", to_upper(u), up); EQS("to_lower", to_lower(u), lo);
    size_t w = rng.u(0, 16); char f = rng.pick(std::vector<char>{' ', '0', '*'}); std::string pad = w > s.size() ? std::string(w - s.size(), f) : ""; EQS("align_left", align_left(s, w, f), s + pad); EQS("align_right", align_right(s, w, f), pad + s); std::string c = align_center(s, w, f); size_t n1 = pad.size()/2; EQS("align_center", c, std::string(n1, f) + s + std::string(pad.size() - n1, f));
    std::string t = rtext(rng, al, 12); size_t d = s.size() > t.size() ? s.size()-t.size() : t.size()-s.size(); for (size_t k = 0; k < std::min(s.size(), t.size()); ++k) d += s[k] != t[k]; vh::check(distance(s, t) == d && distance(t, s) == d && distance(s, s) == 0, "distance", ""); ev("trim"); vh::sig(fmt("%zu %zu %zu", s.size(), e-b, w));
}
// wrap: same words in order, no line longer than asked unless it is one word, filled greedily
SCEN(wrapping, 12000, 200000) {
    size_t nw = rng.u(0, 14); std::vector<std::string> w; for (size_t k = 0; k < nw; ++k) w.push_back(text(rng, "abcdefgh.", rng.b(0.15) ? rng.u(8, 30) : rng.u(1, 7))); std::string ind = std::string(rng.u(0, 4), rng.b(0.7) ? ' ' : '>'); size_t width = rng.u(ind.size() + 5, 30); bool ell = rng.b(0.4); std::string s; for (size_t k = 0; k < nw; ++k) s += (k ? " " : "") + w[k]; vh::note(fmt("wrap at %zu ellipsis %d indent '", width, (int)ell) + ind + "' '" + s + "'");
    vec1s g = wrap(s, width, ind, ell); std::vector<std::string> e; std::string line; size_t k = 0; bool first = true; while (k < nw) { std::string hd = first ? "" : ind; size_t room = width - hd.size(); line = w[k]; if (line.size() > room) { if (ell) line = line.substr(0, room-3) + "..."; ++k; } else { ++k; while (k < nw && line.size() + 1 + w[k].size() <= room) line += " " + w[k++]; } e.push_back(hd + line); first = false; }
    vh::check(vh::consistent(g), "dims", ""); EQV("wrap", flat(g), e); ev("wrap"); vh::sig(fmt("%zu %zu %zu %d", nw, width, e.size(), (int)ell));
}
SCEN(blocks, 12000, 200000) {
    std::string s = rtext(rng, "ab<>|", 20); std::string B = "<", E = ">", S = "|"; if (rng.b(0.3)) { B = "<<"; E = ">>"; } if (rng.b(0.2)) S = "||"; if (rng.b(0.15)) S = rng.b() ? "|>" : ">|"; vh::note("blocks '" + B + "' '" + S + "' '" + E + "' in '" + s + "'"); std::string e; std::string e2; bool bad = false; size_t k = 0; size_t nb = 0;
    while (k < s.size()) { if (s.compare(k, B.size(), B) == 0) { size_t p = s.find(E, k + B.size()); if (p == std::string::npos) { bad = true; break; } std::string c = s.substr(k + B.size(), p - k - B.size()); e += "[" + c + "]"; auto parts = rsplit(c, S); e2 += "["; for (size_t i = 0; i < parts.size(); ++i) e2 += (i ? "/" : "") + parts[i]; e2 += "]"; k = p + E.size(); ++nb; } else { e += s[k]; e2 += s[k]; ++k; } }
    std::string g, g2; Outcome o = guarded([&]() { g = replace_block(s, B, E, [](std::string t) { return "[" + t + "]"; }); }); Outcome o2 = guarded([&]() { g2 = replace_blocks(s, B, S, E, [](vec1s t) { return "[" + collapse(t, "/") + "]"; }); });
    if (bad) { vh::check(o.refused() && o2.refused(), "unterminated-accepted", ""); ev("refused"); } else { vh::check(o.ok() && o2.ok(), "valid-refused", o.str() + o2.str()); if (o.ok()) EQS("replace_block", g, e); if (o2.ok()) EQS("replace_blocks", g2, e2); ev("blocks", nb); } vh::sig(fmt("%zu %zu %d", s.size(), nb, (int)bad) + B + S);
}
#elif PART == 2
// regular expressions: an independent engine gives the expected matches
SCEN(regexes, 6000, 100000) {
    static const std::vector<std::string> pats = {"([0-9]+)\\.([0-9]+)", "([a-c])=([0-9]+)", "^([a-c]+)", "([0-9])$", "(a|bc)", "[a-c]+", "((a)(b))", "\\(([0-9]+)\\)", "[(]([0-9]+)[)]", "(a+)|(b+)", "([a-c])([0-9])?", "a(b?)c", "=\\(?([0-9]{2})"};
    std::string p = rng.pick(pats), s = rtext(rng, rng.pick(std::vector<std::string>{"abc=12.", "ab12()=", "abc", "12."}), 30); vh::note("regex '" + p + "' on '" + s + "'"); std::regex re(p, std::regex::extended); std::vector<std::vector<std::string>> m; std::string rep; size_t last = 0; for (auto it = std::sregex_iterator(s.begin(), s.end(), re); it != std::sregex_iterator(); ++it) { std::vector<std::string> g; for (size_t k = 1; k < it->size(); ++k) g.push_back((*it)[k].str()); m.push_back(g); rep += s.substr(last, it->position() - last) + "<" + sv(g) + ">"; last = it->position() + it->length(); } rep += s.substr(last);
    vh::check(regex_match(s, p) == !m.empty(), "match", ""); vec1b mv = regex_match(vec1s{s, "", s}, p); vh::check(mv[0] == !m.empty() && mv[2] == !m.empty(), "match-vec", ""); vec1b mp = regex_match(s, vec1s{p, "^$"}); vh::check(mp[0] == !m.empty() && mp[1] == s.empty(), "match-patterns", "");
    size_t ng = re.mark_count(); vec2s x = regex_extract(s, p); if (ng == 0) vh::check(x.empty(), "extract-no-group", ""); else { bool ok = vh::consistent(x) && (m.empty() ? x.empty() : x.dims[0] == m.size() && x.dims[1] == ng); for (size_t i = 0; ok && i < m.size(); ++i) for (size_t j = 0; j < ng; ++j) ok = ok && x.safe(i,j) == m[i][j]; vh::check(ok, "extract", svv(x)); }
    size_t calls = 0; std::string r = regex_replace(s, p, [&](vec1s g) { ++calls; return "<" + sv(flat(g)) + ">"; }); vh::check(calls == m.size(), "replace-calls", s1(calls)); EQS("replace", r, rep); ev("matches", m.size()); vh::sig(p + s1(m.size()));
    std::string bad = rng.pick(std::vector<std::string>{"(", "[a", "a{2", "*", "(a", "a{3,1}"}); if (bad != "*" && bad != "a{2") { vh::check(guarded([&]() { regex_match(s, bad); }).refused(), "invalid-accepted", bad); vh::check(guarded([&]() { regex_extract(s, bad); }).refused(), "invalid-accepted-extract", bad); ev("refused"); }
    // expressions that can match nothing at all must still finish, and rebuild the text
    std::string em = rng.pick(std::vector<std::string>{"(a*)", "(x*)", "(a?)", "([0-9]*)"}); EQS("empty-match", regex_replace(s, em, [](vec1s g) { return g[0]; }), s); ev("empty-match");
}
// SHA-1, written from the standard
std::string sha1(const std::string& in) {
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }; uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; std::string m = in; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; uint64_t bits = (uint64_t)in.size()*8; for (int k = 7; k >= 0; --k) m += (char)((bits >> (8*k)) & 0xff);
    for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for (int k = 0; k < 16; ++k) w[k] = ((uint32_t)(uint8_t)m[o+4*k] << 24) | ((uint32_t)(uint8_t)m[o+4*k+1] << 16) | ((uint32_t)(uint8_t)m[o+4*k+2] << 8) | (uint32_t)(uint8_t)m[o+4*k+3]; for (int k = 16; k < 80; ++k) w[k] = rol(w[k-3] ^ w[k-8] ^ w[k-14] ^ w[k-16], 1); uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int k = 0; k < 80; ++k) { uint32_t f, q; if (k < 20) { f = (b & c) | (~b & d); q = 0x5A827999; } else if (k < 40) { f = b ^ c ^ d; q = 0x6ED9EBA1; } else if (k < 60) { f = (b & c) | (b & d) | (c & d); q = 0x8F1BBCDC; } else { f = b ^ c ^ d; q = 0xCA62C1D6; } uint32_t t = rol(a, 5) + f + e + q + w[k]; e = d; d = c; c = rol(b, 30); b = a; a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    std::string r; for (int k = 0; k < 5; ++k) r += fmt("%08x", h[k]); return r;
}
SCEN(hashing, 4000, 60000) {
    // how the argument's type is spelled is not specified: find it once on short strings, then expect SHA-1 for every length
    static std::string prefix; static bool known = false; if (!known) { known = true; for (auto p : {"string&", "const string&", "string", "std::string", "", typeid(std::string).name()}) { std::string a = "q"; const std::string& ca = a; if (hash(ca) == sha1(std::string(p) + "q")) prefix = p; } if (prefix.empty() && hash((const std::string&)std::string("q")) != sha1("q")) prefix = "?"; }
    size_t n = rng.b(0.5) ? rng.u(0, 140) : rng.b(0.9) ? rng.u(40, 75) : rng.u(140, 5000); std::string s; for (size_t k = 0; k < n; ++k) s += (char)rng.i(1, 255); const std::string& cs = s; vh::note(fmt("hash of %zu bytes", n)); std::string h = hash(cs); bool hex = h.size() == 40; for (char c : h) hex = hex && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')); vh::check(hex, "form", h); vh::check(hash(cs) == h, "not-deterministic", ""); if (prefix != "?") { EQS("sha1", h, sha1(prefix + s)); ev("sha1-compared"); }
    if (n) { std::string t = s; size_t k = rng.u(0, n-1); t[k] = (char)(t[k] == 'a' ? 'b' : 'a'); if (t != s) vh::check(hash((const std::string&)t) != h, "collision", fmt("byte %zu of %zu", k, n)); } vh::check(hash((const std::string&)(s + "a")) != h, "collision-append", "");
    double x = rng.d(-100, 100), y = std::nextafter(x, 1000); vh::check(hash(x) != hash(y) && hash(x) == hash(double(x)), "collision-double", fmt("%.17g", x)); vec1d v = {1.0, x}, w = {1.0, y}; vh::check(hash(v) != hash(w) && hash(v) == hash(vec1d(v)), "collision-vec", ""); float fx = (float)x, fy = std::nextafter(fx, 1000.0f); vh::check(hash(fx) != hash(fy), "collision-float", "");
    { double lx = x; const double cx = x; std::string ls = s; const vec1d cv = v; vh::check(hash(lx) == hash(cx) && hash(cx) == hash(double(x)) && hash(ls) == hash(cs) && hash(cs) == hash(std::string(s)) && hash(cv) == hash(vec1d(v)) && hash(v) == hash(cv), "same-value-differs", ""); } vh::check(hash(1, 2, 3) != hash(1, 2, 4) && hash(1, 2) != hash(1, 2, 3) && hash(1, x) != hash(2, x), "arguments", ""); int i = (int)rng.i(0, 100000); vh::check(hash(i) != hash(i + 1), "collision-int", ""); vh::check(hash(1, 2, 3) == "570331ab965721aae8a8b3c628cae57a21a37560" && hash(1.0, 2.0, 3.0) == "9c45014f7c7943cb7860f3db4b885fb44b510ec8", "documented-values", hash(1, 2, 3) + " " + hash(1.0, 2.0, 3.0)); ev("hash"); vh::sig(s1(n));
}
#endif
