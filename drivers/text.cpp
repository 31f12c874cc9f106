/* C23 searches and spans, C24 numbers and tokens */
#include "calls.h"
#include <set>
#include "coda/string.h"
#include "coda/string.hpp"
#include "coda/easy_parsing.hpp"
using namespace drv;
typedef char *(*chr_t)(const char *, char, size_t);
typedef size_t (*chp_t)(const char *, char, size_t);
typedef char *(*str_t)(const char *, const char *, size_t);
typedef size_t (*spn_t)(const char *, const char *, size_t);
typedef size_t (*spi_t)(const char *, const char *);
static struct { const char *n; chr_t f; } chrs[] = { {"strnchr", coda_strnchr}, {"strxchr", coda_strxchr}, {"revnchr", coda_revnchr}, {"revxchr", coda_revxchr} };
static struct { const char *n; chp_t f; } chps[] = { {"strnchp", coda_strnchp}, {"strxchp", coda_strxchp} };
static struct { const char *n; str_t f; } strs[] = { {"strnstr", coda_strnstr}, {"strxstr", coda_strxstr} };
static struct { const char *n; spn_t f; } spns[] = { {"strnspn", coda_strnspn}, {"strxspn", coda_strxspn}, {"revnspn", coda_revnspn}, {"revxspn", coda_revxspn},
	{"strnspc", coda_strnspc}, {"strxspc", coda_strxspc}, {"revnspc", coda_revnspc}, {"revxspc", coda_revxspc} };
static struct { const char *n; spi_t f; } spis[] = { {"strispn", coda_strispn}, {"strispc", coda_strispc} };
static void search(const char *f, const std::string &s, const std::string &n, long long r) { emit(Obj().t("f", f).b("s", s).b("n", n).n("r", r).end()); }
static std::string vec(const std::vector<std::string> &v) { Arr a; for (size_t i = 0; i < v.size(); ++i) a.raw(arr(v[i])); return a.end(); }
static void call(Line &l)
{
	std::string f = l.s(); Obj o;
	if (f == "search") { /* all applicable functions on one text and one needle/set */
		std::string s = l.b(), n = l.b(); Exact t(s); CStr N(n); bool cs = s.find('\0') == std::string::npos;
		if (n.size()) { for (int i = 0; i < 4; ++i) { char *r = chrs[i].f(t.p, n[0], t.n); search(chrs[i].n, s, n, r ? r - t.p : -1); }
			for (int i = 0; i < 2; ++i) search(chps[i].n, s, n, chps[i].f(t.p, n[0], t.n)); }
		if (n.find('\0') != std::string::npos) return;
		if (n.size() || s.size()) for (int i = 0; i < 2; ++i) { char *r = strs[i].f(t.p, N.p, t.n); search(strs[i].n, s, n, r ? r - t.p : -1); }
		for (int i = 0; i < 8; ++i) search(spns[i].n, s, n, spns[i].f(t.p, N.p, t.n));
		if (cs) { CStr c(s); if (s.size()) { char *r = coda_stristr(c.p, N.p); search("stristr", s, n, r ? r - c.p : -1); }
			for (int i = 0; i < 2; ++i) search(spis[i].n, s, n, spis[i].f(c.p, N.p)); }
		return; }
	else if (f == "far") { /* a^n b a^m: every search and span, with an exact buffer */
		long n = l.i(), m = l.i(); std::string s = std::string(n, 'a') + "b" + std::string(m, 'a'); static const char *nd[] = { "b", "a", "ab", "ba", "B", "aB", "aa", "aba" }; Exact t(s); CStr c(s);
		for (int k = 0; k < 8; ++k) { CStr N(nd[k]); auto put = [&](const char *f, long long r) { emit(Obj().t("f", f).n("far", 1).n("n1", n).n("m1", m).b("n", nd[k]).n("r", r).end()); };
			for (int i = 0; i < 4; ++i) { char *r = chrs[i].f(t.p, N.p[0], t.n); put(chrs[i].n, r ? r - t.p : -1); } for (int i = 0; i < 2; ++i) put(chps[i].n, chps[i].f(t.p, N.p[0], t.n));
			for (int i = 0; i < 2; ++i) { char *r = strs[i].f(t.p, N.p, t.n); put(strs[i].n, r ? r - t.p : -1); } for (int i = 0; i < 8; ++i) put(spns[i].n, spns[i].f(t.p, N.p, t.n));
			{ char *r = coda_stristr(c.p, N.p); put("stristr", r ? r - c.p : -1); } for (int i = 0; i < 2; ++i) put(spis[i].n, spis[i].f(c.p, N.p)); }
		return; }
	else if (f == "pieces") { /* k pieces of n letters */
		long k = l.i(), n = l.i(); std::string p(n, 'x'), s; for (long i = 0; i < k; ++i) s += (i ? "," : "") + p; int same = 1; std::string u = s; for (size_t i = 0; i < u.size(); ++i) if (u[i] == ',') u[i] = ' ';
		auto all = [&](const std::vector<std::string> &v) { same = same && v.size() == (size_t) k; for (size_t i = 0; i < v.size(); ++i) same = same && v[i] == p; };
		{ Exact t(s); all(coda_split_string(t.p, t.n, ",", true)); all(coda_split_string(t.p, t.n, ",", false)); } { CStr c(s); all(coda_split_string(c.p, ",", true)); std::set<std::string> m; coda_get_stringset(c.p, m); same = same && m.size() == 1 && *m.begin() == p; }
		{ CStr c(u); const char *be = c.p, *en = 0; std::vector<std::string> v; while (get_next_word(be, en) == 1) { v.push_back(std::string(be, en - be)); be = en; } all(v); }
		{ std::string q; for (long i = 0; i < k; ++i) q += (i ? "," : "") + num(i * 7); CStr c(q); std::set<uint64_t> m; if (k <= 2000) { coda_get_uint64set(c.p, m); same = same && m.size() == (size_t) k; for (long i = 0; i < k; ++i) same = same && m.count(i * 7); } }
		{ Exact x("ab"); std::string r = coda_random_string(k * n, x.p, x.n); same = same && r.size() == (size_t) (k * n) && r.find_first_not_of("ab") == r.npos; }
		o.t("f", f).n("k", k).n("n1", n).raw("same", B(same)); }
	else if (f == "num") { std::string s = l.b(); Exact t(s); char b[32]; snprintf(b, 32, "%llu", (unsigned long long) coda_atou(t.p, t.n));
		emit(Obj().t("f", "atou").b("s", s).b("r", b).end()); snprintf(b, 32, "%lld", (long long) coda_atoi(t.p, t.n)); o.t("f", "atoi").b("s", s).b("r", b); }
	else if (f == "split") { std::string s = l.b(), d = l.b(); CStr D(d);
		for (int ig = 0; ig < 2; ++ig) { Exact t(s); emit(Obj().t("f", "splitn").b("s", s).b("n", d).raw("ignore", B(ig)).raw("r", vec(coda_split_string(t.p, t.n, D.p, ig))).end());
			if (s.find('\0') == std::string::npos) { CStr c(s); emit(Obj().t("f", "split").b("s", s).b("n", d).raw("ignore", B(ig)).raw("r", vec(coda_split_string(c.p, D.p, ig))).end()); } }
		Exact t(s); emit(Obj().t("f", "splitn").b("s", s).b("n", d).raw("ignore", "true").raw("r", vec(coda_split_string(t.p, t.n, D.p))).end());
		return; }
	else if (f == "strset") { std::set<std::string> m; int k = l.i(); while (k--) m.insert(l.b()); std::string pre = vec(std::vector<std::string>(m.begin(), m.end()));
		std::string s = l.b(); CStr c(s); coda_get_stringset(c.p, m); o.t("f", f).b("s", s).raw("pre", pre).raw("r", vec(std::vector<std::string>(m.begin(), m.end()))); }
	else if (f == "numset") { std::set<uint64_t> m; int k = l.i(); while (k--) m.insert(strtoull(l.s().c_str(), 0, 10));
		std::vector<std::string> a, b; char t[32]; for (std::set<uint64_t>::iterator i = m.begin(); i != m.end(); ++i) { snprintf(t, 32, "%llu", (unsigned long long) *i); a.push_back(t); }
		std::string s = l.b(); CStr c(s); { volatile char junk[512]; for (int i = 0; i < 512; ++i) junk[i] = 0x5a; } coda_get_uint64set(c.p, m);
		for (std::set<uint64_t>::iterator i = m.begin(); i != m.end(); ++i) { snprintf(t, 32, "%llu", (unsigned long long) *i); b.push_back(t); }
		o.t("f", f).b("s", s).raw("pre", vec(a)).raw("r", vec(b)); }
	else if (f == "words") { std::string s = l.b(); CStr c(s); const char *be = c.p, *en = 0; std::vector<std::string> v; int r, n = 0;
		while ((r = get_next_word(be, en)) == 1 && n++ < 1000) { v.push_back(std::string(be, en - be)); be = en; }
		o.t("f", f).b("s", s).raw("r", vec(v)).n("last", r); }
	else if (f == "random") { size_t k = l.i(); std::string a = l.b(); Exact x(a); std::string r = coda_random_string(k, x.p, x.n); o.t("f", f).n("size", k).b("n", a).b("r", r); }
	else _exit(97);
	emit(o.end());
}
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
