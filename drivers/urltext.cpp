#include "calls.h"
#include "coda/url.hpp"
using namespace drv;
static std::string pairs(const std::map<std::string, std::string> &m)
{ Arr a; for (std::map<std::string, std::string>::const_iterator i = m.begin(); i != m.end(); ++i) { Arr p; p.raw(arr(i->first)).raw(arr(i->second)); a.raw(p.end()); } return a.end(); }
/* long texts: a piece many times over; what comes of it must be what comes of the piece, as many times */
static std::string times(const std::string &s, long k) { std::string r; r.reserve(s.size() * k); while (k--) r += s; return r; }
static void rep(Line &l)
{
	std::string g = l.s(), x = l.b(); long k = l.i(); std::string X = times(x, k); Exact in(X); bool enc = g == "urlenc" || g == "urlencnp"; bool plus = g != "urlencnp"; int same = 1;
	std::string y = g == "urlenc" ? coda_urlenc(x) : g == "urlencnp" ? coda_urlenc_noplus(x) : g == "urldec" ? coda_urldec(x) : "";
	if (enc || g == "urldec")
	{
		std::string Y = times(y, k); same = (enc ? plus ? coda_urlenc(in.p, in.n) : coda_urlenc_noplus(in.p, in.n) : coda_urldec(in.p, in.n)) == Y && (enc ? plus ? coda_urlenc(X) : coda_urlenc_noplus(X) : coda_urldec(X)) == Y;
		if (plus) { Buf b(Y.size() + 1); size_t r = enc ? coda_urlenc(b.c(), in.p, in.n) : coda_urldec(b.c(), in.p, in.n); same = same && r == Y.size() && b.s() == Y + std::string(1, '\0'); }
	}
	else if (g == "escape" || g == "unescape" || g == "preunescape")
	{
		CStr c(X), d(x); Buf s(4 * x.size() + 8), b(4 * X.size() + 8);
		if (g == "escape") { coda_url_escape(d.p, s.c(), s.n); coda_url_escape(c.p, b.c(), b.n); } else if (g == "unescape") { coda_url_unescape(d.p, s.c(), s.n); coda_url_unescape(c.p, b.c(), b.n); } else { coda_url_preunescape(d.p, s.c(), s.n); coda_url_preunescape(c.p, b.c(), b.n); }
		y = s.c(); same = times(y, k) == b.c();
	}
	else    /* one parameter or header with a long value, many with short ones */
	{
		bool p = g == "params"; std::string t = p ? "n=" + X + "&m=" + x : "n:" + X + "\r\nm:" + x, many; std::map<std::string, std::string> m, q; for (long i = 0; i < k; ++i) many += "k" + num(i) + (p ? "=" : ":") + x + (p ? "&" : "\r\n");
		{ Exact e(t); p ? coda_get_params_buf(m, e.p, e.n) : coda_get_header_buf(m, e.p, e.n); } { CStr e(many); p ? coda_get_params(q, e.p) : coda_get_header(q, e.p); }
		same = m.size() == 2 && m["n"] == X && q.size() == (size_t) k; y = m["m"]; for (long i = 0; i < k && same; ++i) same = q["k" + num(i)] == y;
	}
	emit(Obj().t("f", "rep").t("g", g).b("in", x).n("k", k).b("y", y).raw("same", B(same)).end());
}
static void call(Line &l)
{
	std::string f = l.s(); Obj o;
	if (f == "rep") { rep(l); return; }
	if (f == "urlenc" || f == "urlencnp") { bool plus = f == "urlenc"; Exact in(l.b()); Buf b(3 * in.n + 1); std::string src(in.p, in.n);
		size_t r = 0; if (plus) r = coda_urlenc(b.c(), in.p, in.n);
		std::string s1 = plus ? coda_urlenc(in.p, in.n) : coda_urlenc_noplus(in.p, in.n), s2 = plus ? coda_urlenc(src) : coda_urlenc_noplus(src);
		o.t("f", "urlenc").raw("in", arr(in.p, in.n)).raw("plus", B(plus)).n("r", r).b("buf", b.s()).b("sout", s1).b("strout", s2); }
	else if (f == "urldec") { Exact in(l.b()); Buf b(in.n + 1); std::string src(in.p, in.n); size_t r = coda_urldec(b.c(), in.p, in.n);
		o.t("f", f).raw("in", arr(in.p, in.n)).n("r", r).b("buf", b.s()).b("sout", coda_urldec(in.p, in.n)).b("strout", coda_urldec(src)); }
	else if (f == "round") { std::string in = l.b(); o.t("f", f).b("in", in); int k = l.i();
		if (k == 2) { CStr c(in); Buf e(in.size() * 3 + 6), d(in.size() + 6); coda_url_escape(c.p, e.c(), e.n); coda_url_unescape(e.c(), d.c(), d.n); o.b("out", std::string(d.c())); }
		else { std::string e = k ? coda_urlenc_noplus(in) : coda_urlenc(in); o.b("out", coda_urldec(e)); } }
	else if (f == "escape" || f == "unescape" || f == "preunescape") { std::string in = l.b(); CStr c(in); Buf b(l.i());
		if (f == "escape") coda_url_escape(c.p, b.c(), b.n); else if (f == "unescape") coda_url_unescape(c.p, b.c(), b.n); else coda_url_preunescape(c.p, b.c(), b.n);
		o.t("f", f).b("in", in).b("buf", b.s()); }
	else if (f == "params" || f == "header") { std::map<std::string, std::string> m; int n = l.i(); while (n--) { std::string k = l.b(); m[k] = l.b(); }
		std::string pre = pairs(m), in = l.b(); int z = l.i(), r;
		if (z) { CStr c(in); r = f == "params" ? coda_get_params(m, c.p) : coda_get_header(m, c.p); }
		else { Exact c(in); r = f == "params" ? coda_get_params_buf(m, c.p, c.n) : coda_get_header_buf(m, c.p, c.n); }
		o.t("f", f).b("in", in).raw("pre", pre).n("r", r).raw("post", pairs(m)); }
	else if (f == "null") { std::map<std::string, std::string> m; int k = l.i(); int r = k == 0 ? coda_get_params(m, 0) : k == 1 ? coda_get_header(m, 0) : k == 2 ? coda_get_params_buf(m, 0, 3) : coda_get_header_buf(m, 0, 3); o.t("f", f).n("r", m.empty() ? r : 99); }
	else _exit(97);
	emit(o.end());
}
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
