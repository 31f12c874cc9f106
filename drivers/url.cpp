/* C21 C22: one run per line over n URL objects.
 * <n> then ops: abs i u flags | rel i j u flags | assign i j | copy i j | new i   (objects from 1) */
#include "calls.h"
#include "coda/url_parser.hpp"
using namespace drv;
/* long texts of known shape: long <h> <p> <q> <j>: h labels, p segments, q bytes of query, j steps up */
static std::string times(const std::string &s, long k) { std::string r; while (k-- > 0) r += s; return r; }
static bool is(const coda_url &u, const std::string &url, const std::string &dom) { return url == u.get_url() && dom == u.get_domain() && u.get_url_len() == url.size() && u.get_domain_len() == dom.size() && !u.empty(); }
static void far(Line &l)
{
	long h = l.i(), p = l.i(), q = l.i(), j = l.i(); Arr a; auto put = [&](const char *g, bool ok) { a.raw(Obj().t("f", "long").t("g", g).n("h", h).n("p", p).n("q", q).n("j", j).raw("same", B(ok)).end()); };
	std::string host = times("ab.", h) + "org", HOST = times("Ab.", h) + "ORG", dom = h ? "ab.org" : "org", path = "/" + times("cd/", p), query = q ? "?" + times("y", q) : ""; coda_url c;
	auto abs = [&](const char *g, const std::string &t, const std::string &url) { coda_url u; Exact e(t); int r = u.create_absolute(e.p, e.n, 1); bool ok = !r && is(u, url, dom); coda_url v(u), w; w = v; put(g, ok && is(v, url, dom) && is(w, url, dom)); c = w; };
	abs("plain", "HTTP://" + HOST + path + "f" + query, "http://" + host + path + "f" + query);
	abs("here", "https://" + host + "/" + times("./", p) + "f" + query + "#" + times("z", q), "https://" + host + "/f" + query);
	abs("up", "hTTps://" + host + "/" + times("x/", p) + times("../", p) + "f" + query, "https://" + host + "/f" + query);
	abs("pairs", host + "/" + times("x/../", p) + query, "http://" + host + "/" + query);
	abs("slashes", HOST + times("/", p + 1) + "f" + query, "http://" + host + "/f" + query);
	abs("dots", "http://" + times(".", q) + HOST + times(".", q) + path + "f", "http://" + host + path + "f");
	{ std::string d0 = dom, lab = times("l", q + 1) + "." + times("m", p + 1); dom = lab; abs("label", "http://" + times("a.", h) + times("L", q + 1) + "." + times("m", p + 1) + path, "http://" + times("a.", h) + lab + path); dom = times("n", q + 1); abs("one", dom + "/", "http://" + dom + "/"); dom = d0; }
	abs("plain", "HTTP://" + HOST + path + "f" + query, "http://" + host + path + "f" + query);
	auto rel = [&](const char *g, const std::string &t, const std::string &url) { coda_url u; Exact e(t); int r = u.create_relative(e.p, e.n, 1, c); put(g, !r && is(u, url, dom)); };
	long k = j < p ? p - j : 0;
	rel("rel", times("../", j) + "e" + query, "http://" + host + "/" + times("cd/", k) + "e" + query);
	rel("down", times("s/", j) + "e" + query + "#x", "http://" + host + path + times("s/", j) + "e" + query);
	rel("root", "/" + times("s/", j) + "e" + query, "http://" + host + "/" + times("s/", j) + "e" + query);
	rel("other", "HTTPS://" + HOST + "/" + times("s/", j), "https://" + host + "/" + times("s/", j));
	emit(Obj().n("n", 0).raw("ops", a.end()).end());
}
static void run(Line &l)
{
	if (l.t[l.p] == "long") { l.s(); far(l); return; }
	int n = l.i(); std::vector<coda_url *> v(n + 1, (coda_url *) 0); for (int i = 1; i <= n; ++i) v[i] = new coda_url; Arr ops;
	while (l.more()) {
		std::string f = l.s(); int i = l.i(), j = 0, r = 0; uint32_t fl = 0; std::string u;
		if (f == "abs") { u = l.b(); fl = l.i(); Exact e(u); r = v[i]->create_absolute(e.p, e.n, fl); }
		else if (f == "rel") { j = l.i(); u = l.b(); fl = l.i(); Exact e(u); r = v[i]->create_relative(e.p, e.n, fl, *v[j]); }
		else if (f == "assign") { j = l.i(); coda_url &x = (*v[i] = *v[j]); if (&x != v[i]) r = 99; }
		else if (f == "copy") { j = l.i(); coda_url *c = new coda_url(*v[j]); delete v[i]; v[i] = c; }
		else if (f == "new") { delete v[i]; v[i] = new coda_url; }
		else _exit(97);
		Arr o; for (int k = 1; k <= n; ++k) { std::string U(v[k]->get_url()), D(v[k]->get_domain()); /* terminated by NUL */
			o.raw(Obj().b("url", U).b("dom", D).raw("empty", B(v[k]->empty())).n("ulen", v[k]->get_url_len()).n("dlen", v[k]->get_domain_len()).end()); }
		ops.raw(Obj().t("f", f).n("i", i).n("j", j).b("u", u).n("flags", fl).n("r", r).raw("obs", o.end()).end());
	}
	for (int k = 1; k <= n; ++k) delete v[k];
	emit(Obj().n("n", n).raw("ops", ops.end()).end());
}
int main(int, char **a) { init(); each_line(a[1], run); return 0; }
