#include "calls.h"
#include "coda/base58.h"
#include "coda/base64.h"
#include "coda/web64.h"
using namespace drv;
static bool no_memory = false;
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return no_memory ? 0 : __real_malloc(n); } void *__wrap_calloc(size_t n, size_t m) { return no_memory ? 0 : __real_calloc(n, m); } void *__wrap_realloc(void *p, size_t n) { return no_memory ? 0 : __real_realloc(p, n); } }
static void call(Line &l)
{
	std::string f = l.s(); Obj o; o.t("f", f == "w64enc" ? "b64enc" : f == "w64dec" ? "b64dec" : f);
	if (f == "b58enc" || f == "b64enc" || f == "w64enc") { Exact in(l.b()); Buf out(l.i());
		if (f == "b58enc") coda_base58_encode(in.p, in.n, out.c(), out.n);
		else if (f == "b64enc") coda_base64_encode(in.p, in.n, out.c(), out.n);
		else web64_encode(in.p, in.n, out.c(), out.n);
		o.raw("in", arr(in.p, in.n)).b("out", out.s()).raw("web", B(f == "w64enc")); }
	else if (f == "b58enca" || f == "b64enca") { Exact in(l.b()); char *p = 0;
		size_t r = f == "b58enca" ? coda_base58_encode_alloc(in.p, in.n, &p) : coda_base64_encode_alloc(in.p, in.n, &p);
		o.raw("in", arr(in.p, in.n)).n("r", r).raw("out", p ? arr(p, r) : "[]").n("z", p ? p[r] : -1); free(p); }
	else if (f == "b58dec") { Exact in(l.b()); Buf out(in.n + 1); ssize_t r = coda_base58_decode(in.p, in.n, out.c());
		o.raw("in", arr(in.p, in.n)).n("r", r).b("out", out.s()); }
	else if (f == "b58deca") { Exact in(l.b()); char *p = 0; ssize_t r = coda_base58_decode_alloc(in.p, in.n, &p);
		o.raw("in", arr(in.p, in.n)).n("r", r).raw("got", B(p != 0)).raw("out", p && r >= 0 ? arr(p, r) : "[]"); free(p); }
	else if (f == "b64dec" || f == "w64dec") { Exact in(l.b()); Buf out(l.i()); size_t n = out.n;
		bool r = f == "b64dec" ? coda_base64_decode(in.p, in.n, out.c(), &n) : web64_decode(in.p, in.n, out.c(), &n);
		o.raw("in", arr(in.p, in.n)).raw("r", B(r)).n("n", n).b("out", out.s()).raw("web", B(f == "w64dec")); }
	else if (f == "b64deca") { Exact in(l.b()); char *p = 0; size_t n = 0; bool r = coda_base64_decode_alloc(in.p, in.n, &p, &n);
		o.raw("in", arr(in.p, in.n)).raw("r", B(r)).raw("got", B(p != 0)).raw("out", p && r ? arr(p, n) : "[]"); free(p); }
	/* no memory to be had; the size of the data as eight bytes, lowest first */
	else if (f == "b64encm") { std::string n = l.b(); size_t k = 0; for (int i = 8; i--; ) k = k * 256 + (unsigned char) n[i]; char c[1] = { 'x' }, *p = c; no_memory = true; size_t r = coda_base64_encode_alloc(c, k, &p); no_memory = false;
		std::string rs; for (int i = 0; i < 8; ++i) rs += (char) (r >> 8 * i); o.b("in", n).b("out", rs).raw("got", B(p != 0)); }
	else if (f == "b64decm") { Exact in(l.b()); char c[1], *p = c; size_t n = 0; no_memory = true; bool r = coda_base64_decode_alloc(in.p, in.n, &p, &n); no_memory = false;
		o.raw("in", arr(in.p, in.n)).raw("r", B(r)).raw("got", B(p != 0)); }
	else if (f == "rep64") { std::string g = l.s(), x = l.b(); long k = l.i(); bool web = g == "w64"; std::string X, e, E, d; for (long i = 0; i < k; ++i) X += x; int same;
		{ Exact s(x), in(X); Buf b(x.size() / 3 * 4 + 1), c(X.size() / 3 * 4 + 1); web ? web64_encode(s.p, s.n, b.c(), b.n) : coda_base64_encode(s.p, s.n, b.c(), b.n); web ? web64_encode(in.p, in.n, c.c(), c.n) : coda_base64_encode(in.p, in.n, c.c(), c.n);
			e = b.c(); for (long i = 0; i < k; ++i) E += e; same = E == c.c(); if (!web) { char *p = 0; size_t r = coda_base64_encode_alloc(in.p, in.n, &p); same = same && r == E.size() && p && E == p; free(p); } }
		{ Exact in(E); Buf c(X.size()); size_t n = c.n; bool r = web ? web64_decode(in.p, in.n, c.c(), &n) : coda_base64_decode(in.p, in.n, c.c(), &n); same = same && r && n == X.size() && c.s() == X; if (!web) { char *p = 0; size_t n = 0; r = coda_base64_decode_alloc(in.p, in.n, &p, &n); same = same && r && p && std::string(p, n) == X; free(p); } }
		o.t("g", g).b("in", x).n("k", k).b("y", e).raw("same", B(same)); }
	else if (f == "isb58" || f == "isb64") { long long c = l.i(); o.n("c", c).raw("r", B(f == "isb58" ? coda_isbase58((char) c) : coda_isbase64((char) c))); }
	else _exit(97);
	emit(o.end());
}
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
