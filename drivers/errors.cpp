/* C37 what an error says */
#include <errno.h>
#include <pthread.h>
#include <exception>
#include "calls.h"
#include "coda/error.hpp"
using namespace drv;
static std::string rle(const std::string &s) { Arr a; for (size_t i = 0; i < s.size(); ) { size_t j = i; while (j < s.size() && s[j] == s[i]) ++j; Arr p; p.raw(num((unsigned char) s[i])).raw(num(j - i)); a.raw(p.end()); i = j; } return a.end(); }
static std::string text(Line &l) { std::string r; int n = l.i(); while (n--) { int c = l.i(); long k = l.i(); r.append(k, (char) c); } return r; }
static std::string sys(int err) { char b[512]; errno = 0; return strerror_r(err, b, sizeof b); }
static void report(const std::string &by, int fmt, const std::string &a, int d, const std::string &b, int err, coda_error *made)
{
	std::string what = made->what(), caught;
	coda_error *copy = new coda_error(*made);
	try { coda_error e(*made); delete made; throw e; }
	catch (const std::exception &e) { caught = e.what(); }
	emit(Obj().t("f", "error").t("by", by).n("fmt", fmt).raw("a", rle(a)).n("d", d).raw("b", rle(b)).n("err", err).raw("sys", rle(by == "errno" ? sys(err) : "")).raw("what", rle(what)).raw("copy", rle(copy->what())).raw("caught", rle(caught)).end());
	delete copy;
}
extern "C" { const char *xsi_text(int, char *, size_t); const char *xsi_now(int, char *); }
static void *told(void *p)
{
	long *k = (long *) p; std::string out;
	const char *was = 0; std::string first; int of = 0;
	for (long i = 0; i <= 300; ++i)
	{
		int err = (int) (k[0] + i * k[1]); char b[256];
		const char *r = coda_strerror(err); std::string now = r, q = coda_strerror_r(err, b, sizeof b);
		if (i % 3 == 0) sched_yield();
		/* the text of the number before, read again now that others have been asked for */
		if (was) out += Obj().t("f", "strerror").n("err", of).raw("known", "true").raw("sys", rle(sys(of))).raw("r", rle(first)).raw("again", rle(was)).end() + "\n";
		if (q != now) out += Obj().t("f", "strerror").n("err", err).raw("known", "true").raw("sys", rle(sys(err))).raw("r", rle(q)).raw("again", rle(now)).end() + "\n";
		was = r; first = now; of = err;
	}
	out.erase(out.size() - 1); return new std::string(out);
}
static void call(Line &l)
{
	std::string by = l.s();
	if (by == "threads")
	{
		int n = l.i(); pthread_t th[16]; long k[16][2];
		for (int i = 0; i < n; ++i) { k[i][0] = l.i(); k[i][1] = l.i(); pthread_create(th + i, 0, told, k[i]); }
		for (int i = 0; i < n; ++i) { void *r; pthread_join(th[i], &r); emit(*(std::string *) r); delete (std::string *) r; }
		return;
	}
	if (by == "xsi")
	{
		int err = l.i(), n = l.i(); char b[4200]; Buf m(n); const char *r = xsi_text(err, m.c(), n); std::string now = r; now = now.c_str();
		emit(Obj().t("f", "strerror").n("err", err).raw("sys", rle(strerrordesc_np(err) ? sys(err) : "")).raw("r", rle(now)).raw("again", rle(xsi_now(err, b))).raw("known", B(strerrordesc_np(err) && n > (int) sys(err).size())).end());
		return;
	}
	int fmt = l.i(); std::string a = text(l); int d = l.i(); std::string b = text(l); int err = l.i(); coda_error *e;
	{
		CStr A(a), Bb(b); const char *x = A.p, *y = Bb.p;
		if (by == "error") e = fmt == 0 ? new coda_error("%s", x) : fmt == 1 ? new coda_error("%s%d%s", x, d, y) : fmt == 2 ? new coda_error("%c%s", d, y) : new coda_error(x);
		else e = fmt == 0 ? new coda_errno(err, "%s", x) : fmt == 1 ? new coda_errno(err, "%s%d%s", x, d, y) : fmt == 2 ? new coda_errno(err, "%c%s", d, y) : new coda_errno(err, "plain");
		memset(A.p, 'Z', a.size()); memset(Bb.p, 'Z', b.size());
	}
	report(by, fmt, by == "errno" && fmt == 3 ? "plain" : a, d, b, err, e);
}
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
