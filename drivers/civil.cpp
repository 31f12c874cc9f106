/* C33: lines "days <day> <sec> <n>", "secs <t> <n>" and "sleep <ms>..." (all at once) */
#include <pthread.h>
#include "drv.h"
#include "coda/gmtime.h"
using namespace drv;
static std::string civil(long long t) { struct tm m; memset(&m, 0x55, sizeof m); coda_gmtime(t, &m); Arr a; a.raw(num(m.tm_year)).raw(num(m.tm_mon)).raw(num(m.tm_mday)).raw(num(m.tm_wday)).raw(num(m.tm_hour)).raw(num(m.tm_min)).raw(num(m.tm_sec)); return a.end(); }
struct Nap { pthread_t t; int ms, r; long long us; };
static long long now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
static void *nap(void *p) { Nap *x = (Nap *) p; long long a = now_us(); x->r = coda_msleep(x->ms); x->us = now_us() - a; return 0; }
static void call(Line &l)
{
	std::string f = l.s(); long long day, sec; int n; Arr a;
	if (f == "sleep")
	{
		std::vector<Nap> v; while (l.more()) { Nap x; x.ms = l.i(); v.push_back(x); }
		for (size_t i = 0; i < v.size(); ++i) pthread_create(&v[i].t, 0, nap, &v[i]);
		for (size_t i = 0; i < v.size(); ++i) { pthread_join(v[i].t, 0); emit(Obj().t("f", f).n("ms", v[i].ms).n("r", v[i].r).n("us", v[i].us).end()); }
		return;
	}
	if (f == "days") { day = l.i(); sec = l.i(); n = l.i(); for (int i = 0; i < n; ++i) a.raw(civil((day + i) * 86400 + sec)); }
	else { long long t = l.i(); n = l.i(); day = t / 86400; sec = t % 86400; for (int i = 0; i < n; ++i) a.raw(civil(t + i)); }
	emit(Obj().t("f", f).n("q", day / 146097).n("r", day % 146097).n("sec", sec).raw("c", a.end()).end());
}
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
