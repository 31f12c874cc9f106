/* coda_cache under a virtual clock. Run: <kind> <max> <ttl> then
 * t n | s key val size upd | g key | G key | e key
 * Kind W starts with <unit> <span> <start>: maximum and sizes are in units of bytes, the lifetime and T n in spans of
 * seconds (reported as THOUSAND each; t n, in seconds, never adds up to that much), the clock begins at <start>;
 * a lifetime of -1 is the largest there is */
#include "drv.h"
#include <inttypes.h>
#include <time.h>
#include <sys/time.h>
static long long now_ = 1000000;
extern "C" time_t time(time_t *t) throw() { if (t) *t = now_; return now_; }
extern "C" int clock_gettime(clockid_t, struct timespec *ts) throw() { ts->tv_sec = now_; ts->tv_nsec = 0; return 0; }
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = now_; tv->tv_usec = 0; return 0; }
#include "coda/cache.hpp"
struct Blob { long long id; size_t sz; Blob() : id(-1), sz(0) {} Blob(long long i, size_t s) : id(i), sz(s) {}
	size_t estimate_capacity() const { return sz; } };
/* how a value of identity id and wanted size is built, and its estimate as documented */
static Blob mk(const Blob *, long long id, size_t sz, long long &est) { est = sz; return Blob(id, sz); }
static long long id_of(const Blob &b) { return b.id; }
static std::string mk(const std::string *, long long id, size_t sz, long long &est)
{ std::string s = drv::num(id); s.resize(sz < s.size() ? s.size() : sz, '.'); std::string r(s.c_str()); est = sizeof(std::string) + r.capacity(); return r; }
static long long id_of(const std::string &s) { return s.empty() ? -1 : atoll(s.c_str()); }
static std::vector<int> mk(const std::vector<int> *, long long id, size_t sz, long long &est)
{ std::vector<int> v(sz ? sz : 1, (int) id); est = sizeof(v) + v.capacity() * sizeof(int); return v; }
static long long id_of(const std::vector<int> &v) { return v.empty() ? -1 : v[0]; }
static long long mk(const long long *, long long id, size_t, long long &est) { est = sizeof(long long); return id; }
static long long id_of(const long long &v) { return v; }
/* every other kind of value the library can estimate by itself: the numbers and pointers, 1..100 told apart */
#define SMALL(T) static T mk(const T *, long long id, size_t, long long &est) { est = sizeof(T); return (T) fold(id); } \
	static long long id_of(T v) { return (long long) v; }
static long long fold(long long id) { return (id - 1) % 100 + 1; }
SMALL(char) SMALL(unsigned char) SMALL(short) SMALL(unsigned short) SMALL(int) SMALL(unsigned) SMALL(long) SMALL(unsigned long)
SMALL(unsigned long long) SMALL(float) SMALL(double) SMALL(long double)
static char spot[128];
typedef const char *Ptr;
static Ptr mk(const Ptr *, long long id, size_t, long long &est) { est = sizeof(Ptr); return spot + fold(id); }
static long long id_of(Ptr p) { return p ? p - spot : -1; }
static int key(const int *, long long k) { return (int) k; }
static std::string key(const std::string *, long long k) { return "key-" + drv::num(k); }
static const long long NONE = 0;

static bool wide_, small_;
template <class V> static void none(V &v) { v = V(105); }
static void none(Ptr &v) { v = spot + 105; }
static void none(Blob &) {} static void none(std::string &) {} static void none(std::vector<int> &) {}
static long long units(const char *p, long long unit)
{
	if (!p) return -1;
	unsigned long long n = strtoull(p + 9, 0, 10);
	return n % (unsigned long long) unit || n / unit > 2000000000ull ? -1 : (long long) (n / unit);
}
template <class K, class V> void run(drv::Line &l)
{
	static const long long THOUSAND = 1000;
	bool wide = wide_; long long unit = 1, span = 1;
	now_ = 1000000;
	if (wide) { unit = l.i(); span = l.i(); now_ = l.i(); }
	long long max = l.i(), ttl = l.i();
	coda_cache<K, V> c((size_t) max * (size_t) unit, ttl < 0 ? (size_t) -1 : (size_t) ttl * (size_t) span);
	if (wide) ttl = ttl < 0 ? 1900000000 : ttl * THOUSAND;
	drv::Arr ops;
	while (l.more())
	{
		std::string op = l.s(); drv::Obj o;
		if (op == "t") { long long n = l.i(); now_ += n; o.t("op", "tick").n("n", n); }
		else if (op == "T") { long long n = l.i(); now_ += n * span; o.t("op", "tick").n("n", n * THOUSAND); }
		else if (op == "s") { long long k = l.i(), v = l.i(), sz = l.i(), u = l.i(), est; if (small_) v = fold(v); V val = mk((V *) 0, v, sz * unit, est); est /= unit;
			c.set(key((K *) 0, k), val, u != 0); o.t("op", "set").n("k", k).n("v", v).n("s", est).raw("u", u ? "true" : "false"); }
		else if (op == "g") { long long k = l.i(); const V *p = c.get(key((K *) 0, k)); o.t("op", "get").n("k", k).n("v", p ? id_of(*p) : NONE); }
		else if (op == "G") { long long k = l.i(), est; long long un = small_ ? 105 : -7; V v = mk((V *) 0, -7, 1, est); if (small_) none(v); c.get(key((K *) 0, k), v); o.t("op", "get").n("k", k).n("v", id_of(v) == un ? NONE : id_of(v)); }
		else if (op == "e") { long long k = l.i(); bool r = c.erase(key((K *) 0, k)); o.t("op", "erase").n("k", k).raw("r", r ? "true" : "false"); }
		else _exit(97);
		std::string d; c.dbg(d, 0); std::string d1; c.dbg(d1, 1);
		const char *p = strstr(d.c_str(), "nelt_cur="), *q = strstr(d.c_str(), "size_cur=");
		o.n("ne", p ? atoll(p + 9) : -1).n("sc", units(q, unit));
		ops.raw(o.end());
	}
	drv::Obj r; r.n("max", max).n("ttl", ttl).raw("ops", ops.end());
	drv::emit(r.end());
}
int main(int, char **a)
{
	drv::init();
	drv::each_line(a[1], [](drv::Line &l) {
		std::string kind = l.s();
		small_ = false; wide_ = kind == "W"; if (wide_) kind = "B";
		if (kind == "B") run<int, Blob>(l);
		else if (kind == "S") run<std::string, std::string>(l);
		else if (kind == "V") run<int, std::vector<int> >(l);
		else if (kind == "I") run<int, long long>(l);
		else if (kind == "N")
		{
			std::string t = l.s(); small_ = true;
#define ONE(name, T) if (t == name) run<int, T>(l)
			ONE("c", char); else ONE("C", unsigned char); else ONE("s", short); else ONE("S", unsigned short); else ONE("i", int);
			else ONE("I", unsigned); else ONE("l", long); else ONE("L", unsigned long); else ONE("q", unsigned long long);
			else ONE("f", float); else ONE("d", double); else ONE("D", long double); else ONE("p", Ptr); else _exit(97);
		}
		else _exit(97);
	});
	return 0;
}
