/* C30: one scenario per line, each in a process and a scratch directory of its own:
 * seq <tz> <level> <threads> <n> n*(d|f|l path text) <operations>
 *   l th lv code text | w kind text | c abs lv fault path | f abs lv name path | R abs fault path | v lv | n th name or ~ | g th | L text | m from to | T day sec ms
 * par <level> <threads> <lines> <len> <rotors> <rotations> <n> n*path: threads log while others rotate */
#include "fstree.h"
#include <errno.h>
#include <stdarg.h>
#include <pthread.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <functional>
#include <coda/coda.h>
#include <coda/error.h>
#include <coda/logger.h>
using namespace drv;
static __thread long ahead = 0;          /* each thread of a par run has a time of its own */
static volatile bool virt = false; static long long vsec = 0; static long vms = 0;
static const long day_ = 20000, sec_ = 40000, ms_ = 123;
extern "C" {
#define VSEC vsec
int __real_gettimeofday(struct timeval *, void *); int __wrap_gettimeofday(struct timeval *t, void *z) { if (!virt) return __real_gettimeofday(t, z); t->tv_sec = vsec + ahead; t->tv_usec = vms * 1000 + (vms & 1 ? 999 : 0); return 0; }
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!virt || c != CLOCK_REALTIME) return __real_clock_gettime(c, t); t->tv_sec = vsec + ahead; t->tv_nsec = vms * 1000000 + (vms & 1 ? 999999 : 0); return 0; }
time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { if (!virt) return __real_time(t); if (t) *t = vsec + ahead; return vsec + ahead; }
/* others get a turn once the broken-down time is there */
struct tm *__real_localtime_r(const time_t *, struct tm *); struct tm *__wrap_localtime_r(const time_t *t, struct tm *b) { struct tm *r = __real_localtime_r(t, b); if (ahead) { static __thread unsigned s; if (rand_r(&s) % 3 == 0) usleep(rand_r(&s) % 80); } return r; }
struct tm *__real_localtime(const time_t *); struct tm *__wrap_localtime(const time_t *t) { struct tm *r = __real_localtime(t); if (ahead) { static __thread unsigned s; if (rand_r(&s) % 3 == 0) usleep(rand_r(&s) % 80); } return r; }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); if (fst::fails()) { errno = EMFILE; return -1; } return __real_open(p, fl, m); }
int __real_open64(const char *, int, ...); int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); if (fst::fails()) { errno = EMFILE; return -1; } return __real_open64(p, fl, m); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { if (fst::fails()) { errno = EACCES; return -1; } return __real_mkdir(p, m); }
int __real_dup2(int, int); int __wrap_dup2(int a, int b) { if (fst::fails()) { errno = EINTR; return -1; } return __real_dup2(a, b); }
int __real_dup3(int, int, int); int __wrap_dup3(int a, int b, int c) { if (fst::fails()) { errno = EINTR; return -1; } return __real_dup3(a, b, c); }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { if (fst::fails()) { errno = ENOMEM; return 0; } return __real_malloc(n); }
}
static void say(int lv, int code, const char *m)
{
	if (code >= 0) { log_err(code, "%s", m); return; }
	switch (lv) { case 0: log_access("%s", m); break; case 1: log_emerg("%s", m); break; case 2: log_alert("%s", m); break; case 3: log_crit("%s", m); break; case 4: log_error("%s", m); break;
	case 5: log_warn("%s", m); break; case 6: log_notice("%s", m); break; case 7: log_info("%s", m); break; default: log_debug("%s", m); }
}
/* threads that do one thing at a time */
struct Worker { pthread_t t; pthread_mutex_t mu; pthread_cond_t cv; std::function<void()> job; bool busy, quit; std::string id; };
static void *work(void *a) { Worker *w = (Worker *) a; { char b[32]; snprintf(b, sizeof b, "%lu", (unsigned long) pthread_self()); w->id = b; } pthread_mutex_lock(&w->mu); w->busy = false; pthread_cond_broadcast(&w->cv); for (;;) { while (!w->busy && !w->quit) pthread_cond_wait(&w->cv, &w->mu); if (w->quit) break; w->job(); w->busy = false; pthread_cond_broadcast(&w->cv); } pthread_mutex_unlock(&w->mu); return 0; }
static void in_thread(Worker *w, std::function<void()> f) { pthread_mutex_lock(&w->mu); w->job = f; w->busy = true; pthread_cond_broadcast(&w->cv); while (w->busy) pthread_cond_wait(&w->cv, &w->mu); pthread_mutex_unlock(&w->mu); }
static Worker *start() { Worker *w = new Worker; pthread_mutex_init(&w->mu, 0); pthread_cond_init(&w->cv, 0); w->busy = true; w->quit = false; pthread_create(&w->t, 0, work, w); pthread_mutex_lock(&w->mu); while (w->busy) pthread_cond_wait(&w->cv, &w->mu); pthread_mutex_unlock(&w->mu); return w; }
static std::string cwd;
static void stderr_to(const char *p) { int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd < 0) _exit(97); if (fd != 2) { dup2(fd, 2); close(fd); } }
static std::string full(int abs, const std::string &p) { return abs ? cwd + "/" + p : p; }
static void sequence(Line &l)
{
	int tz = l.i(); { char b[32]; snprintf(b, sizeof b, "XXX%c%02d:%02d", tz > 0 ? '-' : '+', abs(tz) / 60, abs(tz) % 60); setenv("TZ", b, 1); tzset(); }
	int lv0 = l.i(), nt = l.i(), nn = l.i(); fst::make('f', "orig.err", "");
	for (int i = 0; i < nn; ++i) { char k = l.s()[0]; std::string p = l.b(), c = l.b(); fst::make(k, p, c); }
	log_level = lv0; fst::Snap s0 = fst::scan(); Obj run; run.raw("tree", fst::tree(s0)).raw("cur", fst::names("orig.err")).n("level", lv0);
	stderr_to("orig.err");
	std::vector<Worker *> w; for (int i = 0; i < nt; ++i) w.push_back(start());
	{ Arr a; for (int i = 0; i < nt; ++i) a.raw(arr(w[i]->id)); run.raw("ids", a.end()); }
	Arr ops; virt = true; vsec = day_ * 86400LL + sec_; vms = ms_; long day = day_, sec = sec_;
	std::vector<fst::Fixed *> keep;
	while (l.more()) {
		std::string c = l.s(); Obj o;
		switch (c[0]) {
		case 'l': { int th = l.i(), lv = l.i(), code = l.i(); std::string m = l.b(); o.t("f", "log").n("th", th).n("lv", lv).n("code", code).b("msg", m).b("text", code >= 0 ? strerror(code) : "").n("day", day).n("sec", sec).n("ms", vms).n("tz", tz); in_thread(w[th - 1], [&]() { say(lv, code, m.c_str()); }); break; }
		case 'w': { int k = l.i(); std::string m = l.b(); o.t("f", "raw").b("msg", m); if (k == 0) { if (write(2, m.data(), m.size()) < 0) {} } else if (k == 1) fputs(m.c_str(), stderr); else fwrite(m.data(), 1, m.size(), stderr); break; }
		case 'c': case 'f': case 'R': {
			int abs = l.i(), lv = c[0] == 'R' ? 0 : l.i(), ft = c[0] == 'f' ? 0 : l.i(); std::string nm = c[0] == 'f' ? l.b() : "", p = l.b(), q = full(abs, p); fst::Fixed x(q), y(nm); int r; bool e;
			{ fst::Arm a(ft); r = c[0] == 'c' ? log_create(x.p, lv) : c[0] == 'f' ? log_create_from_str(x.p, y.p) : log_rotate(x.p); } e = fst::fired;
			o.t("f", c[0] == 'c' ? "create" : c[0] == 'f' ? "fromstr" : "rotate").n("lv", lv).b("path", p).n("r", r < 0 ? -1 : 0).n("same", x.same(q)).n("err", e); break; }
		case 'v': log_level = l.i(); o.t("f", "setlevel").n("lv", log_level); break;
		case 'n': { int th = l.i(); std::string h = l.s(); int r; if (h == "~") { o.t("f", "setname").n("th", th).raw("name", "[]"); in_thread(w[th - 1], [&]() { r = log_thread_name_set(0); }); }
			else { Line q; q.t.push_back(h); fst::Fixed *x = new fst::Fixed(q.b()); keep.push_back(x); o.t("f", "setname").n("th", th).raw("name", "[" + arr(std::string(x->p)) + "]"); in_thread(w[th - 1], [&]() { r = log_thread_name_set(x->p); }); }
			o.n("r", r); break; }
		case 'g': { int th = l.i(); const char *s = 0; in_thread(w[th - 1], [&]() { s = log_thread_name_get(); }); o.t("f", "getname").n("th", th).raw("name", s ? "[" + arr(std::string(s)) + "]" : "[]"); break; }
		case 'L': { std::string m = l.b(); fst::Fixed x(m); o.t("f", "levels").b("msg", m).n("r", log_levels(x.p)); break; }
		case 'm': { std::string a = l.b(), b = l.b(); if (!s0.count(a) || s0[a].k != 'f' || rename(a.c_str(), b.c_str())) continue; fst::Snap s1 = fst::scan(); s0[b] = s0[a]; s0.erase(a); o.t("f", "rename").raw("from", fst::names(a)).raw("to", fst::names(b)); break; }
		case 'T': day = l.i(); sec = l.i(); vms = l.i(); vsec = day * 86400LL + sec; continue;
		}
		fst::Snap s1 = fst::scan(); fst::delta(s0, s1, o); s0 = s1; ops.raw(o.n("level", log_level).end());
	}
	emit(run.raw("ops", ops.end()).end());
}
/* lines logged while the log is being rotated */
struct Shared { volatile long tick; volatile int go, logging; };
static Shared S;
static long tick() { return __sync_add_and_fetch(&S.tick, 1); }
struct Logger_ { int th, lines, lv; size_t len; std::string name; std::vector<std::string> rec; };
static void *log_thread(void *a)
{
	Logger_ *g = (Logger_ *) a; ahead = g->th * (37 * 86400L + 3661); unsigned s = g->th * 77 + g->len; log_thread_name_set(g->name.c_str()); while (!S.go) ;
	for (int i = 0; i < g->lines; ++i) {
		std::string m = "m" + num(g->th) + "." + num(i) + "."; m.append(rand_r(&s) % (g->len + 1), 'a' + i % 26); int lv = rand_r(&s) % 9; if (rand_r(&s) % 4 == 0) usleep(rand_r(&s) % 300);
		const char *n0 = log_thread_name_get(); long t0 = tick(); say(lv, -1, m.c_str()); long t1 = tick();
		g->rec.push_back(Obj().n("th", g->th).n("i", t0).n("o", t1).n("lv", lv).n("day", day_ + g->th * 37).n("sec", sec_ + g->th * 3661).b("who", n0 ? n0 : "").b("name", g->name).b("msg", m).end());
	}
	__sync_sub_and_fetch(&S.logging, 1); return 0;
}
struct Rotor { unsigned s; int n; std::vector<std::string> *paths; std::vector<std::string> rec; };
static void *rot_thread(void *a)
{
	Rotor *g = (Rotor *) a; while (!S.go) ;
	for (int i = 0; i < g->n && S.logging; ++i) { int k = rand_r(&g->s) % g->paths->size(); long t0 = tick(); int r = log_rotate((*g->paths)[k].c_str()); long t1 = tick(); g->rec.push_back(Obj().n("i", t0).n("o", t1).n("k", k + 1).n("r", r < 0 ? -1 : 0).end()); if (rand_r(&g->s) % 3 == 0) usleep(rand_r(&g->s) % 200); }
	return 0;
}
static void parallel(Line &l)
{
	int lv = l.i(), nt = l.i(), lines = l.i(), len = l.i(), nr = l.i(), rots = l.i(), np = l.i(); std::vector<std::string> paths(1, "orig.err"); for (int i = 0; i < np; ++i) paths.push_back(l.b());
	fst::make('f', "orig.err", "before\n"); fst::make('d', "adir", ""); stderr_to("orig.err"); log_level = lv; virt = true; vsec = day_ * 86400LL + sec_; vms = ms_;
	std::vector<Logger_> lg(nt); std::vector<Rotor> ro(nr); std::vector<pthread_t> t(nt + nr); S.logging = nt;
	for (int i = 0; i < nt; ++i) { lg[i].th = i + 1; lg[i].lines = lines; lg[i].len = len; lg[i].name = "thread-" + num(i); pthread_create(&t[i], 0, log_thread, &lg[i]); }
	for (int i = 0; i < nr; ++i) { ro[i].s = i * 13 + len + rots; ro[i].n = rots; ro[i].paths = &paths; pthread_create(&t[nt + i], 0, rot_thread, &ro[i]); }
	S.go = 1; for (size_t i = 0; i < t.size(); ++i) pthread_join(t[i], 0);
	Arr a, b, f; for (int i = 0; i < nt; ++i) for (size_t j = 0; j < lg[i].rec.size(); ++j) a.raw(lg[i].rec[j]); for (int i = 0; i < nr; ++i) for (size_t j = 0; j < ro[i].rec.size(); ++j) b.raw(ro[i].rec[j]);
	for (size_t i = 0; i < paths.size(); ++i) { struct stat st; bool ok = stat(paths[i].c_str(), &st) == 0 && S_ISREG(st.st_mode); f.raw(Obj().n("ok", ok).b("s", ok ? fst::slurp(paths[i].c_str()) : "").end()); }
	emit(Obj().n("level", lv).n("lv1", log_level).n("day", day_).n("sec", sec_).n("ms", ms_).raw("logs", a.end()).raw("rots", b.end()).raw("files", f.end()).end());
}
static int count = 0;
static void scenario(Line &l)
{
	std::string dir = "log." + num(++count); fst::wipe(dir); if (mkdir(dir.c_str(), 0755)) { perror("mkdir"); _exit(97); }
	pid_t p = fork(); if (p < 0) { perror("fork"); _exit(97); }
	if (!p) { if (chdir(dir.c_str())) _exit(97); char b[4096]; cwd = getcwd(b, sizeof b); std::string k = l.s(); if (k == "seq") sequence(l); else parallel(l); _exit(0); }
	int st; waitpid(p, &st, 0); fst::wipe(dir);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "child: status %x\n", st); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98); }
}
int main(int, char **a) { init(); each_line(a[1], scenario); return 0; }
