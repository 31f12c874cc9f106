/* C28: one scenario per line:
 * <max_exec> <pre> <max_rand> <seed> <die> <faults> <file: A absent, hex contents> <procs> then per process <pid> <ops> and
 * C claim | S stop, if owner | Z stop | R remove the file of the dead | L look
 * Every call of the code into the system is a point where another process may run, where it
 * may fail or its process may die.  Descriptors belong to the process that opened them.
 * With REAL the processes are real ones, running freely: <seed> <file> <procs> <kills> then per process <ops>. */
#include "cosched.h"
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdarg.h>
#include <coda/coda.h>
#include <coda/system.h>
#include <coda/daemon.h>
using namespace drv;
static const char *PATH_ = "pidfile.pid";
static std::string look() { int fd = open(PATH_, O_RDONLY | O_CLOEXEC); if (fd < 0) return "[-1]"; char b[256]; ssize_t n = read(fd, b, sizeof b); close(fd); return n < 0 ? "[-2]" : arr(b, n); }
static int claim(int) { return coda_mkpidf(PATH_); }
static int stop() { coda_getopt_t o; memset(&o, 0, sizeof o); o.pid = PATH_; return coda_daemon_stop(&o); }
static void setup(const std::string &f) { unlink(PATH_); if (f != "A") { std::string s; for (size_t i = 0; i + 1 < f.size(); i += 2) s.push_back((char) strtol(f.substr(i, 2).c_str(), 0, 16)); FILE *o = fopen(PATH_, "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); } }
static std::string start_text(const std::string &f) { if (f == "A") return "[-1]"; std::string s; for (size_t i = 0; i + 1 < f.size(); i += 2) s.push_back((char) strtol(f.substr(i, 2).c_str(), 0, 16)); return arr(s); }
#ifndef REAL
namespace os {
static std::map<int, int> owner; static std::vector<int> pids; static std::vector<bool> hurt; static std::vector<bool> own, dead, in_claim, had; 
static bool in() { return sched::cur && sched::cur->in_op && !sched::guard; }
static int me() { return sched::cur ? sched::cur->id : 0; }
static void took(int fd) { if (fd >= 0) owner[fd] = me(); }
/* 0: proceed; k>0: the k-th way to fail */
static int step(int ways) { sched::G g; if (sched::stop_exec) return 0; sched::point(); if (!ways || sched::left.intr <= 0 || hurt[me()]) return 0; int k = sched::pick(1 + ways); if (k) { --sched::left.intr; hurt[me()] = true; } return k; }
static int fail(int e) { errno = e; return -1; }
static void gone(int p) { sched::G g; std::map<int, int> o = owner; for (std::map<int, int>::iterator i = o.begin(); i != o.end(); ++i) if (i->second == p) { close(i->first); owner.erase(i->first); } }
static int fds(int p) { int n = 0; for (std::map<int, int>::iterator i = owner.begin(); i != owner.end(); ++i) n += i->second == p; return n; }
static int all() { int n = 0; for (int i = 0; i < 128; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
}
extern "C" {
#define W(r, f, a) r __real_##f a; r __wrap_##f a
W(pid_t, getpid, (void)) { return sched::cur ? os::pids[sched::cur->id] : __real_getpid(); }
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) { MODE if (!os::in()) return __real_open(p, fl, m); static const int e[] = { 0, EACCES, EMFILE }; if (int k = os::step(2)) return os::fail(e[k]); sched::G g; int r = __real_open(p, fl, m); os::took(r); return r; }
int __real_open64(const char *, int, ...); int __wrap_open64(const char *p, int fl, ...) { MODE return __wrap_open(p, fl, m); }
int __real_openat(int, const char *, int, ...); int __wrap_openat(int d, const char *p, int fl, ...) { MODE if (!os::in()) return __real_openat(d, p, fl, m); if (os::step(1)) return os::fail(EMFILE); sched::G g; int r = __real_openat(d, p, fl, m); os::took(r); return r; }
W(int, creat, (const char *p, mode_t m)) { if (!os::in()) return __real_creat(p, m); if (os::step(1)) return os::fail(EMFILE); sched::G g; int r = __real_creat(p, m); os::took(r); return r; }
W(int, close, (int fd)) { if (!os::in()) return __real_close(fd); os::step(0); sched::G g; os::owner.erase(fd); return __real_close(fd); }
W(int, dup, (int fd)) { int r = __real_dup(fd); if (os::in()) os::took(r); return r; }
static int tryflock(int fd, int op, int (*f)(int, int)) { sched::G g; return f(fd, op); }
W(int, flock, (int fd, int op)) {
	if (!os::in()) return __real_flock(fd, op);
	if (os::step(1)) return os::fail((op & LOCK_UN) ? EIO : ENOLCK);
	int r = tryflock(fd, op | LOCK_NB, __real_flock);
	if (r < 0 && errno == EWOULDBLOCK && !(op & LOCK_NB)) { sched::block([fd, op]() { sched::G g; return __real_flock(fd, op | LOCK_NB) == 0; }, false, false); return 0; }
	return r; }
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
	if (!os::in()) return __real_fcntl(fd, cmd, a);
	/* locks of a process: those of its descriptors */
	int c = cmd == F_SETLK ? F_OFD_SETLK : cmd == F_SETLKW ? F_OFD_SETLK : cmd == F_GETLK ? F_OFD_GETLK : cmd;
	if (c != cmd) { if (os::step(1)) return os::fail(ENOLCK); sched::G g; ((struct flock *) a)->l_pid = 0; int r = __real_fcntl(fd, c, a); if (r < 0 && cmd == F_SETLKW) { --sched::guard; sched::block([fd, a]() { sched::G g; return __real_fcntl(fd, F_OFD_SETLK, a) == 0; }, false, false); ++sched::guard; return 0; } return r; }
	os::step(0); sched::G g; int r = __real_fcntl(fd, cmd, a); if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) os::took(r); return r; }
int __real_fcntl64(int, int, ...); int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return __wrap_fcntl(fd, cmd, a); }
W(int, lockf, (int fd, int cmd, off_t len)) { struct flock l; memset(&l, 0, sizeof l); l.l_whence = SEEK_CUR; l.l_len = len; l.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK; if (!os::in()) return __real_lockf(fd, cmd, len); return __wrap_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &l); }
#define PLAIN(f, A, B, E) W(int, f, A) { if (!os::in()) return __real_##f B; if (os::step(1)) return os::fail(E); sched::G g; return __real_##f B; }
PLAIN(fstat, (int fd, struct stat *s), (fd, s), EIO)
PLAIN(fstat64, (int fd, struct stat64 *s), (fd, s), EIO)
PLAIN(stat, (const char *p, struct stat *s), (p, s), EIO)
PLAIN(lstat, (const char *p, struct stat *s), (p, s), EIO)
PLAIN(unlink, (const char *p), (p), EACCES)
PLAIN(remove, (const char *p), (p), EACCES)
PLAIN(rename, (const char *p, const char *q), (p, q), EACCES)
PLAIN(link, (const char *p, const char *q), (p, q), EACCES)
PLAIN(ftruncate, (int fd, off_t n), (fd, n), EIO)
PLAIN(truncate, (const char *p, off_t n), (p, n), EIO)
PLAIN(fsync, (int fd), (fd), EIO)
PLAIN(fdatasync, (int fd), (fd), EIO)
PLAIN(access, (const char *p, int m), (p, m), EACCES)
W(off_t, lseek, (int fd, off_t o, int w)) { if (!os::in()) return __real_lseek(fd, o, w); os::step(0); sched::G g; return __real_lseek(fd, o, w); }
W(ssize_t, read, (int fd, void *b, size_t n)) { if (!os::in()) return __real_read(fd, b, n); if (os::step(1)) return os::fail(EIO); sched::G g; return __real_read(fd, b, n); }
W(ssize_t, pread, (int fd, void *b, size_t n, off_t o)) { if (!os::in()) return __real_pread(fd, b, n, o); if (os::step(1)) return os::fail(EIO); sched::G g; return __real_pread(fd, b, n, o); }
ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
static ssize_t wr(int fd, const void *b, size_t n, off_t o, bool at)
{
	int k = os::step(n > 1 ? 4 : 2); size_t m = n;
	if (k == 1) return os::fail(ENOSPC); if (k == 2) return os::fail(EINTR); if (k == 3) m = 1; if (k == 4) m = n - 1;
	sched::G g; size_t h = k ? 0 : m / 2;     /* a reader, or death, may come in the middle */
	if (h) { ssize_t r = at ? __real_pwrite(fd, b, h, o) : __real_write(fd, b, h); if (r != (ssize_t) h) return r; --sched::guard; sched::point(); ++sched::guard; }
	ssize_t r = at ? __real_pwrite(fd, (const char *) b + h, m - h, o + h) : __real_write(fd, (const char *) b + h, m - h); return r < 0 ? r : r + (ssize_t) h;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return os::in() && fd != 2 ? wr(fd, b, n, 0, false) : __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return os::in() ? wr(fd, b, n, o, true) : __real_pwrite(fd, b, n, o); }
}
struct In { In() { sched::cur->in_op = true; } ~In() { sched::cur->in_op = false; } };
static std::string err(int p) { return std::string(",\"err\":") + (os::hurt[p] ? "true" : "false"); }
static void see(int p) { hist::inv(p, "look", ""); hist::ret(p, "\"s\":" + look()); }
static int leaked = 0;
static void step(int p, char c, bool first)
{
	if (c == 'S' && !os::own[p]) return;
	if (!first) { In i; sched::point(); }
	if (c == 'R') { bool d = false; for (size_t i = 1; i < os::dead.size(); ++i) { d = d || (os::dead[i] && (os::own[i] || os::in_claim[i])); if (!os::dead[i] && (os::own[i] || os::in_claim[i])) return; } struct stat st; if (!d || stat(PATH_, &st) || !st.st_size) return; }
	os::hurt[p] = false; int r, n0 = os::fds(p);
	switch (c) {
	case 'C': hist::inv(p, "claim", "\"pid\":" + num(os::pids[p])); os::in_claim[p] = true; { In i; r = claim(p); } os::in_claim[p] = false; if (r == 0) os::own[p] = true; break;
	case 'S': case 'Z': case 'R': hist::inv(p, "stop", ""); { In i; r = stop(); } if (r == 0) os::own[p] = false; break;
	default: see(p); return;
	}
	hist::ret(p, "\"r\":" + num(r) + err(p));
	leaked += os::fds(p) - n0; see(p);
}
static long total = 0;
static void scenario(Line &l)
{
	sched::Budget b; b.max_exec = l.i(); b.pre = l.i(); b.max_rand = l.i(); b.p = 0.06; b.early = 0;
	sched::rs = 88172645463325252ull ^ ((uint64_t) l.i() * 2654435761u); for (int i = 0; i < 9; ++i) sched::rnd();
	b.die = l.i(); b.intr = l.i(); std::string f = l.s(); int n = l.i(); std::vector<std::string> ops(n); os::pids.assign(n + 1, 0);
	for (int p = 0; p < n; ++p) { os::pids[p + 1] = l.i(); ops[p] = l.s(); }
	std::string cfg = "\"n\":" + num(n) + ",\"file\":" + start_text(f); hist::seen.clear(); int before = 0;
	sched::shared_addr = [](const void *) { return false; };
	sched::on_stuck = [](sched::Co *) { hist::note("{\"k\":\"stuck\"}"); };
	sched::on_death = [](sched::Co *c) { hist::note("{\"k\":\"x\",\"p\":" + num(c->id) + "}"); os::dead[c->id] = true; os::gone(c->id); };
	total += sched::explore(b, [&]() {
			setup(f); hist::reset(n); os::owner.clear(); os::hurt.assign(n + 1, false); os::own = os::dead = os::in_claim = os::hurt; leaked = 0; before = os::all();
			for (int p = 0; p < n; ++p) { std::string *v = &ops[p]; sched::spawn([v, p]() { for (size_t i = 0; i < v->size(); ++i) step(p + 1, (*v)[i], false); }, b.die > 0); }
		}, [&]() {
			Arr bl; bool d = false; for (int p = 0; p < n; ++p) { if (sched::cos[p]->st == sched::BLOCKED) bl.raw(num(p + 1)); d = d || os::dead[p + 1]; }
			if (leaked || (!d && os::all() != before)) hist::note("{\"k\":\"descriptor left open\"}");
			if (!sched::stop_exec) hist::note("{\"k\":\"q\",\"b\":" + bl.end() + "}");
			for (int p = 1; p <= n; ++p) os::gone(p);
			hist::flush(cfg);
		});
	unlink(PATH_);
}
#else
/* events in the order of their tickets; a killed process leaves its last event without an end */
struct Rec { int p, kind; int r; char op; char txt[40]; int len; };
struct Shm { volatile long next; volatile int go; Rec rec[4096]; };
static Shm *sh;
static long put(int p, int kind, char op, int r) { long k = __sync_fetch_and_add(&sh->next, 1); Rec &e = sh->rec[k]; e.p = p; e.op = op; e.r = r; __sync_synchronize(); e.kind = kind; return k; }
static void scenario(Line &l)
{
	unsigned seed = l.i(); std::string f = l.s(); int n = l.i(), kills = l.i(); std::vector<std::string> ops(n); for (int p = 0; p < n; ++p) ops[p] = l.s();
	setup(f); memset(sh, 0, sizeof *sh); std::vector<pid_t> pid(n);
	for (int p = 0; p < n; ++p) {
		pid[p] = fork(); if (pid[p] < 0) { perror("fork"); _exit(97); }
		if (!pid[p]) {
			unsigned s = seed * 31 + p; bool own = false; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); if (fd > 2) close(fd);
			while (!sh->go) ;
			for (size_t i = 0; i < ops[p].size(); ++i) {
				for (int k = rand_r(&s) % 400; k--; ) __asm__ volatile("");
				char c = ops[p][i]; if (c == 'S' && !own) continue;
				put(p + 1, 1, c, 0); int r = c == 'C' ? claim(p) : stop(); if (c == 'C' && !r) own = true; if (c == 'S' && !r) own = false; put(p + 1, 2, c, r);
			}
			_exit(0);
		}
	}
	sh->go = 1; unsigned s = seed;
	for (int k = 0; k < kills; ++k) { for (int i = rand_r(&s) % 60000; i--; ) __asm__ volatile(""); kill(pid[rand_r(&s) % n], SIGKILL); }
	std::vector<bool> dead(n + 1); for (int p = 0; p < n; ++p) { int st; waitpid(pid[p], &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { fprintf(stderr, "signal %d\n", WTERMSIG(st)); _exit(97); } dead[p + 1] = WIFSIGNALED(st); }
	hist::reset(n); std::vector<int> openop(n + 1);
	for (long k = 0; k < sh->next && k < 4096; ++k) {
		Rec &e = sh->rec[k]; if (!e.kind) continue;
		if (e.kind == 1) { hist::inv(e.p, e.op == 'C' ? "claim" : "stop", e.op == 'C' ? "\"pid\":" + num(pid[e.p - 1]) : ""); openop[e.p] = 1; }
		else { hist::ret(e.p, "\"r\":" + num(e.r) + ",\"err\":false"); openop[e.p] = 0; }
	}
	for (int p = 1; p <= n; ++p) if (openop[p]) hist::note("{\"k\":\"x\",\"p\":" + num(p) + "}");
	/* nobody is left: look, and claim if the file is free */
	std::string s1 = look(); hist::inv(n + 1, "look", ""); hist::ret(n + 1, "\"s\":" + s1);
	hist::inv(n + 1, "claim", "\"pid\":" + num(getpid())); int r = claim(0); hist::ret(n + 1, "\"r\":" + num(r) + ",\"err\":false"); s1 = look(); hist::inv(n + 1, "look", ""); hist::ret(n + 1, "\"s\":" + s1);
	hist::note("{\"k\":\"q\",\"b\":[]}"); hist::seen.clear(); hist::flush("\"n\":" + num(n + 1) + ",\"file\":" + start_text(f)); unlink(PATH_);
}
#endif
int main(int, char **a)
{
#ifdef REAL
	sh = (Shm *) mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANON, -1, 0);
#endif
	init(); each_line(a[1], scenario);
#ifndef REAL
	fprintf(stderr, "STAT executions %ld\n", total);
#endif
	return 0;
}
