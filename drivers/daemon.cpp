/* C31. g <n> n*word: a command line
 * d <umask> <in> <out> <extra descriptors> <n> n*(d|f|l path text) <operations>: a process of its own in a scratch directory; in, out: 1 open, 0 closed
 *   L daemon fault path or ~ | S path or ~ | w path text (somebody writes a file) | x path (somebody removes it) */
#include "fstree.h"
#include <errno.h>
#include <getopt.h>
#include <signal.h>
#include <stdarg.h>
#include <sched.h>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <coda/coda.h>
#include <coda/daemon.h>
using namespace drv;
/* a process that leaves for another directory gets to one next to the scratch directory, whatever it asked for */
static std::string cwd; static bool inside = false;
static int leave() { return chdir((cwd + ".else").c_str()); }
extern "C" {
#define FAIL(e, v) if (fst::fails()) { errno = e; return v; }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); FAIL(EMFILE, -1) return __real_open(p, fl, m); }
int __real_open64(const char *, int, ...); int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); FAIL(EMFILE, -1) return __real_open64(p, fl, m); }
int __real_chdir(const char *); int __wrap_chdir(const char *p) { if (!inside) return __real_chdir(p); FAIL(EACCES, -1) inside = false; int r = leave(); inside = true; return r; }
int __real_fchdir(int); int __wrap_fchdir(int f) { return inside ? __wrap_chdir("") : __real_fchdir(f); }
int __wrap_chroot(const char *) { errno = EPERM; return -1; }
pid_t __real_fork(); pid_t __wrap_fork() { FAIL(EAGAIN, -1) return __real_fork(); }
pid_t __real_setsid(); pid_t __wrap_setsid() { FAIL(EPERM, -1) return __real_setsid(); }
int __real_dup2(int, int); int __wrap_dup2(int a, int b) { FAIL(EINTR, -1) return __real_dup2(a, b); }
int __real_dup3(int, int, int); int __wrap_dup3(int a, int b, int c) { FAIL(EINTR, -1) return __real_dup3(a, b, c); }
int __real_fstat(int, struct stat *); int __wrap_fstat(int f, struct stat *s) { FAIL(EIO, -1) return __real_fstat(f, s); }
int __real_flock(int, int); int __wrap_flock(int f, int o) { FAIL(ENOLCK, -1) return __real_flock(f, o); }
ssize_t __real_write(int, const void *, size_t); ssize_t __wrap_write(int f, const void *b, size_t n) { FAIL(ENOSPC, -1) return __real_write(f, b, n); }
}
struct Shm { volatile int lock, len, first; char head[1 << 18], txt[1 << 21]; };
static Shm *sh;
static void put(const std::string &s) { while (__sync_lock_test_and_set(&sh->lock, 1)) sched_yield(); size_t n = s.size(); if (sh->len + n + 2 > sizeof sh->txt) _exit(97); if (!sh->first) sh->txt[sh->len++] = ','; sh->first = 0; memcpy(sh->txt + sh->len, s.data(), n); sh->len += n; __sync_lock_release(&sh->lock); }
static std::string table()
{
	Arr a;
	for (int n = 0; n < 64; ++n) {
		char ln[64], b[4096]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", n); ssize_t k = readlink(ln, b, sizeof b); if (k < 0) continue;
		std::string at(b, k); if (at == cwd) at = ""; else if (at.compare(0, cwd.size() + 1, cwd + "/") == 0) at = at.substr(cwd.size() + 1);
		off_t off = lseek(n, 0, SEEK_CUR); a.raw(Obj().n("n", n).raw("at", fst::names(at)).n("off", off < 0 ? -1 : off).n("mode", fcntl(n, F_GETFL) & (O_ACCMODE | O_APPEND)).end());
	}
	return a.end();
}
static std::string caught() { std::string t = fst::slurp("/proc/self/status"); size_t p = t.find("SigCgt:"); unsigned long m = p == std::string::npos ? 0 : strtoul(t.c_str() + p + 7, 0, 16); Arr a; for (int i = 1; i < 32; ++i) if (m >> (i - 1) & 1) a.raw(num(i)); return a.end(); }
static void change(const fst::Snap &a, const fst::Snap &b, Obj &o)
{
	Arr nd, nf, ch, go; int hurt = 0;
	for (fst::Snap::const_iterator i = b.begin(); i != b.end(); ++i) {
		fst::Snap::const_iterator j = a.find(i->first); bool neu = j == a.end();
		if (neu) { if (i->second.k == 'd') nd.raw(fst::names(i->first)); else if (i->second.k == 'f') nf.raw(fst::names(i->first)); else ++hurt; }
		else if (j->second.k != i->second.k || (i->second.k != 'f' && j->second.c != i->second.c)) { ++hurt; continue; }
		if (i->second.k == 'f' && (neu || j->second.c != i->second.c)) ch.raw(Obj().raw("p", fst::names(i->first)).b("s", i->second.c).end());
	}
	for (fst::Snap::const_iterator i = a.begin(); i != a.end(); ++i) if (!b.count(i->first)) go.raw(fst::names(i->first));
	o.raw("nd", nd.end()).raw("nf", nf.end()).raw("ch", ch.end()).raw("gone", go.end()).raw("nm", fst::modes(a, b, hurt)).n("hurt", hurt);
}
static void self(Obj &o) { o.raw("um", fst::bits(fst::mask())).n("pid", getpid()).n("sid", getsid(0)).raw("fds", table()).raw("caught", caught()); }
static void subject(Line &l, const fst::Snap &t0)
{
	fst::Snap s0 = t0;
	{ Obj run; Arr files; for (fst::Snap::iterator i = s0.begin(); i != s0.end(); ++i) if (i->second.k == 'f') files.raw(Obj().raw("p", fst::names(i->first)).b("s", i->second.c).end());
	  run.raw("tree", fst::tree(s0)).raw("files", files.end()); self(run); std::string e = run.end(); if (e.size() > sizeof sh->head) _exit(97); memcpy(sh->head, e.c_str(), e.size() + 1); }
	while (l.more()) {
		std::string c = l.s(); Obj o;
		switch (c[0]) {
		case 'L': case 'S': {
			int dm = 0, ft = 0, r; if (c[0] == 'L') { dm = l.i(); ft = l.i(); } std::string h = l.s(); Line q; q.t.push_back(h == "~" ? "-" : h); std::string p = q.b(); fst::Fixed x(p);
			coda_getopt_t g; memset(&g, 0, sizeof g); g.daemon = dm; if (h != "~") g.pid = x.p;
			inside = true; if (c[0] == 'L') { fst::Arm a(ft); r = coda_daemon_load(&g); } else { fst::fired = false; r = coda_daemon_stop(&g); } inside = false;
			o.t("f", c[0] == 'L' ? "load" : "stop").n("daemon", dm).raw("path", h == "~" ? "[]" : "[" + arr(p) + "]").b("digits", num(getpid())).n("r", r < 0 ? -1 : r).n("err", fst::fired); break; }
		case 'w': { std::string p = l.b(), t = l.b(); int fd = open((cwd + "/" + p).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_NOFOLLOW, 0644); if (fd < 0) continue; if (write(fd, t.data(), t.size()) != (ssize_t) t.size()) _exit(97); close(fd); o.t("f", "other"); break; }
		case 'x': { std::string p = l.b(); if (s0.count(p) && s0[p].k != 'd') unlink((cwd + "/" + p).c_str()); o.t("f", "other"); break; }
		}
		int here = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC); if (chdir(cwd.c_str())) _exit(97);
		fst::Snap s1 = fst::scan(); if (here < 0 || fchdir(here)) _exit(97); close(here); change(s0, s1, o); s0 = s1; self(o); put(o.end());
	}
}
static int count = 0;
static void daemon_(Line &l)
{
	std::string dir = "dmn." + num(++count); fst::wipe(dir); if (mkdir(dir.c_str(), 0755)) { perror("mkdir"); _exit(97); }
	sh->len = 0; sh->first = 1; sh->lock = 0; memset(sh->head, 0, 16);
	pid_t p = fork(); if (p < 0) { perror("fork"); _exit(97); }
	if (!p) {
		prctl(PR_SET_CHILD_SUBREAPER, 1); if (chdir(dir.c_str())) _exit(97); char b[4096]; cwd = getcwd(b, sizeof b); fst::wipe(cwd + ".else"); if (mkdir((cwd + ".else").c_str(), 0755)) _exit(97);
		struct rlimit rc = { 60, 60 }, ra = { 4ul << 30, 4ul << 30 }; setrlimit(RLIMIT_CPU, &rc); setrlimit(RLIMIT_AS, &ra);
		int um = l.i(), in = l.i(), out = l.i(), extra = l.i(), nn = l.i(); umask(um); fst::make('f', "std.in", "input"); fst::make('f', "std.out", ""); for (int i = 0; i < nn; ++i) { char k = l.s()[0]; std::string q = l.b(), c = l.b(); fst::make(k, q, c); }
		int pp[2]; if (pipe(pp)) _exit(97); int keep = fcntl(pp[0], F_DUPFD, 800), err = fcntl(pp[1], F_DUPFD, 801); (void) keep;
		fst::Snap s0 = fst::scan();
		pid_t s = fork();
		if (!s) {
			for (int i = 0; i < 64; ++i) close(i);
			if (open("std.in", O_RDONLY) != 0 || open("std.out", O_WRONLY) != 1 || dup2(err, 2) < 0) _exit(97);
			for (int i = 0; i < extra; ++i) { int fd = open(i % 2 ? "std.in" : "std.out", i % 2 ? O_RDONLY : O_RDWR); if (i % 3 == 2) { dup2(fd, 10 + i); close(fd); } }
			if (!in) close(0); if (!out) close(1);
			signal(SIGPIPE, SIG_DFL); for (int i = 1; i < 32; ++i) signal(i, SIG_DFL);
			subject(l, s0); _exit(42);
		}
		close(err); Arr made, ex; int st; pid_t q; alarm(100);
		while ((q = waitpid(-1, &st, 0)) > 0) { made.raw(num(q)); ex.raw(Obj().n("pid", q).n("code", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)).end()); if (WIFEXITED(st) && WEXITSTATUS(st) == 97) _exit(97); }
		std::string h(sh->head); if (h.size() < 3) _exit(97); h.erase(h.size() - 1);
		emit(h + ",\"made\":" + made.end() + ",\"exits\":" + ex.end() + ",\"ops\":[" + std::string(sh->txt, sh->len) + "]}"); _exit(0);
	}
	int st; waitpid(p, &st, 0); fst::wipe(dir); fst::wipe(dir + ".else");
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "child: status %x\n", st); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98); }
}
static void words(Line &l)
{
	int n = l.i(); std::vector<std::string> w(1, "prog"); for (int i = 0; i < n; ++i) w.push_back(l.b());
	std::vector<fst::Fixed *> f; std::vector<char *> v; Arr a; for (size_t i = 0; i < w.size(); ++i) { f.push_back(new fst::Fixed(w[i])); v.push_back(f.back()->p); if (i) a.raw(arr(w[i])); } v.push_back(0);
	coda_getopt_t g; memset(&g, 0x5a, sizeof g); optind = 0; opterr = 0; int r = coda_getopt_parse(n + 1, &v[0], &g); Obj o; o.t("f", "parse").raw("args", a.end()).n("r", r < 0 ? -1 : r);
	if (r == 0) o.raw("config", g.config ? "[" + arr(std::string(g.config)) + "]" : "[]").raw("pid", g.pid ? "[" + arr(std::string(g.pid)) + "]" : "[]").n("daemon", g.daemon);
	emit(o.end()); for (size_t i = 0; i < f.size(); ++i) delete f[i];
}
int main(int, char **a) { init(); unsetenv("POSIXLY_CORRECT"); sh = (Shm *) mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANON, -1, 0); each_line(a[1], [](Line &l) { std::string k = l.s(); if (k == "g") words(l); else daemon_(l); }); return 0; }
