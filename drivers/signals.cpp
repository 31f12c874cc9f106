/* C29: one scenario per line, each in a process of its own: <operations...>
 * i | n set-up | Bk what was there before (k: 0 ignored, 1 one-shot handlers, 2 interrupting handlers) | r sig how (0 raise 1 kill 2 queue 3 thread 4 from another process 5 by its cause)
 * Ek what standard error is from now on (0 usual 1 closed 2 full 3 not writable) | m how bits | c flag | s kind sig (slow call: 0 read 1 write 2 waitpid 3 recv) | S n count sig... (storm during log calls) */
#include "drv.h"
#include <signal.h>
#include <errno.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <coda/coda.h>
#include <coda/logger.h>
#include <coda/daemon.h>
using namespace drv;
struct Shm { volatile int inside, done, ready, go, len; char txt[1 << 19]; };
static Shm *sh;
static void put(const std::string &s) { size_t n = s.size(); if (sh->len + n + 2 > sizeof sh->txt) _exit(97); memcpy(sh->txt + sh->len, s.data(), n); sh->len += n; }
static bool first;
static std::string set_of(const sigset_t *s) { Arr a; for (int i = 1; i < 65; ++i) if (i != 32 && i != 33 && sigismember(s, i) == 1) a.raw(num(i)); return a.end(); }
static void seen(const std::string &f, const std::string &more)
{
	sigset_t b, p; sigprocmask(SIG_BLOCK, 0, &b); sigpending(&p); Arr fl;
	if (coda_terminate) fl.raw("\"terminate\""); if (coda_changecfg) fl.raw("\"changecfg\""); if (coda_rotatelog) fl.raw("\"rotatelog\""); if (coda_changebin) fl.raw("\"changebin\"");
	put((first ? "" : ",") + ("{\"f\":\"" + f + "\"") + (more.empty() ? "" : "," + more) + ",\"flags\":" + fl.end() + ",\"blocked\":" + set_of(&b) + ",\"pending\":" + set_of(&p) + "}"); first = false;
}
static void nothing(int) {}
static void __attribute__((noinline)) dirty(unsigned char c) { volatile unsigned char b[16384]; for (size_t i = 0; i < sizeof b; ++i) b[i] = c; }
static void nap(long us) { struct timespec t = { 0, us * 1000 }; nanosleep(&t, 0); }
/* state and pending signals of a process */
static bool proc(pid_t p, char &st, unsigned long &pnd)
{
	char b[4096], f[64]; snprintf(f, sizeof f, "/proc/%d/status", (int) p); FILE *o = fopen(f, "r"); if (!o) return false; st = 0; pnd = 0;
	while (fgets(b, sizeof b, o)) { unsigned long x; if (sscanf(b, "State: %c", &st) == 1) continue; if (sscanf(b, "SigPnd: %lx", &x) == 1 || sscanf(b, "ShdPnd: %lx", &x) == 1) pnd |= x; }
	fclose(o); return true;
}
static void *idle(void *) { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, 0); for (;;) pause(); }
/* a process of ours does f; how: its exit is waited for */
template <class F> static void other(F f) { pid_t me = getpid(); sigset_t a, o; (void) a; (void) o; pid_t p = fork(); if (!p) { f(me); _exit(0); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; }
/* the interrupted code keeps its errno (k: it does) */
static bool kept;
static void raise_it(int s, int how)
{
	errno = 4242;
	switch (how) {
	case 1: kill(getpid(), s); return;
	case 2: { union sigval v; v.sival_int = 7; sigqueue(getpid(), s, v); return; }
	case 3: pthread_kill(pthread_self(), s); return;
	case 5:
		if (fcntl(2, F_GETFD) < 0) { raise(s); return; }       /* no descriptor of ours becomes standard error */
		if (s == SIGPIPE) { int p[2]; if (pipe(p)) _exit(97); close(p[0]); if (write(p[1], "x", 1) >= 0 || errno != EPIPE) _exit(95); close(p[1]); return; }
		if (s == SIGXFSZ) { struct rlimit o, r; getrlimit(RLIMIT_FSIZE, &o); r = o; r.rlim_cur = 1; FILE *f = tmpfile(); if (!f) _exit(97); setrlimit(RLIMIT_FSIZE, &r); if (write(fileno(f), "xx", 2) != 1 || write(fileno(f), "x", 1) >= 0) _exit(95); setrlimit(RLIMIT_FSIZE, &o); fclose(f); return; }
		if (s == SIGCHLD) { pid_t p = fork(); if (!p) _exit(0); int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(95); return; }
	default: raise(s);
	}
}
/* blocked in a call, a signal comes, later the call can go on */
static int slow(int kind, int sig)
{
	int p[2], q[2]; static char big[1 << 20];
	if (pipe(q)) _exit(97);
	if (kind == 3) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(97); } else if (pipe(p)) _exit(97);
	if (kind == 1) { fcntl(p[1], F_SETFL, O_NONBLOCK); while (write(p[1], big, 4096) > 0) ; fcntl(p[1], F_SETFL, 0); }
	pid_t me = getpid(), waited = 0; char c;
	if (kind == 2) { waited = fork(); if (!waited) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGCHLD); close(q[1]); if (read(q[0], &c, 1) < 0) {} _exit(0); } }
	sh->inside = sh->done = 0;
	pid_t h = fork();
	if (!h) {
		char st; unsigned long pn; signal(SIGPIPE, SIG_IGN); if (kind == 2) close(q[0]);
		for (int quiet = 0; quiet < 3; ) { proc(me, st, pn); quiet = sh->inside && st == 'S' ? quiet + 1 : 0; nap(50); }
		kill(me, sig);
		for (int i = 0; i < 400 && !sh->done; ++i) {          /* taken, or waiting behind the mask */
			proc(me, st, pn); if (st == 'S' && i >= 20) break; nap(100); }
		if (kind == 0 || kind == 3) { if (write(p[1], "y", 1) < 0) {} }
		else if (kind == 1) { if (read(p[0], big, sizeof big) < 0) {} }
		else { if (write(q[1], "y", 1) < 0) {} }
		_exit(0);
	}
	long r; int e; sh->inside = 1; errno = 0;
	switch (kind) { case 0: r = read(p[0], &c, 1); break; case 1: r = write(p[1], "z", 1); break; case 2: { int st; r = waitpid(waited, &st, 0); } break; default: r = recv(p[0], &c, 1, 0); }
	e = errno; sh->done = 1;
	int st; while (waitpid(h, &st, 0) < 0 && errno == EINTR) ; if (kind == 2 && r < 0) { if (write(q[1], "y", 1) < 0) {} while (waitpid(waited, &st, 0) < 0 && errno == EINTR) ; }
	close(p[0]); close(p[1]); close(q[0]); close(q[1]);
	return r < 0 && e == EINTR ? 1 : r > 0 ? 0 : 2;
}
static void child(Line &l)
{
	setpgid(0, 0); sh->ready = 1; while (!sh->go) ;
	first = true; int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); close(fd);
	static const char *hows[] = { "block", "unblock", "set", "other" }; static const int howv[] = { SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK, 4711 };
	static const char *fl[] = { "terminate", "changecfg", "rotatelog", "changebin" };
	/* a child of ours that ends tells us so: that is a signal too, only wanted when asked for */
	while (l.more()) {
		std::string o = l.s();
		switch (o[0]) {
		case 'i': dirty(255); { int r = coda_signal_init(); seen("init", "\"r\":" + num(r)); } break;
		case 'n': dirty(255); { int r = coda_signal_init_norestart(); seen("norestart", "\"r\":" + num(r)); } break;
		case 'B': for (int s = 1; s < 32; ++s) if (s != SIGKILL && s != SIGSTOP && s != SIGSEGV && s != SIGBUS && s != SIGILL && s != SIGFPE && s != SIGABRT) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = o[1] == '0' ? SIG_IGN : nothing; a.sa_flags = o[1] == '1' ? SA_RESETHAND | SA_NODEFER : 0; sigaction(s, &a, 0); } seen("before", ""); break;
		case 'E': close(2); if (o[1] != '1') { int d = open(o[1] == '2' ? "/dev/full" : "/dev/null", o[1] == '3' ? O_RDONLY : O_RDWR); if (d < 0) _exit(97); if (d != 2) { dup2(d, 2); close(d); } } break;
		case 'r': { int s = l.i(), how = l.i(); raise_it(s, how); kept = how == 5 || errno == 4242; seen("raise", "\"s\":" + num(s) + ",\"kept\":" + (kept ? "true" : "false")); break; }
		case 'm': { int h = l.i(); unsigned bits = strtoul(l.s().c_str(), 0, 10); errno = 4242; int r = coda_signal_mask(howv[h], bits); kept = r || errno == 4242; Arr a; for (int i = 1; i < 32; ++i) if (bits >> i & 1) a.raw(num(i)); seen("mask", std::string("\"how\":\"") + hows[h] + "\",\"set\":" + a.end() + ",\"r\":" + num(r) + ",\"kept\":" + (kept ? "true" : "false")); break; }
		case 'c': { int k = l.i(); (k == 0 ? coda_terminate : k == 1 ? coda_changecfg : k == 2 ? coda_rotatelog : coda_changebin) = 0; seen("clear", std::string("\"n\":\"") + fl[k] + "\""); break; }
		case 's': { int kind = l.i(), s = l.i(), r = slow(kind, s); if (r == 2) put(",{\"f\":\"slow call fails\"}"); seen("slow", "\"s\":" + num(s) + ",\"intr\":" + (r == 1 ? "true" : "false")); break; }
		case 'S': {
			int n = l.i(), k = l.i(); std::vector<int> sg; Arr a; while (k--) { sg.push_back(l.i()); a.raw(num(sg.back())); }
			pid_t me = getpid(); sh->done = 0; pid_t h = fork();
			if (!h) { for (size_t i = 0; i < n * sg.size(); ++i) { kill(me, sg[i % sg.size()]); for (volatile int j = (i * 7) % 300; j--; ) ; } sh->done = 1; _exit(0); }
			for (int i = 0; !sh->done; ++i) { log_info("line %d of a storm", i); if (i % 8 == 0) log_create("/dev/null", LOG_info); }
			int st; while (waitpid(h, &st, 0) < 0 && errno == EINTR) ;
			seen("storm", "\"set\":" + a.end()); break; }
		}
	}
	_exit(0);
}
static void scenario(Line &l)
{
	memset(sh, 0, offsetof(Shm, txt)); std::string end;
	pid_t p = fork(); if (p < 0) { perror("fork"); _exit(97); }
	if (!p) { child(l); _exit(0); }
	while (!sh->ready) sched_yield(); sh->go = 1;
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); int st, r;
	for (long i = 0; ; ++i) {
		r = waitpid(p, &st, WNOHANG | WUNTRACED); if (r == p) break;
		if (i < 2000) sched_yield(); else nap(200); clock_gettime(CLOCK_MONOTONIC, &t1);
		if (t1.tv_sec - t0.tv_sec > 15) { end = "hang"; break; }
	}
	if (r == p && WIFSTOPPED(st)) end = "stopped by " + num(WSTOPSIG(st));
	else if (r == p && WIFSIGNALED(st)) end = "killed by " + num(WTERMSIG(st));
	else if (r == p && WEXITSTATUS(st)) { if (WEXITSTATUS(st) == 97) { fprintf(stderr, "child failed\n"); _exit(97); } end = "exit " + num(WEXITSTATUS(st)); }
	if (!end.empty()) { if (r != p || WIFSTOPPED(st)) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); } put((sh->len ? "," : "") + ("{\"f\":\"" + end + "\"}")); }
	emit("{\"ops\":[" + std::string(sh->txt, sh->len) + "]}");
}
int main(int, char **a) { sh = (Shm *) mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANON, -1, 0); init(); each_line(a[1], scenario); return 0; }
