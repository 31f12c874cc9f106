/* C38: each line is a process that initialises and draws */
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "calls.h"
#include "coda/random.h"
using namespace drv;
/* the system gives no seed: opening fails (1), reading fails (2), everything that could give one fails (3) */
static int want, hit;
extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); ssize_t __real_read(int, void *, size_t);
FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t);
int __wrap_open(const char *p, int f, ...) { if (want & 1) { hit = 1; errno = EMFILE; return -1; } return __real_open(p, f, 0); }
int __wrap_open64(const char *p, int f, ...) { if (want & 1) { hit = 1; errno = EMFILE; return -1; } return __real_open64(p, f, 0); }
FILE *__wrap_fopen(const char *p, const char *m) { if (want & 1) { hit = 1; errno = EMFILE; return 0; } return __real_fopen(p, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (want & 2) { hit = 1; errno = EIO; return -1; } return __real_read(fd, b, n); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if (want & 2) { hit = 1; errno = EIO; return 0; } return __real_fread(b, s, n, f); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (want) { hit = 1; errno = ENOSYS; return -1; } return __real_getrandom(b, n, f); }
int __wrap_getentropy(void *b, size_t n) { if (want) { hit = 1; errno = ENOSYS; return -1; } return __real_getentropy(b, n); }
}
static int fds() { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static std::string predict(int n)
{
	char tmp[128], copy[128], tmp2[128]; char *old = initstate(1, tmp, 128); memcpy(copy, old, 128); setstate(old);
	struct random_data rd; memset(&rd, 0, sizeof rd); initstate_r(1, tmp2, 128, &rd); if (setstate_r(copy, &rd)) _exit(97);
	Arr a; while (n--) { int32_t v; random_r(&rd, &v); a.raw(num(v)); } return a.end();
}
static std::string draw(int n) { Arr a; while (n--) a.raw(num(coda_random())); return a.end(); }
static void proc(Line &l)
{
	pid_t k = fork();
	if (k < 0) _exit(97);
	if (!k)
	{
		Arr ops;
		while (l.more())
		{
			std::string f = l.s(); if (f == "nofd") { close(l.i()); continue; } Obj o; o.t("f", f);
			if (f == "init")
			{
				int w = l.i(), before = fds(); std::string pred = predict(4);
				want = w; hit = 0; int r = coda_random_init(); want = 0;
				o.n("fault", hit).n("r", r).n("left", fds() - before).raw("pred", pred).raw("draw", draw(4));
			}
			else { int n = l.i(); std::string pred = predict(n); o.raw("pred", pred).raw("draw", draw(n)); }
			ops.raw(o.end());
		}
		emit(Obj().raw("ops", ops.end()).end());
		_exit(0);
	}
	int st; if (waitpid(k, &st, 0) < 0) _exit(97);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
}
int main(int, char **a) { init(); each_line(a[1], proc); return 0; }
