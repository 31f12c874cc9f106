/* C32: one scenario per line, each in a process and a scratch directory of its own:
 * <limit> <n> n*(d|f|l path text) <operations>
 *   p abs fault path | d fd nd fault | o fd flags fault path | m id prot kind size fault path or ~ | v id | k id off value | u id
 *   w path text (somebody else rewrites a file) | h n flags off path (have that file on n) | c n | U umask
 *   b file(2) asked(2) write kind anon: a mapping beyond 2 and 4 GiB, sizes as multiples of 2^30 and a rest, of a file
 *   (mostly a hole) that is there for this one operation; first and last byte marked 77 */
#include "fstree.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <coda/coda.h>
#include <coda/system.h>
using namespace drv;
extern "C" {
#define FAIL(e, v) if (fst::fails()) { errno = e; return v; }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); FAIL(EMFILE, -1) return __real_open(p, fl, m); }
int __real_open64(const char *, int, ...); int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); FAIL(EMFILE, -1) return __real_open64(p, fl, m); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { FAIL(EACCES, -1) return __real_mkdir(p, m); }
int __real_stat(const char *, struct stat *); int __wrap_stat(const char *p, struct stat *s) { FAIL(EACCES, -1) return __real_stat(p, s); }
int __real_fstat(int, struct stat *); int __wrap_fstat(int f, struct stat *s) { FAIL(EIO, -1) return __real_fstat(f, s); }
int __real_ftruncate(int, off_t); int __wrap_ftruncate(int f, off_t n) { FAIL(EFBIG, -1) return __real_ftruncate(f, n); }
int __real_dup2(int, int); int __wrap_dup2(int a, int b) { FAIL(EINTR, -1) return __real_dup2(a, b); }
int __real_dup3(int, int, int); int __wrap_dup3(int a, int b, int c) { FAIL(EINTR, -1) return __real_dup3(a, b, c); }
void *__real_mmap(void *, size_t, int, int, int, off_t); void *__wrap_mmap(void *a, size_t n, int p, int fl, int fd, off_t o) { FAIL(ENOMEM, MAP_FAILED) return __real_mmap(a, n, p, fl, fd, o); }
}
static std::string cwd; static int limit;
static std::string table()
{
	Arr a;
	for (int n = 0; n < limit; ++n) {
		char ln[64], b[4096]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", n); ssize_t k = readlink(ln, b, sizeof b); if (k < 0) continue;
		std::string at(b, k); if (at == cwd) at = ""; else if (at.compare(0, cwd.size() + 1, cwd + "/") == 0) at = at.substr(cwd.size() + 1);
		off_t off = lseek(n, 0, SEEK_CUR); a.raw(Obj().n("n", n).raw("at", fst::names(at)).n("off", off < 0 ? -1 : off).n("mode", fcntl(n, F_GETFL) & (O_ACCMODE | O_APPEND)).end());
	}
	return a.end();
}
static void change(const fst::Snap &a, const fst::Snap &b, Obj &o)
{
	Arr nd, nf, ch; int hurt = 0;
	for (fst::Snap::const_iterator i = b.begin(); i != b.end(); ++i) {
		fst::Snap::const_iterator j = a.find(i->first); bool neu = j == a.end();
		if (neu) { if (i->second.k == 'd') nd.raw(fst::names(i->first)); else if (i->second.k == 'f') nf.raw(fst::names(i->first)); else ++hurt; }
		else if (j->second.k != i->second.k || (i->second.k != 'f' && j->second.c != i->second.c)) { ++hurt; continue; }
		if (i->second.k == 'f' && (neu || j->second.c != i->second.c)) ch.raw(Obj().raw("p", fst::names(i->first)).b("s", i->second.c).end());
	}
	for (fst::Snap::const_iterator i = a.begin(); i != a.end(); ++i) if (!b.count(i->first)) ++hurt;
	o.raw("nd", nd.end()).raw("nf", nf.end()).raw("ch", ch.end()).raw("nm", fst::modes(a, b, hurt)).n("hurt", hurt);
}
static long big(Line &l) { long h = l.i(); return (h << 30) + l.i(); }
static void parts(Obj &o, const char *h, const char *lo, long n) { o.n(h, n >> 30).n(lo, n & ((1l << 30) - 1)); }
static long pages() { long n = -1; FILE *f = fopen("/proc/self/statm", "r"); if (!f || fscanf(f, "%ld", &n) != 1) _exit(97); fclose(f); return n; }
static void giant(Line &l, Obj &o)
{
	long file = big(l), asked = big(l); int write = l.i(); bool shared = l.s() == "shared"; int anon = l.i(), r, u = 0, first = -1, last = -1, seen = -1;
	int prot = PROT_READ | (write ? PROT_WRITE : 0), fl = (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_NORESERVE;
	o.t("f", "big").n("anon", anon).n("write", write).n("shared", shared); parts(o, "fh", "fl", file); parts(o, "sh", "sl", asked);
	static const char *name = "../giant"; std::string path = name + num(getpid());
	void *t = __real_mmap(NULL, asked > file ? asked : file, prot, fl | MAP_ANON, -1, 0); if (t == MAP_FAILED) _exit(97); munmap(t, asked > file ? asked : file);
	int fd = -1; unsigned char c = 77;
	if (!anon) { fd = __real_open(path.c_str(), O_RDWR | O_CREAT | O_EXCL, 0644); if (fd < 0 || __real_ftruncate(fd, file) || pwrite(fd, &c, 1, 0) != 1 || pwrite(fd, &c, 1, file - 1) != 1) _exit(97); }
	pages(); long before = pages(); coda_strt a; a.data = NULL; a.size = asked;
	r = coda_mmap(&a, prot, fl, anon ? NULL : path.c_str());
	parts(o.n("r", r), "gh", "gl", r ? 0 : (long) a.size);
	long took = pages() - before, after = 0;
	if (r == 0) {
		struct stat st; if (fd >= 0) { if (__real_fstat(fd, &st)) _exit(97); after = st.st_size; }
		long n = (long) a.size; bool safe = anon ? n == asked && took >= (n >> 12) : n > 0 && n <= after && took >= (n >> 12);
		if (safe) { first = (unsigned char) a.data[0]; last = (unsigned char) a.data[n - 1];
			if (write) { a.data[n - 1] = 99; seen = 0; if (fd >= 0) { if (pread(fd, &c, 1, n - 1) != 1) _exit(97); seen = c; } } }
		u = coda_umap(&a);
	}
	parts(o, "ah", "al", after); o.n("first", first).n("last", last).n("seen", seen).n("u", u).n("took", took << 12 >> 30).n("left", pages() - before);
	if (fd >= 0) { close(fd); unlink(path.c_str()); }
}
struct Map { coda_strt a; std::string file; bool write, read; };
static void sequence(Line &l)
{
	unsigned um = 022; umask(um); limit = l.i(); int nn = l.i(); for (int i = 0; i < nn; ++i) { char k = l.s()[0]; std::string p = l.b(), c = l.b(); fst::make(k, p, c); }
	for (int i = 3; i < 64; ++i) close(i);
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = limit; setrlimit(RLIMIT_NOFILE, &rl);
	fst::Snap s0 = fst::scan(); Obj run; Arr files; for (fst::Snap::iterator i = s0.begin(); i != s0.end(); ++i) if (i->second.k == 'f') files.raw(Obj().raw("p", fst::names(i->first)).b("s", i->second.c).end());
	run.raw("tree", fst::tree(s0)).raw("files", files.end()).raw("fds", table()); Arr ops; std::map<int, Map> maps;
	while (l.more()) {
		std::string c = l.s(); Obj o;
		switch (c[0]) {
		case 'p': { int abs = l.i(), ft = l.i(); std::string p = l.b(), q = abs && !p.empty() ? cwd + "/" + p : p; fst::Fixed x(q, true); int r; { fst::Arm a(ft); r = coda_mkpath(x.p); }
			o.t("f", "mkpath").b("path", p).n("r", r < 0 ? -1 : r).n("same", x.same(q)).n("err", fst::fired); break; }
		case 'd': { int fd = l.i(), nd = l.i(), ft = l.i(), r; { fst::Arm a(ft); r = coda_fdmove(fd, nd); } o.t("f", "fdmove").n("fd", fd).n("to", nd < 0 ? -1 : nd).n("r", r).n("err", fst::fired).n("limit", limit); break; }
		case 'o': { int fd = l.i(), fl = l.i(), ft = l.i(); std::string p = l.b(); fst::Fixed x(p); int r; { fst::Arm a(ft); r = coda_fdopen(fd, x.p, fl); }
			o.t("f", "fdopen").n("fd", fd < 0 ? -1 : fd).b("path", p).n("creat", !!(fl & O_CREAT)).n("excl", !!(fl & O_EXCL)).n("trunc", !!(fl & O_TRUNC)).n("write", (fl & O_ACCMODE) != O_RDONLY).n("mode", fl & (O_ACCMODE | O_APPEND)).n("r", r).n("err", fst::fired).n("limit", limit); break; }
		case 'm': {
			int id = l.i(), prot = l.i(); std::string kind = l.s(); long size = l.i(); int ft = l.i(); std::string h = l.s(); bool anon = h == "~"; if (maps.count(id)) continue;
			Line q; q.t.push_back(anon ? "-" : h); std::string p = q.b(); fst::Fixed x(p); Map m; m.a.size = size; m.a.data = (char *) 1; m.write = prot & PROT_WRITE; m.read = prot & PROT_READ; int r;
			/* invalid: neither shared nor private, or both kinds mixed up with nonsense */
			int fl = kind == "shared" ? MAP_SHARED : kind == "private" ? MAP_PRIVATE : 0;
			{ fst::Arm a(ft); if (!anon && kind == "private" && prot == PROT_READ && size == 0) r = coda_mmap_file(&m.a, x.p); else r = coda_mmap(&m.a, prot, fl, anon ? NULL : x.p); }
			std::string b; if (r == 0 && m.read) b.assign(m.a.data, m.a.size);
			o.t("f", "map").n("id", id).n("anon", anon).b("path", p).t("kind", kind == "shared" ? "shared" : "private").n("bad", fl == 0).n("size", size).n("write", m.write).n("read", m.read).n("r", r < 0 ? -1 : r).n("got", r ? 0 : (long) m.a.size).b("bytes", b).n("err", fst::fired);
			if (r == 0) { char rp[4096]; if (!anon && realpath(x.p, rp)) { m.file = rp; if (m.file.compare(0, cwd.size() + 1, cwd + "/") == 0) m.file = m.file.substr(cwd.size() + 1); } maps[id] = m; } break; }
		case 'v': case 'k': {
			int id = l.i(); long off = c[0] == 'k' ? l.i() : 0; int v = c[0] == 'k' ? l.i() : 0; if (!maps.count(id)) continue; Map &m = maps[id];
			if (!m.file.empty() && s0[m.file].c.size() < m.a.size) continue;       /* no longer backed by the file */
			if (c[0] == 'v') { if (!m.read) continue; o.t("f", "view").n("id", id).b("bytes", std::string(m.a.data, m.a.size)); }
			else { if (!m.write || !m.read) continue; off %= m.a.size; m.a.data[off] = v; o.t("f", "poke").n("id", id).n("off", off).n("v", v); }
			break; }
		case 'u': { int id = l.i(); if (!maps.count(id)) continue; o.t("f", "unmap").n("id", id).n("r", coda_umap(&maps[id].a)); maps.erase(id); break; }
		case 'w': { std::string p = l.b(), t = l.b(); if (!s0.count(p) || s0[p].k != 'f') continue; int fd = open(p.c_str(), O_WRONLY); if (fd < 0) continue; if (pwrite(fd, t.data(), t.size(), 0) != (ssize_t) t.size() || ftruncate(fd, t.size())) _exit(97); close(fd); o.t("f", "write").raw("p", fst::names(p)).b("s", t); break; }
		case 'h': { int n = l.i(), fl = l.i(); long off = l.i(); std::string p = l.b(); int fd = open(p.c_str(), fl); if (fd < 0) continue; if (fd != n) { if (dup2(fd, n) < 0) { close(fd); continue; } close(fd); } lseek(n, off, SEEK_SET); o.t("f", "have"); break; }
		case 'c': close(l.i()); o.t("f", "have"); break;
		case 'b': giant(l, o); break;
		case 'U': um = l.i(); umask(um); o.t("f", "have"); break;
		}
		fst::Snap s1 = fst::scan(); change(s0, s1, o); s0 = s1; o.raw("want", fst::bits(um)).raw("um", fst::bits(fst::mask())); ops.raw(o.raw("fds", table()).end());
	}
	emit(run.raw("ops", ops.end()).end());
}
static int count = 0;
static void scenario(Line &l)
{
	std::string dir = "help." + num(++count); fst::wipe(dir); if (mkdir(dir.c_str(), 0755)) { perror("mkdir"); _exit(97); }
	pid_t p = fork(); if (p < 0) { perror("fork"); _exit(97); }
	if (!p) { if (chdir(dir.c_str())) _exit(97); char b[4096]; cwd = getcwd(b, sizeof b); sequence(l); _exit(0); }
	int st; waitpid(p, &st, 0); fst::wipe(dir);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "child: status %x\n", st); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98); }
}
int main(int, char **a) { init(); each_line(a[1], scenario); return 0; }
