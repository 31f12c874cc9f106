/* C34. i text: an address text
 * h <operations>: sockets in a process of its own
 *   l id host a b c d port nb backlog fault (port: number, 0, f a free one, p a free one nobody is given by chance, =id that of a listener, perhaps gone) | c id lid nb | C id lid d (from 127.0.0.d) | n nb fault errno (nobody listens)
 *   a lid nb fault (0 or a b c d, the peer said to be there)
 *   s id end text | r id end n | w id end n signals text | S id end chunks len seed signals | b id end mode | t id end sec usec | x id end | X lid */
#include "fstree.h"
#include <errno.h>
#include <stdarg.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <coda/coda.h>
#include <coda/socket.h>
using namespace drv;
/* the k-th call into the system fails; a connection fails in a given way; an accepted peer has a given address */
static int how = 0; static bool forged = false; static in_addr_t peer; static int peer_fd = -1, peer_port = 0; static struct sockaddr_in at(int fd, bool peer);
extern "C" {
#define FAIL(e) if (fst::fails()) { errno = e; return -1; }
int __real_socket(int, int, int); int __wrap_socket(int a, int b, int c) { FAIL(EMFILE) return __real_socket(a, b, c); }
int __real_bind(int, const struct sockaddr *, socklen_t); int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { FAIL(EADDRINUSE) return __real_bind(a, b, c); }
int __real_listen(int, int); int __wrap_listen(int a, int b) { FAIL(EADDRINUSE) return __real_listen(a, b); }
int __real_setsockopt(int, int, int, const void *, socklen_t); int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { FAIL(ENOBUFS) return __real_setsockopt(a, b, c, d, e); }
int __real_ioctl(int, unsigned long, ...); int __wrap_ioctl(int a, unsigned long b, ...) { va_list ap; va_start(ap, b); void *c = va_arg(ap, void *); va_end(ap); FAIL(EIO) return __real_ioctl(a, b, c); }
int __real_connect(int, const struct sockaddr *, socklen_t); int __wrap_connect(int a, const struct sockaddr *b, socklen_t c) { FAIL(EADDRNOTAVAIL) if (how && fst::armed) { errno = how; return -1; } return __real_connect(a, b, c); }
static void forge(struct sockaddr *b, socklen_t *c) { if (forged && b && *c >= sizeof(struct sockaddr_in)) ((struct sockaddr_in *) b)->sin_addr.s_addr = peer; }
int __real_accept(int, struct sockaddr *, socklen_t *); int __wrap_accept(int a, struct sockaddr *b, socklen_t *c) { FAIL(ECONNABORTED) int r = __real_accept(a, b, c); if (r >= 0) { peer_fd = r; peer_port = ntohs(at(r, true).sin_port); forge(b, c); } return r; }
int __real_accept4(int, struct sockaddr *, socklen_t *, int); int __wrap_accept4(int a, struct sockaddr *b, socklen_t *c, int f) { FAIL(ECONNABORTED) int r = __real_accept4(a, b, c, f); if (r >= 0) { peer_fd = r; peer_port = ntohs(at(r, true).sin_port); forge(b, c); } return r; }
int __real_getpeername(int, struct sockaddr *, socklen_t *); int __wrap_getpeername(int a, struct sockaddr *b, socklen_t *c) { int r = __real_getpeername(a, b, c); if (!r && fst::armed && a == peer_fd) forge(b, c); return r; }
}
static int descriptors() { int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
static std::string quad(in_addr_t a) { unsigned char b[4]; memcpy(b, &a, 4); return arr(b, 4); }
static int nonblock(int fd) { return !!(fcntl(fd, F_GETFL) & O_NONBLOCK); }
static long ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void nap(long us) { struct timespec t = { us / 1000000, us % 1000000 * 1000 }; nanosleep(&t, 0); }
static struct sockaddr_in at(int fd, bool peer) { struct sockaddr_in a; memset(&a, 0, sizeof a); socklen_t n = sizeof a; if (peer) getpeername(fd, (struct sockaddr *) &a, &n); else getsockname(fd, (struct sockaddr *) &a, &n); return a; }
static void nothing(int) {}
struct Lst { int fd, port; in_addr_t addr; int pending, room; };
struct Con { int fd[2]; size_t to[2]; int lid; bool open[2], lost[2], torn; long sec[2], usec[2]; int port; };     /* 0 the connected end, 1 the accepted end */
static std::map<int, Lst> L; static std::map<int, int> gone; static std::map<int, Con> C;
static std::set<int> fixed; static unsigned ports;
struct Later { pthread_t main; int fd, sigs, shut; std::string data; long delay; volatile int done; };
static void *later(void *a)
{
	Later *g = (Later *) a; nap(3000);
	for (int i = 0; i < g->sigs; ++i) { pthread_kill(g->main, SIGUSR1); nap(2000); }
	if (g->shut >= 0) { long e = ms() + g->delay; while (!g->done && ms() < e) nap(10000); if (!g->done) shutdown(g->shut, SHUT_RDWR); return 0; }
	if (send(g->fd, g->data.data(), g->data.size(), MSG_NOSIGNAL) != (ssize_t) g->data.size()) _exit(97);
	return 0;
}
struct Pump { bool blocking; int fd; int chunks, len; unsigned seed; int sigs; std::string sent; int bad; volatile int done; };
static void *pump(void *a)
{
	Pump *g = (Pump *) a; unsigned s = g->seed;
	for (int i = 0; i < g->chunks; ++i) {
		std::string b; int n = rand_r(&s) % g->len + 1; for (int j = 0; j < n; ++j) b.push_back(rand_r(&s)); size_t o = 0;
		while (o < b.size()) { int r = coda_unix_send(g->fd, &b[o], b.size() - o); if (r > (int) (b.size() - o) || r == 0 || (r < 0 && errno != EAGAIN && errno != EINTR)) { ++g->bad; g->done = 1; return 0; } if (r < (int) (b.size() - o) && g->blocking && !(g->sigs && (r > 0 || errno == EINTR))) { ++g->bad; g->done = 1; return 0; } if (r < 0) { nap(500); continue; } g->sent.append(b, o, r); o += r; }
	}
	g->done = 1; return 0;
}
struct Noise { pthread_t a, b; volatile int stop; };
static void *noise(void *a) { Noise *g = (Noise *) a; while (!g->stop) { pthread_kill(g->a, SIGUSR1); nap(700); pthread_kill(g->b, SIGUSR1); nap(700); } return 0; }
static void quiet() { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, 0); }
static void *quiet_later(void *a) { quiet(); return later(a); }
static void *quiet_noise(void *a) { quiet(); return noise(a); }
static int end_of(const std::string &s) { return s == "s"; }
static void history(Line &l)
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nothing; sigaction(SIGUSR1, &sa, 0); signal(SIGPIPE, SIG_DFL); Arr ops;
	while (l.more()) {
		std::string c = l.s(); Obj o;
		switch (c[0]) {
		case 'l': {
			int id = l.i(); std::string h = l.b(); unsigned char q[4]; for (int i = 0; i < 4; ++i) q[i] = l.i(); std::string pt = l.s(); int nb = l.i(), backlog = l.i(), ft = l.i(), want = 0; in_addr_t a; memcpy(&a, q, 4); if (L.count(id)) continue;
			if (pt == "f") { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; if (bind(s, (struct sockaddr *) &x, sizeof x)) _exit(97); want = ntohs(at(s, false).sin_port); close(s); }
			else if (pt == "p") { int ok = 0; for (int i = 0; i < 1000 && !ok; ++i) { want = 10000 + rand_r(&ports) % 20000; int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(want); ok = !bind(s, (struct sockaddr *) &x, sizeof x); close(s); } if (!ok) _exit(97); }
			else if (pt[0] == '=') { int o = atoi(pt.c_str() + 1); if (L.count(o)) want = L[o].port; else if (gone.count(o)) want = gone[o]; else continue; } else want = atoi(pt.c_str());
			fst::Fixed x(h), y(std::string(id % 4 == 3, '0') + num(want)); int n0 = descriptors(), fd; { fst::Arm m(ft); fd = coda_listen(x.p, y.p, backlog, nb); } o.n("err", fst::fired).n("left", descriptors() - n0); o.t("f", "listen").n("id", id).raw("addr", quad(a)).n("want", want).n("nb", nb).n("r", fd < 0 ? -1 : 0);
			if (fd >= 0) { struct sockaddr_in b = at(fd, false); int v = 0; socklen_t n = sizeof v; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &n); Lst t = { fd, ntohs(b.sin_port), a, 0, backlog }; L[id] = t; gone.erase(id); if (want && pt != "f" && (pt == "p" || fixed.count(want))) { fixed.insert(want); } o.raw("bound", quad(b.sin_addr.s_addr)).n("port", t.port).n("accepting", v).n("nbgot", nonblock(fd)); }
			break; }
		case 'c': case 'C': case 'n': {
			int id = 0, lid = 0, nb = 0, src = 0, held = -1; std::string host = "127.0.0.1"; int dport; if (c[0] != 'n') { id = l.i(); lid = l.i(); } if (c[0] == 'C') src = l.i(); else nb = l.i(); int ft = 0; how = 0; if (c[0] == 'n') { ft = l.i(); how = l.i(); }
			if (c[0] != 'n') { if (C.count(id) || !L.count(lid) || L[lid].pending >= L[lid].room) continue; dport = L[lid].port; if (L[lid].addr) { struct in_addr q; q.s_addr = L[lid].addr; char b[32]; host = inet_ntop(AF_INET, &q, b, sizeof b); } }
			else { held = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(0x7f000001); if (bind(held, (struct sockaddr *) &x, sizeof x)) _exit(97); dport = ntohs(at(held, false).sin_port); }
			struct sockaddr_in to; memset(&to, 0, sizeof to); to.sin_family = AF_INET; to.sin_port = htons(dport); inet_pton(AF_INET, host.c_str(), &to.sin_addr); int fd;
			if (src) { struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(0x7f000000 + src); fd = socket(AF_INET, SOCK_STREAM, 0); if (bind(fd, (struct sockaddr *) &x, sizeof x) || connect(fd, (struct sockaddr *) &to, sizeof to)) _exit(97); o.n("err", 0).n("left", 1).t("how", "-"); }
			else { fst::Fixed x(host), y(num(dport)); int n0 = descriptors(); { fst::Arm m(ft); fd = coda_connect(x.p, y.p, nb); } o.n("err", fst::fired).n("left", descriptors() - n0).t("how", how == EINPROGRESS ? "later" : how ? "fails" : "-"); how = 0; }
			o.t("f", "connect").n("id", id).raw("addr", quad(to.sin_addr.s_addr)).n("dport", dport).n("nb", nb).n("r", fd < 0 ? -1 : 0).n("nbgot", fd < 0 ? 0 : nonblock(fd));
			if (fd >= 0 && held < 0) { struct pollfd p = { fd, POLLOUT, 0 }; poll(&p, 1, 5000); struct sockaddr_in a = at(fd, false), b = at(fd, true); o.raw("ip", quad(a.sin_addr.s_addr)).n("port", ntohs(a.sin_port)).raw("pa", quad(b.sin_addr.s_addr)).n("pp", ntohs(b.sin_port)); Con n; memset(&n, 0, sizeof n); n.fd[0] = fd; n.fd[1] = -1; n.lid = lid; n.open[0] = n.open[1] = true; n.port = ntohs(a.sin_port); C[id] = n; ++L[lid].pending; }
			else if (fd >= 0) close(fd);
			if (held >= 0) close(held);
			break; }
		case 'a': {
			int lid = l.i(), nb = l.i(), ft = l.i(); forged = false; std::string w = l.s(); if (w != "0") { unsigned char q[4]; q[0] = atoi(w.c_str()); for (int i = 1; i < 4; ++i) q[i] = l.i(); memcpy(&peer, q, 4); forged = true; } if (!L.count(lid)) continue; Lst &t = L[lid]; struct pollfd p = { t.fd, POLLIN, 0 }; if (t.pending) poll(&p, 1, 5000); else if (!nonblock(t.fd)) continue;
			struct in_addr ip; ip.s_addr = 0x01010101; int fd, id = 0, n0 = descriptors(); peer_fd = -1; { fst::Arm m(ft); fd = coda_accept(t.fd, &ip, nb); } o.raw("as", forged ? quad(peer) : "[]").n("err", fst::fired).n("took", peer_fd >= 0).n("left", descriptors() - n0); forged = false; if (fd < 0 && peer_fd >= 0) { --t.pending; for (std::map<int, Con>::iterator i = C.begin(); i != C.end(); ++i) if (i->second.lid == lid && i->second.fd[1] < 0 && i->second.open[1] && i->second.port == peer_port) { Con &n = i->second; n.open[1] = false; if (n.to[1]) n.torn = true; n.to[1] = 0; id = i->first; } nap(1000); }
			o.t("f", "accept").n("lid", lid).n("nb", nb).n("r", fd < 0 ? -1 : 0).raw("ip", quad(ip.s_addr)).n("nbgot", fd < 0 ? 0 : nonblock(fd));
			if (fd >= 0) { int pp = ntohs(at(fd, true).sin_port); for (std::map<int, Con>::iterator i = C.begin(); i != C.end(); ++i) if (i->second.lid == lid && i->second.fd[1] < 0 && i->second.port == pp) id = i->first; if (!id) { /* torn before it was accepted: the oldest */ o.n("id", 0); ops.raw(o.end()); emit(Obj().raw("ops", ops.end()).end()); _exit(0); } C[id].fd[1] = fd; --t.pending; }
			o.n("id", id); break; }
		case 's': case 'r': case 'w': case 'S': case 'b': case 't': case 'x': {
			int id = l.i(); std::string es = l.s(); int d = end_of(es); Con *n = C.count(id) ? &C[id] : 0; int fd = n && n->open[d] ? n->fd[d] : -1; o.n("id", id).t("d", es);
			if (c[0] == 's') {
				std::string b = l.b(); if (fd < 0) continue; Exact x(b); struct pollfd p = { fd, POLLOUT, 0 }; poll(&p, 1, 0); if (!nonblock(fd) && n->to[1 - d] + b.size() > 16000) continue;
				int r = coda_unix_send(fd, x.p, b.size()); o.t("f", "send").b("s", b).n("r", r < 0 ? -1 : r).n("out", !!(p.revents & POLLOUT)); if (r > 0 && n->open[1 - d]) n->to[1 - d] += r; if (!n->open[1 - d]) { n->lost[d] = true; n->torn = true; nap(2000); } }
			else if (c[0] == 'r') {
				size_t k = l.i(); if (fd < 0) continue; bool some = n->to[d] || !n->open[1 - d], timed = n->sec[d] || n->usec[d]; if (!some && !nonblock(fd) && (!timed || n->sec[d] > 5)) continue;
				if (some) { struct pollfd p = { fd, POLLIN, 0 }; poll(&p, 1, 5000); }
				Later g; g.main = pthread_self(); g.sigs = 0; g.shut = fd; g.delay = n->sec[d] * 1000 + n->usec[d] / 1000 + 9000; g.done = 0; pthread_t th; bool watch = !some && !nonblock(fd); if (watch) pthread_create(&th, 0, quiet_later, &g);
				Exact x(std::string(k, 'Z')); long t0 = ms(); int r = coda_unix_recv(fd, x.p, k); long t1 = ms(); if (watch) { g.done = 1; pthread_join(th, 0); }
				o.t("f", "recv").n("n", k).n("r", r < 0 ? -1 : r).b("s", r > 0 && r <= (int) k ? std::string(x.p, r) : "").n("ms", t1 - t0); if (r > 0) n->to[d] -= r > (int) n->to[d] ? n->to[d] : r; }
			else if (c[0] == 'w') {
				size_t k = l.i(); int sg = l.i(); std::string b = l.b(); if (fd < 0 || !n->open[1 - d] || n->fd[1 - d] < 0 || n->to[d] || nonblock(fd) || n->sec[d] || n->usec[d]) continue;
				Later g; g.main = pthread_self(); g.fd = n->fd[1 - d]; g.sigs = sg; g.shut = -1; g.data = b; pthread_t th; pthread_create(&th, 0, quiet_later, &g); Exact x(std::string(k, 'Z')); int r = coda_unix_recv(fd, x.p, k); pthread_join(th, 0);
				o.t("f", "wait").n("n", k).b("sent", b).n("r", r < 0 ? -1 : r).b("s", r > 0 && r <= (int) k ? std::string(x.p, r) : ""); n->to[d] = r > 0 ? b.size() - r : b.size(); }
			else if (c[0] == 'S') {
				Pump g; g.chunks = l.i(); g.len = l.i(); g.seed = l.i(); g.sigs = l.i(); g.bad = g.done = 0; if (fd < 0 || n->fd[1 - d] < 0 || !n->open[1 - d]) continue; g.fd = fd; g.blocking = !nonblock(fd); int in = n->fd[1 - d]; bool lim = n->sec[1 - d] || n->usec[1 - d]; size_t had = n->to[1 - d];
				int v = 4096; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); setsockopt(in, SOL_SOCKET, SO_RCVBUF, &v, sizeof v);
				pthread_t th, tn; pthread_create(&th, 0, pump, &g); Noise z; z.a = pthread_self(); z.b = th; z.stop = 0; if (g.sigs) pthread_create(&tn, 0, quiet_noise, &z);
				std::string got; unsigned s = g.seed * 3 + 1; int bad = 0; long idle = ms();
				for (;;) {
					if (g.done && got.size() >= had + g.sent.size()) break; struct pollfd p = { in, POLLIN, 0 }; if (poll(&p, 1, 5) <= 0) { if (ms() - idle > 10000) { ++bad; break; } continue; }
					size_t k = rand_r(&s) % 3000 + 1; Exact x(std::string(k, 'Z')); int r = coda_unix_recv(in, x.p, k); if (r > 0 && r <= (int) k) { got.append(x.p, r); idle = ms(); } else if (r < 0 && (nonblock(in) || lim) && (errno == EAGAIN || (lim && errno == EINTR))) continue; else { ++bad; break; } }
				z.stop = 1; if (g.sigs) pthread_join(tn, 0); if (bad) shutdown(fd, SHUT_RDWR); pthread_join(th, 0);
				o.t("f", "stream").b("sent", g.sent).b("got", got).n("bad", bad + g.bad); n->to[1 - d] = 0; }
			else if (c[0] == 'b') { int v = l.i(); if (fd < 0) continue; int r = coda_set_nonblk(fd, v); o.t("f", "setnb").n("v", v).n("r", r).n("nbgot", nonblock(fd)); }
			else if (c[0] == 't') { long s = l.i(), u = l.i(); if (fd < 0) continue; int r = coda_set_socket_timeout(fd, s * 1000000L + u); struct timeval tv = { -1, -1 }; socklen_t k = sizeof tv; getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, &k); n->sec[d] = s; n->usec[d] = u; o.t("f", "timeout").n("sec", s).n("usec", u).n("r", r).n("gs", tv.tv_sec).n("gu", tv.tv_usec); }
			else { if (fd < 0) continue; close(fd); n->open[d] = false; n->fd[d] = -1; if (n->to[d]) n->torn = true; n->to[d] = 0; if (n->fd[1 - d] < 0 && d == 0) { } o.t("f", "close"); nap(1000); }
			break; }
		case 'X': { int lid = l.i(); if (!L.count(lid) || L[lid].pending) continue; close(L[lid].fd); if (fixed.count(L[lid].port)) gone[lid] = L[lid].port; L.erase(lid); o.t("f", "shut").n("id", lid); break; }
		}
		ops.raw(o.end());
	}
	emit(Obj().raw("ops", ops.end()).end());
}
static void text(Line &l)
{
	std::string b = l.b(); size_t n = b.size(), len = (n + 4095) / 4096 * 4096; if (!len) len = 4096; char *m = (char *) mmap(0, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0); char *p = m + len - n; memcpy(p, b.data(), n); mprotect(m + len, 4096, PROT_NONE);
	in_addr_t a = coda_inet_addr(p, n); emit(Obj().t("f", "inet").b("s", b).raw("r", quad(a)).end()); munmap(m, len + 4096);
}
int main(int, char **a)
{
	init();
	each_line(a[1], [](Line &l) { if (l.s() == "i") { text(l); return; }
		pid_t p = fork(); if (!p) { alarm(200); ports = getpid() * 2654435761u; history(l); _exit(0); } int st; waitpid(p, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "child: status %x\n", st); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98); } });
	return 0;
}
