/* C39: one use per line: <kind> <cycles> <seed> <ops>.  The same operations are repeated for
 * every cycle in a process of its own; what the process holds is noted around every step. */
#include "cosched.h"
#include "ipc_emu.h"
#include "fstree.h"
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/stat.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <set>
#include <list>
#include <coda/coda.h>
#include <coda/cache.hpp>
#include <coda/synque.hpp>
#include <coda/string.hpp>
#include <coda/url.hpp>
#include <coda/url_parser.hpp>
#include <coda/txml.hpp>
#include <coda/vietnam.hpp>
#include <coda/shm_queue.hpp>
#include <coda/shm_hash_map.hpp>
#include <coda/socket.h>
#include <coda/logger.h>
#include <coda/random.h>
#include <coda/daemon.h>
extern "C" {
#include <coda/stringstorage.h>
#include <coda/base58.h>
#include <coda/base64.h>
}
using namespace drv;
struct Use { int mem, fd, map, shm; };
static char text[1 << 22]; static size_t used; static unsigned seed; static std::string dir; static bool limited;
static void put(const char *f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(text + used, sizeof text - used, f, ap); va_end(ap); used += n; if (used > sizeof text - 4096) { fprintf(stderr, "trace too long\n"); _exit(97); } }
static int rnd(int n) { seed = seed * 1103515245u + 12345u; return (seed >> 8) % n; }
static Use now_uses()
{
	static char m[1 << 20]; Use u; u.mem = (int) __sanitizer_get_current_allocated_bytes(); u.fd = 0; u.map = 0;
	for (int i = 0; i < 800; ++i) u.fd += fcntl(i, F_GETFD) >= 0;
	u.fd -= (int) ipc::segs.size(); u.shm = (int) ipc::maps.size();
	int keep = limited ? 1 : 0; struct rlimit lim; if (keep) { getrlimit(RLIMIT_NOFILE, &lim); struct rlimit w = lim; w.rlim_cur = lim.rlim_max; setrlimit(RLIMIT_NOFILE, &w); }
	int fd = open("/proc/self/maps", O_RDONLY); size_t n = 0; ssize_t r; while (fd >= 0 && (r = read(fd, m + n, sizeof m - 1 - n)) > 0) n += r; m[n] = 0; if (fd < 0) { perror("maps"); _exit(97); } close(fd);
	if (keep) setrlimit(RLIMIT_NOFILE, &lim);
	for (char *p = m; (p = strstr(p, dir.c_str())); ++p) ++u.map;
	return u;
}
static int next_id;
/* a step: what it is, what is held before and after it */
struct Step { Use a; Step() { a = now_uses(); }
	void done(const char *f, const char *what, int id, int ok) { Use u = now_uses(); put("%s{\"f\":\"%s\",\"what\":\"%s\",\"id\":%d,\"ok\":%d,\"a\":[%d,%d,%d,%d],\"u\":[%d,%d,%d,%d]}", text[used - 1] == '[' ? "" : ",", f, what, id, ok, a.mem, a.fd, a.map, a.shm, u.mem, u.fd, u.map, u.shm); } };
/* with few descriptors left */
struct Few { struct rlimit was; bool on; Few() : on(rnd(4) == 0) { if (!on) return; int k = rnd(3), n = 3; for (;; ++n) if (fcntl(n, F_GETFD) < 0 && k-- == 0) break; getrlimit(RLIMIT_NOFILE, &was); struct rlimit w = was; w.rlim_cur = n; setrlimit(RLIMIT_NOFILE, &w); limited = true; } ~Few() { off(); } void off() { if (on) setrlimit(RLIMIT_NOFILE, &was); on = limited = false; } };
static std::string word(int n) { std::string s; for (int i = rnd(n); i >= 0; --i) s += (char) ("abcdefgh/.%&=?;:-_~ <>\"'0123"[rnd(29)]); return s; }
static std::string nasty(int n) { std::string s; for (int i = rnd(n); i >= 0; --i) s += (char) rnd(256); return s; }

typedef coda_cache<std::string, std::string> Cache;
static void cache_ops(Cache *c, int n) { for (int i = 0; i < n; ++i) { std::string k = word(4), v = nasty(200); switch (rnd(5)) { case 0: c->get(k); break; case 1: c->erase(k); break; case 2: { std::string o; c->get(k, o); break; } default: c->set(k, v, rnd(2)); } } }
static void cache(int n)
{
	for (int o = 1 + rnd(3); o > 0; --o) { int id = ++next_id; Step s; Cache *c = new Cache(100 + rnd(3000), rnd(2)); s.done("open", "object", id, 1); { Step t; cache_ops(c, n); t.done("use", "object", id, 1); } Step z; delete c; z.done("close", "object", id, 1); }
}
static Cache *lasting; static coda::synque<std::string> *lastq;
static void cacheover(int n)            /* the same cache, emptied again */
{
	if (!lasting) { Step s; lasting = new Cache(5000, 0); s.done("start", "object", 0, 1); }
	int id = ++next_id; Step s; std::vector<std::string> ks; for (int i = 0; i < n; ++i) ks.push_back(word(3));
	for (int i = 0; i < n; ++i) switch (rnd(4)) { case 0: lasting->get(ks[rnd(n)]); break; case 1: lasting->erase(ks[rnd(n)]); break; default: lasting->set(ks[rnd(n)], nasty(100), true); }
	for (int i = 0; i < n; ++i) lasting->erase(ks[i]);
	s.done("use", "object", id, 1);
}
static void synque(int n)
{
	typedef coda::synque<std::string> Q; int id = ++next_id; Step s; Q *q = new Q; s.done("open", "object", id, 1);
	{ Step t; for (int i = 0; i < n; ++i) { std::string e; std::deque<std::string> d; switch (rnd(5)) { case 0: q->get(e, 0); break; case 1: q->get(d, rnd(5) - 1, 0); break; case 2: q->size(); q->signal(); break; default: q->add(nasty(100)); } } t.done("use", "object", id, 1); }
	Step z; delete q; z.done("close", "object", id, 1);
}
static long seen_keys; static void count(void *, const char *, void *) { ++seen_keys; }
static void storage(int n)
{
	int id = ++next_id; string_storage *ss = (string_storage *) malloc(sizeof *ss); Step s; string_storage_init(ss, rnd(40)); s.done("open", "object", id, 1);
	{ Step t; for (int i = 0; i < n * 4; ++i) { std::string k; for (int j = rnd(30); j > 0; --j) k += (char) ("ab\xff\x80"[rnd(4)]); string_storage_add(ss, k.c_str()); } string_storage_enumerate(ss, count, 0); t.done("use", "object", id, 1); }
	{ Step z; string_storage_free(ss); z.done("close", "object", id, 1); } free(ss);
}
static void url(int n)
{
	static const char *good[] = { "http://a.ru/", "http://www.example.com/a/b/../c?x=1#f", "HTTP://b.org:80/x/./y", "http://c.net/?q", "https://d.ru:8080/aa/bb/", "ftp://e.ru/x" };
	static const char *rel[] = { "x/y", "../z", "/abs?q", "?q", "#f", "//other.ru/p", "./a/../b", "javascript:x", "", "http://new.ru/" };
	int id = ++next_id; std::vector<coda_url> *v; Step s; v = new std::vector<coda_url>; s.done("open", "object", id, 1);
	{ Step t; for (int i = 0; i < n; ++i) { coda_url u; std::string x = rnd(2) ? std::string(good[rnd(6)]) : rnd(2) ? good[rnd(6)] + word(60) : word(60);
		u.create_absolute(x.data(), x.size(), rnd(4)); if (rnd(3) == 0) u.create_absolute(x.data(), rnd(x.size() + 1), rnd(4));
		if (rnd(2)) { std::string y = rnd(2) ? rel[rnd(10)] : word(40); coda_url w; w.create_relative(y.data(), y.size(), rnd(4), u); if (rnd(3) == 0) w.create_relative(y.data(), y.size(), rnd(4), w); if (rnd(2)) u = w; v->push_back(w); }
		if (rnd(4) == 0) u = u; v->push_back(u); if (rnd(5) == 0) v->erase(v->begin()); if (rnd(6) == 0) (*v)[0] = coda_url(); } t.done("use", "object", id, 1); }
	Step z; delete v; z.done("close", "object", id, 1);
}
static void codec(int n)
{
	for (int i = 0; i < n; ++i) {
		std::string in = nasty(80), t; char *o = 0, *d = 0; size_t k = 0; int id = ++next_id, w = rnd(6), bad = rnd(2);
		if (w == 0) { Step s; coda_base58_encode_alloc(in.data(), in.size(), &o); s.done("open", "text", id, o != 0); }
		else if (w == 1) { Step s; coda_base64_encode_alloc(in.data(), in.size(), &o); s.done("open", "text", id, o != 0); }
		else if (w < 4) { coda_base58_encode_alloc(in.data(), in.size(), &d); t = d; free(d); if (bad) t[rnd(t.size())] = '0'; Step s; ssize_t r = coda_base58_decode_alloc(t.data(), t.size(), &o); s.done("open", "text", id, r >= 0); if (r < 0) continue; }
		else { coda_base64_encode_alloc(in.data(), in.size(), &d); t = d; free(d); if (bad) t[rnd(t.size())] = '!'; Step s; bool r = coda_base64_decode_alloc(t.data(), t.size(), &o, rnd(2) ? &k : 0); s.done("open", "text", id, r); if (!r) continue; }
		Step z; free(o); z.done("close", "text", id, 1);
	}
}
static void texts(int n)
{
	for (int i = 0; i < n; ++i) {
		int id = ++next_id; std::string x = word(rnd(4) ? 60 : 6000); Step s;
		switch (rnd(12)) {
		case 0: { std::string r = coda_strprintf("%s|%d|%s", x.c_str(), i, x.c_str()); break; }
		case 1: { std::string r = x; coda_strappend(r, "%s%d", x.c_str(), i); coda_strnappend(r, rnd(100), "%s", x.c_str()); coda_strnprintf(r, rnd(10), rnd(50), "%s", x.c_str()); break; }
		case 2: { std::vector<std::string> v = coda_split_string(x.c_str(), "/.&", rnd(2)); v = coda_split_string(x.data(), x.size(), "ab", rnd(2)); break; }
		case 3: { std::set<std::string> v; coda_get_stringset(x.c_str(), v); break; }
		case 4: { std::set<uint64_t> v; coda_get_uint64set("1, 2, 30, 4", v); break; }
		case 5: { std::string r = coda_urlenc(x), q = coda_urldec(r), p = coda_urlenc_noplus(x); r = coda_urldec(x); break; }
		case 6: { coda_params_t p; coda_get_params(p, x.c_str()); coda_get_params_buf(p, x.data(), x.size()); break; }
		case 7: { coda_header_t p; coda_get_header(p, x.c_str()); coda_get_header_buf(p, x.data(), x.size()); break; }
		case 8: { try { throw coda_error("%s %d", x.c_str(), i); } catch (const std::exception &e) { std::string w = e.what(); } break; }
		case 9: { try { throw coda_errno(i, "%s", x.c_str()); } catch (const coda_error &e) { coda_error c(e); } break; }
		case 10: { std::string r = coda_random_string(rnd(50), "abc", 3); break; }
		case 11: { std::string o = x; coda_remove_tones_utf8(x.data(), x.size()); break; }
		}
		s.done("step", "text", id, 1);
	}
}
struct Conf : coda::txml_determination_object { struct In : coda::txml_determination_object { std::string s; int n; In() : n(0) {} void determine(coda::txml_parser *p) { txml_member(p, s); txml_member(p, n); } }; std::string name; int num; std::vector<In> item; std::list<std::string> l; Conf() : num(0) {}
	void determine(coda::txml_parser *p) { if (p->determineMember("config", *(Body *) this)) return; } struct Body { Conf *c() { return (Conf *) this; } void determine(coda::txml_parser *p) { Conf *t = c(); p->determineMember("name", t->name); p->determineMember("num", t->num); p->determineMember("item", t->item); p->determineMember("l", t->l); } }; };
static std::string doc(int n)
{
	std::string s = "<config num=\"3\">"; for (int i = 0; i < n; ++i) switch (rnd(4)) { case 0: s += "<name>x" + std::string(rnd(300), 'y') + "</name>"; break; case 1: s += "<item s=\"a\" n=\"5\"><s>t</s></item>"; break; case 2: s += "<l>abc</l>"; break; default: s += "<other a=\"b\"><deep/></other>"; }
	s += "</config>"; switch (rnd(4)) { case 0: s[rnd(s.size())] = '<'; break; case 1: s.resize(rnd(s.size())); break; } return s;
}
static void file(const char *p, const std::string &s) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size()) { perror(p); _exit(97); } close(fd); }
static void xml(int n)
{
	for (int i = 0; i < n; ++i) {
		std::string x = doc(rnd(5) ? rnd(10) : 200); int id = ++next_id, how = rnd(5), ok = 1; if (how > 1) file("conf.xml", x); mkdir("dir", 0755);
		Few few; Step s; { Conf c; try { switch (how) { case 0: c.load_from_string(x.c_str()); break; case 1: c.load_from_string(x.data(), x.size()); break; default: c.load_from_file(rnd(5) ? "conf.xml" : rnd(2) ? "none.xml" : "dir"); } } catch (const std::exception &) { ok = 0; } }
		s.done("step", "xml", id, ok);
	}
}
static void maps(int n)
{
	std::vector<std::pair<int, coda_strt> > open_; file("m1", std::string(5000, 'x')); file("m2", "y"); file("m0", ""); mkdir("dir", 0755); static const char *f[] = { "m1", "m2", "m0", "none", "dir", "m1" };
	for (int i = 0; i < n; ++i) {
		if (open_.size() && rnd(2)) { int k = rnd(open_.size()); std::pair<int, coda_strt> p = open_[k]; open_.erase(open_.begin() + k); Step z; int r = coda_umap(&p.second); z.done("close", "map", p.first, r == 0); continue; }
		coda_strt a; a.size = 0; a.data = 0; const char *p = f[rnd(6)]; int how = rnd(4), r, id = ++next_id; Few few; Step s;
		if (how < 2) r = coda_mmap_file(&a, p); else { a.size = rnd(2) ? 0 : 1 + rnd(9000); r = coda_mmap(&a, rnd(2) ? PROT_READ : PROT_READ | PROT_WRITE, rnd(5) ? rnd(2) ? MAP_SHARED : MAP_PRIVATE : 0, p); }
		s.done("open", "map", id, r == 0); few.off(); if (r == 0) open_.push_back(std::make_pair(id, a));
	}
	for (size_t i = 0; i < open_.size(); ++i) { Step z; int r = coda_umap(&open_[i].second); z.done("close", "map", open_[i].first, r == 0); }
}
static int plain_open(const char *p, int fl) { int f = open(p, fl, 0644); return f; }
static void files(int n)
{
	mkdir("dir", 0755); file("busy", "1\n"); int base = -1; std::map<int, int> held;   /* number -> id */
	for (int i = 0; i < n; ++i) switch (rnd(5)) {
	case 0: { std::string p = rnd(3) ? "logs/" + std::string(1, 'a' + rnd(3)) + "/l" : rnd(2) ? "busy/x" : "dir"; int id = ++next_id; Few few; Step s; int r = log_create(p.c_str(), rnd(9)); s.done("step", "log", id, r >= 0); break; }
	case 1: { std::string p = rnd(4) ? "pid" + std::string(1, 'a' + rnd(3)) : rnd(2) ? "busy" : "dir"; int id = ++next_id; Few few; Step s; int r = coda_mkpidf(p.c_str()); s.done("step", "pidfile", id, r == 0); break; }
	case 2: { std::string p = "d/e/" + word(10) + "/f"; int id = ++next_id; Few few; Step s; int r = coda_mkpath(&p[0]); s.done("step", "path", id, r == 0); break; }
	case 3: case 4: {   /* open at a number of one's own: a new one, one that is in use, one that cannot be */
		int nr = rnd(8) == 0 ? 100000 : 40 + rnd(3), id = ++next_id; const char *p = rnd(4) ? "busy" : "none"; Few few; Step s; int r = coda_fdopen(nr, p, rnd(2) ? O_RDONLY : O_RDWR); bool had = held.count(nr); few.off(); s.done(had ? "step" : "open", "file", id, r >= 0); if (r >= 0 && !had) held[nr] = id;
		if (held.size() && rnd(2)) { int k = held.begin()->first, h = held.begin()->second; held.erase(k); Step z; close(k); z.done("close", "file", h, 1); }
		break; }
	}
	(void) base; for (std::map<int, int>::iterator i = held.begin(); i != held.end(); ++i) { Step z; close(i->first); z.done("close", "file", i->second, 1); }
}
static void fdmoves(int n)
{
	file("busy", "1\n"); std::map<int, int> held;
	for (int i = 0; i < n; ++i) {
		int fd = plain_open("busy", O_RDONLY), w = rnd(6), nr = w == 0 ? -1 - rnd(5) : w == 1 ? fd : w == 2 ? 100000 : 40 + rnd(4), id = ++next_id; bool had = held.count(nr);
		Step s; int r = coda_fdmove(fd, nr); s.done(had && r >= 0 ? "lose" : "step", "file", id, r >= 0);    /* the moved one replaces another */
		if (r == nr && nr != fd) held[nr] = id; else close(fd);
	}
	for (std::map<int, int>::iterator i = held.begin(); i != held.end(); ++i) close(i->first);
}
static int port_of(int fd) { struct sockaddr_in a; socklen_t n = sizeof a; getsockname(fd, (struct sockaddr *) &a, &n); return ntohs(a.sin_port); }
static void sockets(int n)
{
	std::vector<std::pair<int, int> > L, C; int pend[3000]; memset(pend, 0, sizeof pend); int taken = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(0x7f000001); if (bind(taken, (struct sockaddr *) &x, sizeof x)) _exit(97); int tp = port_of(taken);
	for (int i = 0; i < n; ++i) {
		int w = rnd(8), id = ++next_id;
		if (w == 0 || L.empty()) { bool bad = rnd(3) == 0; std::string p = num(bad && rnd(2) ? tp : 0); const char *h = bad && p == "0" ? "10.254.253.252" : "127.0.0.1"; int nb = rnd(2); Few few; Step s; int r = coda_listen(h, p.c_str(), 4, nb); s.done("open", "socket", id, r >= 0); few.off(); if (r >= 0) { L.push_back(std::make_pair(id, r)); } }
		else if (w < 4) { int k = rnd(L.size()), dead = rnd(4) == 0, nb = rnd(2); if (!dead && pend[L[k].second] > 2) continue; std::string p = num(dead ? tp : port_of(L[k].second)); Few few; Step s; int r = coda_connect("127.0.0.1", p.c_str(), nb); s.done("open", "socket", id, r >= 0); few.off(); if (r >= 0) { C.push_back(std::make_pair(id, r)); if (!dead) ++pend[L[k].second]; } }
		else if (w < 6) { int k = rnd(L.size()), l = L[k].second; if (!pend[l]) coda_set_nonblk(l, 1); struct in_addr ip; int nb = rnd(2), fd = rnd(5) ? l : rnd(2) ? -1 : taken; if (fd == taken) coda_set_nonblk(taken, 1); Few few; Step s; int r = coda_accept(fd, &ip, nb); s.done("open", "socket", id, r >= 0); few.off(); if (r >= 0) { C.push_back(std::make_pair(id, r)); --pend[l]; } }
		else if (C.size()) { int k = rnd(C.size()); Step z; close(C[k].second); z.done("close", "socket", C[k].first, 1); C.erase(C.begin() + k); }
	}
	for (size_t i = 0; i < C.size(); ++i) { Step z; close(C[i].second); z.done("close", "socket", C[i].first, 1); }
	for (size_t i = 0; i < L.size(); ++i) { Step z; close(L[i].second); z.done("close", "socket", L[i].first, 1); }
	close(taken);
}
static void misc(int n)
{
	for (int i = 0; i < n; ++i) { int id = ++next_id, ok = 1; Few few; Step s;
		switch (rnd(4)) { case 0: ok = coda_random_init() == 0; break; case 1: { char *v[] = { (char *) "p", (char *) "-c", (char *) "f", (char *) "-d", 0 }; coda_getopt_t o; memset(&o, 0, sizeof o); optind = 0; ok = coda_getopt_parse(4, v, &o) >= 0; break; } case 2: log_thread_name_set(rnd(2) ? "t" : 0); log_thread_name_get(); log_levels("info"); break; case 3: coda_signal_init(); coda_signal_init_norestart(); break; }
		s.done("step", "call", id, ok); }
}
struct Item : shm_queue::serializable { int n; Item(int n_ = 2) : n(n_) {} bool serialize(void *p) const { memset(p, n, n); return true; } bool deserialize(const void *p) { n = *(const unsigned char *) p; return n; } size_t size() const { return n; } };
static void shmq(int n)
{
	typedef shm_queue::queue<Item> Q; file("key", ""); std::vector<std::pair<int, Q *> > v; for (int i = 0; i < 3; ++i) { int id = ++next_id; Step s; Q *q = new Q; s.done("open", "object", id, 1); v.push_back(std::make_pair(id, q)); } int on[3] = { 0, 0, 0 };
	for (int i = 0; i < n; ++i) { int k = rnd(3), id = ++next_id; Q *q = v[k].second;
		switch (rnd(8)) {
		case 0: case 1: case 2: { const char *f = rnd(6) ? "key" : "none"; int bs = rnd(4) ? 64 : 128, b = rnd(6) ? 4 : 3; ipc::shmat_fails = rnd(6) == 0; bool ok = true; Step s; try { q->connect(f, bs, b); } catch (const std::exception &) { ok = false; } s.done(on[k] ? "step" : "open", "attachment", id, ok); ipc::shmat_fails = false; if (ok) on[k] = id; break; }
		case 3: { if (!on[k]) { Step s; q->disconnect(); s.done("step", "attachment", id, 1); break; } Step z; q->disconnect(); z.done("close", "attachment", on[k], 1); on[k] = 0; break; }
		case 4: { if (on[k]) { Step z; delete q; z.done("close2", "attachment", on[k], v[k].first); } else { Step z; delete q; z.done("close", "object", v[k].first, 1); } on[k] = 0; Step s; v[k].second = new Q; v[k].first = id; s.done("open", "object", id, 1); break; }
		default: { if (!on[k]) break; Step s; for (int j = rnd(8); j >= 0; --j) switch (rnd(4)) { case 0: q->flush(); break; case 1: q->unflush(IPC_NOWAIT, 0); break; case 2: { Item e; q->get(e); break; } default: q->put(Item(2 + rnd(20))); } s.done("use", "attachment", on[k], 1); }
		} }
	for (int k = 0; k < 3; ++k) { Step z; delete v[k].second; if (on[k]) z.done("close2", "attachment", on[k], v[k].first); else z.done("close", "object", v[k].first, 1); }
}
struct MapI { virtual ~MapI() {} virtual void connect(const char *) = 0; virtual void disconnect() = 0; virtual void work(int) = 0; };
template <class T, int N, int H> struct MapT : MapI { shm::hash_map<T, N, H> m; void connect(const char *f) { m.connect(f); } void disconnect() { m.disconnect(); } void work(int n) { while (n-- > 0) { T t = T(); switch (rnd(6)) { case 0: m.read(rnd(9), t); break; case 1: m.erase(rnd(9)); break; case 2: m.size(); break; case 3: m.clear(); break; default: m.insert(rnd(9), t); } } } };
static MapI *a_map(int g) { switch (g) { case 0: return new MapT<long, 4, 3>; case 1: return new MapT<long, 5, 3>; default: return new MapT<long, 300, 3>; } }
static void shmap(int n)
{
	file("key", ""); std::vector<std::pair<int, MapI *> > v; for (int i = 0; i < 3; ++i) { int id = ++next_id, g = i == 2 ? 1 + rnd(2) : 0; Step s; MapI *q = a_map(g); s.done("open", "object", id, 1); v.push_back(std::make_pair(id, q)); } int on[3] = { 0, 0, 0 };
	for (int i = 0; i < n; ++i) { int k = rnd(3), id = ++next_id; MapI *q = v[k].second;
		switch (rnd(8)) {
		case 0: case 1: case 2: { if (on[k]) break; const char *f = rnd(6) ? "key" : "none"; ipc::shmat_fails = rnd(6) == 0; bool ok = true; Step s; try { q->connect(f); } catch (const std::exception &) { ok = false; } s.done("open", "attachment", id, ok); ipc::shmat_fails = false; if (ok) on[k] = id; break; }
		case 3: { if (!on[k]) { Step s; q->disconnect(); s.done("step", "attachment", id, 1); break; } Step z; q->disconnect(); z.done("close", "attachment", on[k], 1); on[k] = 0; break; }
		case 4: { int g = rnd(4) ? 0 : 1 + rnd(2); if (on[k]) { Step z; delete q; z.done("close2", "attachment", on[k], v[k].first); } else { Step z; delete q; z.done("close", "object", v[k].first, 1); } on[k] = 0; Step s; v[k].second = a_map(g); v[k].first = id; s.done("open", "object", id, 1); break; }
		default: { if (!on[k]) break; Step s; q->work(rnd(8)); s.done("use", "attachment", on[k], 1); }
		} }
	for (int k = 0; k < 3; ++k) { Step z; delete v[k].second; if (on[k]) z.done("close2", "attachment", on[k], v[k].first); else z.done("close", "object", v[k].first, 1); }
}
static const struct { const char *name; void (*f)(int); int exact; } kinds[] = { { "cache", cache, 1 }, { "cacheover", cacheover, 1 }, { "synque", synque, 1 }, { "storage", storage, 1 }, { "url", url, 1 }, { "codec", codec, 1 }, { "texts", texts, 1 }, { "xml", xml, 1 }, { "maps", maps, 1 }, { "files", files, 1 }, { "fdmoves", fdmoves, 1 }, { "sockets", sockets, 1 }, { "misc", misc, 1 }, { "shmq", shmq, 0 }, { "shmap", shmap, 0 } };
static void clean() { DIR *d = opendir(dir.c_str()); if (!d) _exit(97); while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') { std::string p = dir + "/" + e->d_name; struct stat st; if (!lstat(p.c_str(), &st)) { if (S_ISDIR(st.st_mode)) fst::wipe(p); else unlink(p.c_str()); } } closedir(d); }
static void one(Line &l)
{
	std::string kind = l.s(); int cycles = l.i(); unsigned s0 = l.i(); int ops = l.i(), k = -1; for (size_t i = 0; i < sizeof kinds / sizeof *kinds; ++i) if (kind == kinds[i].name) k = i; if (k < 0) { fprintf(stderr, "kind\n"); _exit(97); }
	used = 0; put("{\"kind\":\"%s\",\"exact\":%d,\"ops\":[", kind.c_str(), kinds[k].exact);
	now_uses(); { Step b; b.done("begin", "nothing", 0, 1); }
	for (int c = 0; c < cycles; ++c) { seed = s0; next_id = c * 10000; kinds[k].f(ops); ipc::reset(); clean(); Step r; r.done("rest", "nothing", 0, c + 1); }
	put("]}"); emit(std::string(text, used));
}
int main(int, char **v)
{
	init(); char c[4096]; if (!getcwd(c, sizeof c)) return 97; std::string top = std::string(c) + "/uses"; fst::wipe(top); int n = 0; signal(SIGPIPE, SIG_IGN);
	each_line(v[1], [&](Line &l) {
		dir = top + "/" + num(++n); mkdir(top.c_str(), 0755); if (mkdir(dir.c_str(), 0755)) { perror("scratch"); _exit(97); }
		pid_t p = fork(); if (p < 0) _exit(97);
		if (!p) { if (chdir(dir.c_str())) _exit(97); alarm(100); one(l); _exit(0); }
		int st; waitpid(p, &st, 0); fst::wipe(dir); if (st) { if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); _exit(98); }
	});
	fst::wipe(top); return 0;
}
