/* C09-C12: one scenario per line:
 * <max_exec> <pre> <max_rand> <seed> <die> <intr> <early> <objects> <preconnected> <dimensions of each object> <procs> then per process <ops> and
 * c ob key | d ob | x ob | i ob k v | r ob k | e ob k | I ob n (k v)* | E ob n k* | z ob | s ob | t ob | l/L ob | w/W ob | j ob k v | q ob k | h ob k | T ob | C ob | k ob | A
 * With REAL the kernel's IPC is used and there is one process. */
#include "cosched.h"
#ifndef REAL
#include "ipc_emu.h"
#endif
#include <coda/shm_hash_map.hpp>
using namespace drv;
/* a value whose parts are copied one by one; parts that do not belong together show */
struct V { int a, b, c; V() : a(0), b(0), c(0) {} V(int v) : a(v), b(v + 1), c(v * 3) {} V(const V &o) { *this = o; } V &operator=(const V &o) { a = o.a; b = o.b; c = o.c; return *this; } int v() const { return b == a + 1 && c == a * 3 ? a : -7; } };
struct V2 : V { int d; V2() : d(0) {} V2(int v) : V(v), d(v) {} V2(const V2 &o) : V(o) { d = o.d; } V2 &operator=(const V2 &o) { V::operator=(o); d = o.d; return *this; } int v() const { return V::v() == d ? d : -7; } };
typedef unsigned long long K;
struct Any {
	virtual ~Any() {} virtual void connect(const char *) = 0; virtual void disconnect() = 0; virtual bool is_connected() = 0; virtual size_t size() = 0; virtual size_t capacity() = 0;
	virtual bool read(K, int &, bool u) = 0; virtual bool insert(K, int, bool u) = 0; virtual bool erase(K, bool u) = 0; virtual bool insert(const std::vector<std::pair<K, int> > &) = 0; virtual bool erase(const std::vector<K> &) = 0;
	virtual void clear() = 0; virtual void lock(char) = 0; virtual std::string walk() = 0; virtual std::string dims() = 0;
};
template <class T, int N, int H> struct Impl : Any {
	typedef shm::hash_map<T, N, H> M; M m;
	void connect(const char *f) { m.connect(f); } void disconnect() { m.disconnect(); } bool is_connected() { return m.is_connected(); } size_t size() { return m.size(); } size_t capacity() { return m.capacity(); }
	bool read(K k, int &o, bool u) { T t(777); bool r = u ? m.unprotected_read(k, t) : m.read(k, t); o = t.v(); return r; }
	bool insert(K k, int v, bool u) { T t(v); return u ? m.unprotected_insert(k, t) : m.insert(k, t); } bool erase(K k, bool u) { return u ? m.unprotected_erase(k) : m.erase(k); }
	bool insert(const std::vector<std::pair<K, int> > &l) { typename M::pair *p = new typename M::pair[l.size() + 1]; for (size_t i = 0; i < l.size(); ++i) { p[i].key = l[i].first; p[i].value = T(l[i].second); } bool r; try { r = m.insert(p, l.size()); } catch (...) { delete [] p; throw; } delete [] p; return r; }
	bool erase(const std::vector<K> &l) { uint64_t *p = new uint64_t[l.size() + 1]; for (size_t i = 0; i < l.size(); ++i) p[i] = l[i]; bool r; try { r = m.erase(p, l.size()); } catch (...) { delete [] p; throw; } delete [] p; return r; }
	void clear() { m.clear(); }
	void lock(char c) { switch (c) { case 'l': m.lock_read_rw(); break; case 'L': m.unlock_read_rw(); break; case 'w': m.lock_write_rw(); break; case 'W': m.unlock_write_rw(); break; } }
	std::string walk() { Arr a; int n = 0; for (typename M::const_iterator i = m.begin(); i != m.end() && n < N + 3; ++i, ++n) { T t = i.value(); a.raw("[\"" + dec(i.key()) + "\"," + num(t.v()) + "]"); } return a.end(); }
	static std::string dec(K k) { char b[32]; snprintf(b, sizeof b, "%llu", k); return b; }
	std::string dims() { return "[" + num(N) + "," + num(H) + "," + num(sizeof(T)) + "]"; }
};
static Any *make(int g)
{
	switch (g) { case 0: return new Impl<V, 1, 1>(); case 1: return new Impl<V, 2, 1>(); case 2: return new Impl<V, 3, 2>(); case 3: return new Impl<V, 4, 8>(); case 4: return new Impl<V, 2, 5>(); case 5: return new Impl<V, 8, 3>();
	case 6: return new Impl<V2, 3, 2>(); case 7: return new Impl<V, 3, 1>(); case 8: return new Impl<V, 300, 7>(); case 9: return new Impl<V, 2, 2>(); case 10: return new Impl<V, 3, 300>(); default: fprintf(stderr, "dims\n"); _exit(97); }
}
struct Op { char c; int ob, key; std::vector<std::string> k; std::vector<int> v; };
static std::vector<Any *> obj; static std::vector<bool> on; static std::vector<int> owner, geo; static std::string keys[2];
struct In { In() { if (sched::cur) sched::cur->in_op = true; } ~In() { if (sched::cur) sched::cur->in_op = false; } };
static void point() { In i; sched::point(); }
static int sig(int p)
{
#ifdef REAL
	return 0;
#else
	return ipc::interrupted[p];
#endif
}
static K u(const std::string &s) { return strtoull(s.c_str(), 0, 10); }
static void end(int p, const std::string &r, bool thr, int s0) { hist::ret(p, (thr ? "\"thr\":1" : r) + ",\"in\":" + num(sig(p) != s0)); }
static bool step(int p, const Op &o, bool first)
{
	Any *m = o.ob >= 0 ? obj[o.ob] : 0; std::string a = "\"ob\":" + num(o.ob + 1); int s0 = sig(p); bool thr = false;
	if (!strchr("cdxkCA", o.c) && !on[o.ob]) return true;   /* only defined for a connected object */
	if (!first) point();
#define RUN(stmt) try { In in; stmt; } catch (const std::exception &) { thr = true; }
	switch (o.c) {
	case 'c': { hist::inv(p, "connect", a + ",\"geo\":" + m->dims() + ",\"key\":" + num(o.key)); RUN(m->connect(keys[o.key].c_str())); on[o.ob] = thr ? on[o.ob] && m->is_connected() : true; hist::ret(p, "\"r\":" + num(!thr) + ",\"in\":" + num(sig(p) != s0)); break; }
	case 'd': { hist::inv(p, "disconnect", a); RUN(m->disconnect()); on[o.ob] = false; end(p, "\"z\":0", thr, s0); break; }
	case 'x': { hist::inv(p, "disconnect", a); RUN(delete m); obj[o.ob] = make(geo[o.ob]); on[o.ob] = false; end(p, "\"z\":0", thr, s0); break; }
	case 'i': case 'j': { hist::inv(p, o.c == 'i' ? "insert" : "uinsert", a + ",\"kk\":\"" + o.k[0] + "\",\"v\":" + num(o.v[0])); bool r = false; RUN(r = m->insert(u(o.k[0]), o.v[0], o.c == 'j')); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 'r': case 'q': { hist::inv(p, o.c == 'r' ? "read" : "uread", a + ",\"kk\":\"" + o.k[0] + "\""); bool r = false; int v = 777; RUN(r = m->read(u(o.k[0]), v, o.c == 'q')); Arr w; if (r || v != 777) w.raw(num(v)); end(p, "\"r\":" + num(r) + ",\"o\":" + w.end(), thr, s0); break; }
	case 'e': case 'h': { hist::inv(p, o.c == 'e' ? "erase" : "uerase", a + ",\"kk\":\"" + o.k[0] + "\""); bool r = false; RUN(r = m->erase(u(o.k[0]), o.c == 'h')); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 'I': { Arr w; std::vector<std::pair<K, int> > l; for (size_t i = 0; i < o.k.size(); ++i) { w.raw("[\"" + o.k[i] + "\"," + num(o.v[i]) + "]"); l.push_back(std::make_pair(u(o.k[i]), o.v[i])); } hist::inv(p, "insertall", a + ",\"l\":" + w.end()); bool r = false; RUN(r = m->insert(l)); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 'E': { Arr w; std::vector<K> l; for (size_t i = 0; i < o.k.size(); ++i) { w.raw("\"" + o.k[i] + "\""); l.push_back(u(o.k[i])); } hist::inv(p, "eraseall", a + ",\"l\":" + w.end()); bool r = false; RUN(r = m->erase(l)); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 'z': { hist::inv(p, "clear", a); RUN(m->clear()); end(p, "\"r\":0", thr, s0); break; }
	case 's': { hist::inv(p, "size", a); long r = -1; RUN(r = m->size()); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 't': { hist::inv(p, "iter", a); std::string r = "[]"; RUN(m->lock('l'); r = m->walk(); m->lock('L')); end(p, "\"o\":" + r, thr, s0); break; }
	case 'T': { hist::inv(p, "uiter", a); std::string r = "[]"; RUN(r = m->walk()); end(p, "\"o\":" + r, thr, s0); break; }
	case 'l': case 'w': { hist::inv(p, o.c == 'l' ? "lockr" : "lockw", a); RUN(m->lock(o.c)); end(p, "\"z\":0", thr, s0); if (thr) return false; break; }
	case 'L': case 'W': { hist::inv(p, o.c == 'L' ? "unlockr" : "unlockw", a); RUN(m->lock(o.c)); end(p, "\"z\":0", thr, s0); break; }
	case 'C': { hist::inv(p, "capacity", a + ",\"g\":" + m->dims()); long r = -1; RUN(r = m->capacity()); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 'k': { hist::inv(p, "connected", a); int r = -1; RUN(r = m->is_connected()); end(p, "\"r\":" + num(r), thr, s0); break; }
	case 'A': {
#ifndef REAL
		Arr w; for (size_t i = 0; i < owner.size(); ++i) if (owner[i] == p) w.raw(num(i + 1)); hist::inv(p, "attached", "\"own\":" + w.end()); hist::ret(p, "\"r\":" + num(ipc::attached(p)));
#endif
		break; }
	}
	return true;
}
static Op op(Line &l)
{
	Op o; o.c = l.s()[0]; o.ob = o.c == 'A' ? -1 : l.i(); o.key = 0; int n;
	switch (o.c) { case 'c': o.key = l.i(); break; case 'i': case 'j': o.k.push_back(l.s()); o.v.push_back(l.i()); break; case 'r': case 'e': case 'q': case 'h': o.k.push_back(l.s()); break;
	case 'I': n = l.i(); while (n--) { o.k.push_back(l.s()); o.v.push_back(l.i()); } break; case 'E': n = l.i(); while (n--) o.k.push_back(l.s()); break; }
	return o;
}
/* an exception from taking a lock ends the locked section: skip to its release */
static void body(int p, const std::vector<Op> &v) { for (size_t i = 0; i < v.size(); ++i) if (!step(p, v[i], false)) { char until = v[i].c == 'l' ? 'L' : 'W'; while (++i < v.size() && v[i].c != until) {} } }
static int done = 0; static long total = 0;
static void scenario(Line &l)
{
	sched::Budget b; b.max_exec = l.i(); b.pre = l.i(); b.max_rand = l.i(); b.p = 0.03;
	sched::rs = 88172645463325252ull ^ ((uint64_t) l.i() * 2654435761u); for (int i = 0; i < 9; ++i) sched::rnd();
	b.die = l.i(); b.intr = l.i(); b.early = l.i();
	int no = l.i(), pc = l.i(); geo.clear(); for (int i = 0; i < no; ++i) geo.push_back(l.i());
	int n = l.i(); std::vector<std::vector<Op> > ops(n);
	for (int p = 0; p < n; ++p) { int k = l.i(); while (k--) ops[p].push_back(op(l)); }
	std::string cfg = "\"n\":" + num(n) + ",\"nob\":" + num(no); owner.assign(no, 1);
	for (int p = 0; p < n; ++p) for (size_t i = 0; i < ops[p].size(); ++i) if (ops[p][i].ob >= 0) owner[ops[p][i].ob] = p + 1;
	keys[0] = "key." + num(++done); keys[1] = "missing"; { FILE *f = fopen(keys[0].c_str(), "w"); if (f) fclose(f); }
	hist::seen.clear();
#ifdef REAL
	hist::reset(n); obj.clear(); on.assign(no, false); for (int i = 0; i < no; ++i) obj.push_back(make(geo[i]));
	for (size_t i = 0; i < ops[0].size(); ++i) step(1, ops[0][i], true);
	hist::note("{\"k\":\"q\",\"b\":[]}"); for (int i = 0; i < no; ++i) delete obj[i];
	{ key_t k = ftok(keys[0].c_str(), 1); int s = shmget(k, 0, 0), m = semget(k, 0, 0); if (s != -1) shmctl(s, IPC_RMID, 0); if (m != -1) semctl(m, 0, IPC_RMID); }
	hist::flush(cfg); ++total;
#else
	sched::shared_addr = ipc::shared; sched::on_stuck = [](sched::Co *) { hist::note("{\"k\":\"stuck\"}"); };
	sched::on_death = [](sched::Co *c) { hist::note("{\"k\":\"x\",\"p\":" + num(c->id) + "}"); ipc::exited(c->id); };
	total += sched::explore(b, [&]() {
			ipc::reset(); hist::reset(n); obj.clear(); on.assign(no, false); for (int i = 0; i < no; ++i) obj.push_back(make(geo[i]));
			if (pc) for (int i = 0; i < no; ++i) { Op o; o.c = 'c'; o.ob = i; o.key = 0; ipc::as_pid = owner[i]; step(owner[i], o, true); }
			for (int p = 0; p < n; ++p) { std::vector<Op> *v = &ops[p]; sched::spawn([v, p]() { body(p + 1, *v); ipc::exited(p + 1); }, b.die > 0, b.intr > 0); }
		}, [&]() {
			Arr bl; for (int p = 0; p < n; ++p) if (sched::cos[p]->st == sched::BLOCKED) bl.raw(num(p + 1));
			if (!sched::stop_exec) hist::note("{\"k\":\"q\",\"b\":" + bl.end() + "}");
			ipc::reset(); if (!ipc::overrun.empty()) hist::note("{\"k\":\"overrun\"}");
			obj.clear(); hist::flush(cfg);
		});
	ipc::reset();
#endif
	unlink(keys[0].c_str());
}
int main(int, char **a) { init(); each_line(a[1], scenario); fprintf(stderr, "STAT executions %ld\n", total); return 0; }
