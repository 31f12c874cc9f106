/* C05-C08: one scenario per line:
 * <max_exec> <pre> <max_rand> <seed> <die> <intr> <early> <objects> <preconnected> <bs> <n> <procs> then per process <ops> and
 * c ob bs n key | d ob | x ob | p ob v size | f ob | u ob flags usec | U ob flags usec | g ob | b ob | P ob | S ob i v | G ob i | N ob | A
 * With REAL the kernel's IPC is used and there is one process. */
#include "cosched.h"
#ifndef REAL
#include "ipc_emu.h"
#endif
#include <coda/shm_queue.hpp>
using namespace drv;
/* first byte: size, second: value, rest a pattern */
struct Item : shm_queue::serializable {
	int v, n; Item() : v(0), n(2) {} Item(int v_, int n_) : v(v_), n(n_) {}
	static unsigned char at(int v, int i) { return (unsigned char) (v * 31 + i * 17 + 5); }
	bool serialize(void *p) const { unsigned char *b = (unsigned char *) p; b[0] = n; b[1] = v; for (int i = 2; i < n; ++i) b[i] = at(v, i); return true; }
	bool deserialize(const void *p) { const unsigned char *b = (const unsigned char *) p; if (!b[0]) return false; n = b[0]; v = b[1]; if (n < 2) { v = -1; return true; } for (int i = 2; i < n; ++i) if (b[i] != at(v, i)) { v = -1; break; } return true; }
	size_t size() const { return n; }
};
typedef shm_queue::queue<Item> Q;
struct Op { char c; int ob; long a, b, k; std::string s; };
static std::vector<Q *> obj; static std::vector<bool> on; static std::vector<int> owner; static std::string keys[2];
struct In { In() { if (sched::cur) sched::cur->in_op = true; } ~In() { if (sched::cur) sched::cur->in_op = false; } };
static void point() { In i; sched::point(); }
static int sig(int p)
{
#ifdef REAL
	return 0;
#else
	return ipc::interrupted[p];
#endif
}
static std::string pr(const Item &o) { return "[" + num(o.v) + "," + num(o.n) + "]"; }
static void step(int p, const Op &o, bool first)
{
	Q *q = o.ob >= 0 ? obj[o.ob] : 0; std::string ob = "\"ob\":" + num(o.ob + 1); int s0 = sig(p);
	if (strchr("bPSGN", o.c) && !on[o.ob]) return;   /* only defined for a connected object */
	if (!first && !(strchr("pg", o.c))) point();
	switch (o.c) {
	case 'c': { hist::inv(p, "connect", ob + ",\"bs\":" + num(o.a) + ",\"n\":" + num(o.b) + ",\"key\":" + num(o.k)); int r = 1; try { In in; q->connect(keys[o.k].c_str(), o.a, o.b); } catch (const std::exception &) { r = 0; } if (r) on[o.ob] = true; hist::ret(p, "\"r\":" + num(r)); break; }
	case 'd': { hist::inv(p, "disconnect", ob); { In in; q->disconnect(); } on[o.ob] = false; hist::ret(p, ""); break; }
	case 'x': { hist::inv(p, "disconnect", ob); { In in; delete q; } obj[o.ob] = new Q; on[o.ob] = false; hist::ret(p, ""); break; }
	case 'p': { hist::inv(p, "put", ob + ",\"e\":[" + num(o.a) + "," + num(o.b) + "]"); Item e(o.a, o.b); int r; { In in; r = q->put(e); } hist::ret(p, "\"r\":" + num(r)); break; }
	case 'f': { hist::inv(p, "flush", ob); { In in; q->flush(); } hist::ret(p, ""); break; }
	case 'u': case 'U': {
		hist::inv(p, o.c == 'u' ? "unflush" : "drain", ob + ",\"w\":" + num(o.a ? 0 : o.b)); int r; Arr a;
#ifndef REAL
		ipc::slept[p] = 0;
#endif
		{ In in; r = q->unflush(o.a ? IPC_NOWAIT : 0, o.b); }
		if (r && o.c == 'U') for (int i = 0; i < 300; ++i) { Item e; int g; { In in; g = q->get(e); } if (!g) break; a.raw(pr(e)); }
		long el = o.a ? 0 : o.b;
#ifndef REAL
		el = ipc::slept[p] % 1000 ? -1 : ipc::slept[p] / 1000;
#endif
		hist::ret(p, "\"r\":" + num(r) + ",\"o\":" + a.end() + ",\"el\":" + num(r ? 0 : el) + ",\"in\":" + num(sig(p) != s0)); break; }
	case 'g': { hist::inv(p, "get", ob); Item e; int r; { In in; r = q->get(e); } Arr a; if (r) a.raw(pr(e)); hist::ret(p, "\"o\":" + a.end()); break; }
	case 'b': case 'P': { hist::inv(p, "boxes", ob); long r; { In in; r = o.c == 'b' ? (long) q->boxes_in_queue() : (long) q->pages_used(); } hist::ret(p, "\"r\":" + num(r)); break; }
	case 'S': { hist::inv(p, "setreg", ob + ",\"i\":" + num(o.a) + ",\"v\":\"" + o.s + "\""); { In in; q->set_register(o.a, strtoul(o.s.c_str(), 0, 10)); } hist::ret(p, ""); break; }
	case 'G': { hist::inv(p, "getreg", ob + ",\"i\":" + num(o.a)); uint32_t r; { In in; r = q->get_register(o.a); } hist::ret(p, "\"r\":\"" + num(r) + "\""); break; }
	case 'N': { hist::inv(p, "registers", ob); int r; { In in; r = q->registers_number(); } hist::ret(p, "\"r\":" + num(r)); break; }
	case 'A': {   /* attachments of this process: one for every object of it that is connected */
#ifndef REAL
		Arr w; for (size_t i = 0; i < owner.size(); ++i) if (owner[i] == p) w.raw(num(i + 1)); hist::inv(p, "attached", "\"own\":" + w.end()); hist::ret(p, "\"r\":" + num(ipc::attached(p)));
#endif
		break; }
	}
}
static Op op(Line &l)
{
	Op o; o.c = l.s()[0]; o.ob = o.c == 'A' ? -1 : l.i(); o.a = o.b = o.k = 0;
	switch (o.c) { case 'c': o.a = l.i(); o.b = l.i(); o.k = l.i(); break; case 'p': case 'u': case 'U': o.a = l.i(); o.b = l.i(); break; case 'S': o.a = l.i(); o.s = l.s(); break; case 'G': o.a = l.i(); break; }
	return o;
}
static int done = 0;
static long total = 0;
static void scenario(Line &l)
{
	sched::Budget b; b.max_exec = l.i(); b.pre = l.i(); b.max_rand = l.i(); b.p = 0.03;
	sched::rs = 88172645463325252ull ^ ((uint64_t) l.i() * 2654435761u); for (int i = 0; i < 9; ++i) sched::rnd();
	b.die = l.i(); b.intr = l.i(); b.early = l.i();
	int no = l.i(), pc = l.i(), bs = l.i(), nb = l.i(), n = l.i(); std::vector<std::vector<Op> > ops(n);
	for (int p = 0; p < n; ++p) { int k = l.i(); while (k--) ops[p].push_back(op(l)); }
	std::string cfg = "\"n\":" + num(n) + ",\"nob\":" + num(no); owner.assign(no, 1);
	for (int p = 0; p < n; ++p) for (size_t i = 0; i < ops[p].size(); ++i) if (ops[p][i].ob >= 0) owner[ops[p][i].ob] = p + 1;
	keys[0] = "key." + num(++done); keys[1] = "missing"; { FILE *f = fopen(keys[0].c_str(), "w"); if (f) fclose(f); }
	hist::seen.clear();
#ifdef REAL
	hist::reset(n); obj.clear(); on.assign(no, false); for (int i = 0; i < no; ++i) obj.push_back(new Q);
	for (size_t i = 0; i < ops[0].size(); ++i) step(1, ops[0][i], true);
	hist::note("{\"k\":\"q\",\"b\":[]}"); for (int i = 0; i < no; ++i) delete obj[i];
	{ key_t k = ftok(keys[0].c_str(), 1); int s = shmget(k, 0, 0), m = semget(k, 0, 0); if (s != -1) shmctl(s, IPC_RMID, 0); if (m != -1) semctl(m, 0, IPC_RMID); }
	hist::flush(cfg);
#else
	sched::shared_addr = ipc::shared; sched::on_stuck = [](sched::Co *) { hist::note("{\"k\":\"stuck\"}"); };
	sched::on_death = [](sched::Co *c) { hist::note("{\"k\":\"x\",\"p\":" + num(c->id) + "}"); ipc::exited(c->id); };
	total += sched::explore(b, [&]() {
			ipc::reset(); hist::reset(n); obj.clear(); on.assign(no, false); for (int i = 0; i < no; ++i) obj.push_back(new Q);
			if (pc) for (int i = 0; i < no; ++i) { Op o; o.c = 'c'; o.ob = i; o.a = bs; o.b = nb; o.k = 0; ipc::as_pid = owner[i]; step(owner[i], o, true); }
			for (int p = 0; p < n; ++p) { std::vector<Op> *v = &ops[p]; sched::spawn([v, p]() { for (size_t i = 0; i < v->size(); ++i) step(p + 1, (*v)[i], false); ipc::exited(p + 1); for (size_t i = 0; i < v->size(); ++i) if ((*v)[i].ob >= 0) on[(*v)[i].ob] = false; }, b.die > 0, b.intr > 0); }
		}, [&]() {
			Arr bl; for (int p = 0; p < n; ++p) if (sched::cos[p]->st == sched::BLOCKED) bl.raw(num(p + 1));
			if (!sched::stop_exec) hist::note("{\"k\":\"q\",\"b\":" + bl.end() + "}");
			ipc::reset(); if (!ipc::overrun.empty()) hist::note("{\"k\":\"overrun\"}");
			/* the objects' mappings are gone with their processes: do not run destructors */
			obj.clear(); hist::flush(cfg);
		});
	ipc::reset();
#endif
	unlink(keys[0].c_str());
}
int main(int, char **a) { init(); each_line(a[1], scenario); fprintf(stderr, "STAT executions %ld\n", total); return 0; }
