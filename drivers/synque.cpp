/* C03 C04: one scenario per line:
 * <max_exec> <preemptions> <max_rand> <seed> <threads> then per thread <ops> and
 * a v | s | g w | b max w | z */
#include "cosched.h"
#include "pthread_emu.h"
#include <new>
#include <coda/synque.hpp>
using namespace drv;
struct E { int a, b; E() : a(0), b(0) {} E(int v) : a(v), b(v) {} E(const E &o) : a(o.a), b(o.b) {} E &operator=(const E &o) { a = o.a; b = o.b; return *this; } int v() const { return a == b ? a : 888888; } };
struct Op { char c; int x, y; };
typedef coda::synque<E> Q;
static Q *q;
struct In { In() { sched::cur->in_op = true; } ~In() { sched::cur->in_op = false; } };
static void point() { In i; sched::point(); }
static void thread(int p, const std::vector<Op> &ops)
{
	for (size_t i = 0; i < ops.size(); ++i) {
		Op o = ops[i]; point();
		if (o.c == 'a') { hist::inv(p, "add", "\"v\":" + num(o.x)); E e(o.x); { In in; q->add(e); } hist::ret(p, "\"r\":0"); }
		else if (o.c == 's') { hist::inv(p, "signal", ""); { In in; q->signal(); } hist::ret(p, "\"r\":0"); }
		else if (o.c == 'g') { hist::inv(p, "get", "\"w\":" + num(o.x)); E e(777); int r; { In in; r = q->get(e, o.x); } Arr a; if (r == 0) a.raw(num(e.v())); else if (e.v() != 777) a.raw("-1"); hist::ret(p, "\"r\":" + num(r) + ",\"o\":" + a.end()); }
		else if (o.c == 'b') { hist::inv(p, "batch", "\"w\":" + num(o.y) + ",\"max\":" + num(o.x)); std::deque<E> d; int pre = i % 3; for (int j = 0; j < pre; ++j) d.push_back(E(-5 - j)); int r; { In in; r = q->get(d, o.x, o.y); }
			Arr a; for (size_t j = 0; j < d.size(); ++j) { if ((int) j < pre) { if (d[j].v() != -5 - (int) j) a.raw("-1"); } else a.raw(num(d[j].v())); } if ((int) d.size() < pre) a.raw("-1"); hist::ret(p, "\"r\":" + num(r) + ",\"o\":" + a.end()); }
		else if (o.c == 'z') { hist::inv(p, "size", ""); size_t r; { In in; r = q->size(); } hist::ret(p, "\"r\":" + num(r)); }
	}
}
static void waits() { for (size_t p = 0; p < sched::cos.size(); ++p) if (sched::cos[p] == sched::cur) hist::note("{\"k\":\"w\",\"p\":" + num(p + 1) + "}"); }
static long total = 0;
static void scenario(Line &l)
{
	sched::Budget b; b.max_exec = l.i(); b.pre = l.i(); b.max_rand = l.i(); b.die = b.intr = b.early = 0; b.p = 0.03; sched::rs = 88172645463325252ull ^ ((uint64_t) l.i() * 2654435761u); for (int i = 0; i < 9; ++i) sched::rnd();
	int n = l.i(); std::vector<std::vector<Op> > ops(n);
	for (int p = 0; p < n; ++p) { int k = l.i(); while (k--) { Op o; o.c = l.s()[0]; o.x = o.y = 0; if (o.c == 'a' || o.c == 'g') o.x = l.i(); if (o.c == 'b') { o.x = l.i(); o.y = l.i(); } ops[p].push_back(o); } }
	hist::seen.clear(); pt::on_wait = waits;
	sched::on_stuck = [](sched::Co *) { hist::note("{\"k\":\"stuck\"}"); };
	total += sched::explore(b, [&]() { pt::reset(); hist::reset(n); void *mem = malloc(sizeof(Q)); memset(mem, pt::RAW, sizeof(Q)); q = new (mem) Q; for (int p = 0; p < n; ++p) sched::spawn([&ops, p]() { thread(p + 1, ops[p]); }); },
		[&]() { Arr bl; for (int p = 0; p < n; ++p) if (sched::cos[p]->st == sched::BLOCKED) bl.raw(num(p + 1)); if (!sched::stop_exec) hist::note("{\"k\":\"q\",\"b\":" + bl.end() + "}"); q->~Q(); free((void *) q); hist::flush("\"n\":" + num(n)); });
}
int main(int, char **a) { init(); each_line(a[1], scenario); fprintf(stderr, "STAT executions %ld\n", total); return 0; }
