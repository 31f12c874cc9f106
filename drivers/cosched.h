/* Deterministic scheduler: every thread or process of a scenario is a coroutine of one OS
 * thread.  The code under test is compiled with -fsanitize=thread but linked with the hooks
 * below instead of the sanitizer's run time, so every access to shared memory and every
 * synchronisation call is a point where another coroutine may run, or where the current one
 * may die.  Executions are enumerated depth first within budgets (preemptions, deaths,
 * interruptions, early time-outs) and then at random; each is a function of its choices. */
#ifndef SCHED_H
#define SCHED_H
#include "drv.h"
#include <ucontext.h>
#include <errno.h>
#include <time.h>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include <cxxabi.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#endif
namespace __cxxabiv1 { struct __cxa_eh_globals { void *caughtExceptions; unsigned int uncaughtExceptions; }; }

namespace sched {
enum St { READY, BLOCKED, DONE, DEAD };
struct Co {
	ucontext_t ctx; char *stack; size_t ssz; std::function<void()> body; St st; int id;
	std::function<bool()> ready; bool timed, intr; int why;      /* why a blocked one resumed: 0 ready, 1 time-out, 2 signal */
	bool in_op, may_die, may_intr; int guard, err; __cxxabiv1::__cxa_eh_globals eh; void *note;
};
struct Budget { int pre, die, intr, early; long max_exec, max_rand; double p; };
/* >0: the engine itself is running (it may be instrumented too); kept per coroutine */
static int guard = 0;
#define NOI __attribute__((no_sanitize("thread")))
struct G { NOI G() { ++guard; } NOI ~G() { --guard; } };
static std::vector<Co *> cos; static Co *cur = 0; static ucontext_t main_ctx; static bool stop_exec = false;
static std::function<bool(const void *)> shared_addr; static std::function<void(Co *)> on_death, on_stuck;
static Budget left; static long points, point_limit = 400000;
/* choices */
static bool random_mode = false; static double rnd_p, boost = 0; /* boost: at least this likely to deviate at this choice */ static uint64_t rs = 88172645463325252ull;
static inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
struct Choice { int chosen, count; };
static std::vector<Choice> trail; static size_t tpos;
static int pick(int count)          /* 0 is the default */
{
	if (count <= 1) return 0;
	if (random_mode) { return (rnd() % 100000) < (rnd_p < boost ? boost : rnd_p) * 100000 ? (int) (rnd() % count) : 0; }
	if (tpos < trail.size()) { Choice &c = trail[tpos++]; if (c.count != count) { fprintf(stderr, "replay diverged at %zu: %d %d\n", tpos, c.count, count); _exit(97); } return c.chosen; }
	Choice c = { 0, count }; trail.push_back(c); ++tpos; return 0;
}
static int pick_any(int count) { if (count <= 1) return 0; if (random_mode) return rnd() % count; return pick(count); }

#ifdef __SANITIZE_ADDRESS__
static const void *main_bottom = 0; static size_t main_size = 0;
#endif
static void switch_to(Co *c)
{
	static int main_guard = 0; Co *o = cur; __cxxabiv1::__cxa_eh_globals *g = abi::__cxa_get_globals();
	if (o == c) return;
	if (o) { o->eh = *g; o->guard = guard; o->err = errno; } else main_guard = guard;
	cur = c; guard = c ? c->guard : main_guard;
	if (c) *g = c->eh; else { g->caughtExceptions = 0; g->uncaughtExceptions = 0; }
#ifdef __SANITIZE_ADDRESS__
	void *fake = 0; __sanitizer_start_switch_fiber(&fake, c ? c->stack : main_bottom, c ? c->ssz : main_size);
#endif
	swapcontext(o ? &o->ctx : &main_ctx, c ? &c->ctx : &main_ctx);
#ifdef __SANITIZE_ADDRESS__
	__sanitizer_finish_switch_fiber(fake, 0, 0);
#endif
	if (o) errno = o->err;
}
static bool enabled(Co *c) { return c->st == READY || (c->st == BLOCKED && c->ready()); }
/* decide what runs next; returns with the current coroutine chosen again (or never, if dead) */
static void die(Co *c) { c->st = DEAD; if (on_death) on_death(c); }
static void schedule()
{
	struct Opt { int kind; Co *c; };   /* 0 run, 1 time-out, 2 signal, 3 die */
	for (;;) {
		if (++points > point_limit) { if (!stop_exec) { stop_exec = true; if (on_stuck) on_stuck(cur); } switch_to(0); return; }
		std::vector<Opt> o; bool here = cur && enabled(cur);
		if (here) { Opt x = { 0, cur }; o.push_back(x); }
		for (size_t i = 0; i < cos.size(); ++i) if (cos[i] != cur && enabled(cos[i]) && (!here || left.pre > 0)) { Opt x = { 0, cos[i] }; o.push_back(x); }
		bool any = here || !o.empty();
		size_t normal = o.size();
		static size_t before = 0; if (here && normal > before && before) boost = 0.5; before = normal;   /* somebody was just released */
		for (size_t i = 0; i < cos.size(); ++i) if (cos[i]->st == BLOCKED && cos[i]->timed && !cos[i]->ready() && (!any || left.early > 0)) { Opt x = { 1, cos[i] }; o.push_back(x); }
		for (size_t i = 0; i < cos.size(); ++i) if (cos[i]->st == BLOCKED && cos[i]->intr && cos[i]->may_intr && left.intr > 0) { Opt x = { 2, cos[i] }; o.push_back(x); }
		if (cur && cur->st != DEAD && cur->st != DONE && cur->in_op && cur->may_die && left.die > 0) { Opt x = { 3, cur }; o.push_back(x); }
		else if (!any) for (size_t i = 0; i < cos.size(); ++i) if (cos[i]->st == BLOCKED && cos[i]->may_die && left.die > 0) { Opt x = { 3, cos[i] }; o.push_back(x); }
		if (o.empty() || (!any && o[0].kind >= 2)) {
			/* nothing can run unless something exceptional happens */
			int k = pick((int) o.size() + 1); if (k == 0) { switch_to(0); return; }
			Opt x = o[k - 1]; if (x.kind == 2) { --left.intr; x.c->why = 2; x.c->st = READY; } else { --left.die; die(x.c); } continue;
		}
		int k = here ? pick((int) o.size()) : (normal ? pick_any((int) o.size()) : pick((int) o.size())); boost = 0; Opt x = o[k];
		if (x.kind == 3) { --left.die; die(x.c); if (x.c == cur) { continue; } continue; }
		if (here && x.c != cur && x.kind == 0) --left.pre;
		if (x.kind == 1) { if (any) --left.early; x.c->why = 1; }
		else if (x.kind == 2) { --left.intr; x.c->why = 2; }
		else if (x.c->st == BLOCKED) x.c->why = 0;
		x.c->st = READY; Co *me = cur; switch_to(x.c);
		if (cur == me) return;
	}
}
static inline void point() { G g; if (cur && cur->in_op) { boost = 0.15; schedule(); boost = 0; } }   /* a synchronisation call */
/* wait until ready(); returns why */
static int block(std::function<bool()> ready, bool timed, bool intr)
{
	G g; cur->st = BLOCKED; cur->ready = ready; cur->timed = timed; cur->intr = intr; cur->why = 0;
	schedule();
	return cur->why;
}
static void entry(unsigned lo, unsigned hi) { Co *c = (Co *) (((uintptr_t) hi << 32) | lo); 
#ifdef __SANITIZE_ADDRESS__
	{ const void *b; size_t n; __sanitizer_finish_switch_fiber(0, &b, &n); if (!main_bottom) { main_bottom = b; main_size = n; } }
#endif
	guard = 0; c->body(); ++guard; c->st = DONE; schedule(); _exit(97); }
static Co *spawn(std::function<void()> f, bool may_die = false, bool may_intr = false)
{
	Co *c = new Co(); c->ssz = 128 * 1024; c->stack = (char *) malloc(c->ssz); c->body = f; c->st = READY; c->id = cos.size() + 1; c->timed = c->intr = c->in_op = false; c->why = 0; c->may_die = may_die; c->may_intr = may_intr; c->note = 0; c->guard = c->err = 0;
	c->eh.caughtExceptions = 0; c->eh.uncaughtExceptions = 0;
	getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = c->ssz; c->ctx.uc_link = 0;
	uintptr_t p = (uintptr_t) c; makecontext(&c->ctx, (void (*)()) entry, 2, (unsigned) p, (unsigned) (p >> 32));
	cos.push_back(c); return c;
}
static inline bool my_stack(const void *a) { return cur && (const char *) a >= cur->stack && (const char *) a < cur->stack + cur->ssz; }
NOI static void access(const void *a) { if (guard || !cur || !cur->in_op || stop_exec) return; ++guard; if (!my_stack(a) && (!shared_addr || shared_addr(a))) schedule(); --guard; }
/* explore: setup() spawns the coroutines, finish() is called when nothing can run any more */
static long explore(const Budget &b, std::function<void()> setup, std::function<void()> finish)
{
	long n = 0; trail.clear(); random_mode = false; bool more = true; uint64_t seed0 = rs;
	for (long r = 0; ; ) {
		if (!random_mode && (!more || n >= b.max_exec)) { random_mode = true; rs = seed0; }
		if (random_mode && r++ >= b.max_rand) break;
		left = b; tpos = 0; points = 0; stop_exec = false; cur = 0; rnd_p = b.p * (1 + (int) (rnd() % 4));
		if (random_mode) { left.pre = 1000; left.early = b.early ? 3 : 0; }
		setup();
		switch_to(0); cur = 0;
		{ /* first choice: who starts */ schedule(); }
		cur = 0; finish();
		for (size_t i = 0; i < cos.size(); ++i) { free(cos[i]->stack); delete cos[i]; } cos.clear(); ++n;
		if (!random_mode) { more = false; while (!trail.empty()) { if (trail.back().chosen + 1 < trail.back().count) { ++trail.back().chosen; more = true; break; } trail.pop_back(); } if (!more) { /* complete */ } }
	}
	return n;
}
}
/* ---- hooks the instrumented code calls ---- */
extern "C" {
#define ACC(n) NOI void __tsan_read##n(void *a) { sched::access(a); } NOI void __tsan_write##n(void *a) { sched::access(a); } \
	NOI void __tsan_unaligned_read##n(void *a) { sched::access(a); } NOI void __tsan_unaligned_write##n(void *a) { sched::access(a); } \
	NOI void __tsan_volatile_read##n(void *a) { sched::access(a); } NOI void __tsan_volatile_write##n(void *a) { sched::access(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOI void __tsan_read_range(void *a, unsigned long) { sched::access(a); } NOI void __tsan_write_range(void *a, unsigned long) { sched::access(a); }
NOI void __tsan_init() {} NOI void __tsan_func_entry(void *) {} NOI void __tsan_func_exit() {} NOI void __tsan_vptr_update(void **a, void *) { sched::access(a); } NOI void __tsan_vptr_read(void **a) { sched::access(a); }
#define ATO(bits, T) \
	NOI T __tsan_atomic##bits##_load(const volatile T *a, int) { sched::access((const void *) a); return *a; } \
	NOI void __tsan_atomic##bits##_store(volatile T *a, T v, int) { sched::access((const void *) a); *a = v; } \
	NOI T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { sched::access((const void *) a); T o = *a; *a = v; return o; } \
	NOI T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { sched::access((const void *) a); T o = *a; *a = o + v; return o; } \
	NOI T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { sched::access((const void *) a); T o = *a; *a = o - v; return o; } \
	NOI T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { sched::access((const void *) a); T o = *a; *a = o & v; return o; } \
	NOI T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { sched::access((const void *) a); T o = *a; *a = o | v; return o; } \
	NOI T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { sched::access((const void *) a); T o = *a; *a = o ^ v; return o; } \
	NOI int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { sched::access((const void *) a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	NOI int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { sched::access((const void *) a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	NOI T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { sched::access((const void *) a); T o = *a; if (o == e) *a = v; return o; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
NOI void __tsan_atomic_thread_fence(int) {} NOI void __tsan_atomic_signal_fence(int) {}
}
/* ---- one recorded history ---- */
namespace hist {
struct Ev { std::string head; int inv; };            /* inv: index of the operation whose result is added, or -1 */
static std::vector<Ev> ev; static std::vector<std::string> result; static std::vector<int> open_op; static std::unordered_set<std::string> seen; static std::map<std::string, long> stat;
static void reset(int n) { ev.clear(); result.clear(); open_op.assign(n + 1, -1); }
/* the invocation event carries the result, so that the specification need not guess it */
static void inv(int p, const std::string &f, const std::string &args) { Ev e; e.head = "{\"k\":\"i\",\"p\":" + drv::num(p) + ",\"f\":\"" + f + "\"" + (args.empty() ? "" : "," + args); e.inv = result.size(); open_op[p] = result.size(); result.push_back(""); ev.push_back(e); }
static void ret(int p, const std::string &res) { result[open_op[p]] = res.empty() ? "\"z\":0" : res; open_op[p] = -1; Ev e; e.head = "{\"k\":\"r\",\"p\":" + drv::num(p) + "}"; e.inv = -1; ev.push_back(e); }
static void note(const std::string &j) { Ev e; e.head = j; e.inv = -1; ev.push_back(e); }
static std::string text() { drv::Arr a; for (size_t i = 0; i < ev.size(); ++i) a.raw(ev[i].inv < 0 ? ev[i].head : ev[i].head + (result[ev[i].inv].empty() ? ",\"pend\":true}" : ",\"pend\":false," + result[ev[i].inv] + "}")); return a.end(); }
static bool flush(const std::string &cfg) { std::string s = "{" + cfg + ",\"ev\":" + text() + "}"; if (!seen.insert(s).second) return false; drv::emit(s); return true; }
}
#endif
