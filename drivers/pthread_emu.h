/* pthread mutexes and condition variables for coroutines */
#include <pthread.h>
#include <deque>
namespace pt { static void (*on_wait)() = 0;
struct M { sched::Co *owner; M() : owner(0) {} }; struct W { sched::Co *c; bool sig; }; static std::map<void *, M> ms; static std::map<void *, std::deque<W *> > cs;
static bool on() { return sched::cur && sched::cur->in_op && !sched::stop_exec; }
/* objects stand in memory filled with this; one still full of it when used was never made (or was destroyed) */
enum { RAW = 0x5a };
static void made(const void *p, size_t n) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; ++i) if (c[i] != RAW) return; fprintf(stderr, "a mutex or condition variable used before it was initialised\n"); abort(); }
static void reset() { ms.clear(); cs.clear(); }
static int wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
	made(c, sizeof *c); made(m, sizeof *m);
	sched::G g; if (!on()) return 0;
	sched::point(); W w = { sched::cur, false }; cs[c].push_back(&w); ms[m].owner = 0; if (on_wait) on_wait();
	int why = sched::block([&w, m]() { return w.sig && !ms[m].owner; }, timed, false);
	std::deque<W *> &q = cs[c]; for (size_t i = 0; i < q.size(); ++i) if (q[i] == &w) { q.erase(q.begin() + i); break; }
	if (why == 1) sched::block([m]() { return !ms[m].owner; }, false, false);
	ms[m].owner = sched::cur; return why == 1 ? ETIMEDOUT : 0;
}
static int wake(pthread_cond_t *c, bool all)
{
	made(c, sizeof *c);
	sched::G g; if (!on()) return 0;
	sched::point(); std::deque<W *> &q = cs[c]; std::vector<W *> u; for (size_t i = 0; i < q.size(); ++i) if (!q[i]->sig) u.push_back(q[i]);
	if (u.empty()) return 0;
	if (all) for (size_t i = 0; i < u.size(); ++i) u[i]->sig = true; else u[sched::pick_any(u.size())]->sig = true;
	return 0;
}
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) throw() { sched::G g; pt::ms.erase(m); memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) throw() { pt::made(m, sizeof *m); sched::G g; pt::ms.erase(m); memset(m, pt::RAW, sizeof *m); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) throw() { pt::made(m, sizeof *m); sched::G g; if (!pt::on()) return 0; sched::point(); if (pt::ms[m].owner) sched::block([m]() { return !pt::ms[m].owner; }, false, false); pt::ms[m].owner = sched::cur; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) throw() { pt::made(m, sizeof *m); sched::G g; if (!pt::on()) return 0; sched::point(); if (pt::ms[m].owner) return EBUSY; pt::ms[m].owner = sched::cur; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) throw() { pt::made(m, sizeof *m); sched::G g; if (!pt::on()) return 0; sched::point(); pt::ms[m].owner = 0; return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) throw() { sched::G g; pt::cs.erase(c); memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) throw() { pt::made(c, sizeof *c); sched::G g; pt::cs.erase(c); memset(c, pt::RAW, sizeof *c); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return pt::wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return pt::wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return pt::wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) throw() { return pt::wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) throw() { return pt::wake(c, true); }
}
