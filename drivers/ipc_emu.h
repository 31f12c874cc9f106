/* System V shared memory and semaphores for coroutine "processes".  Every attach is a mapping
 * of its own, semaphore operations are atomic over their array, block, time out (in virtual
 * time), are interrupted and undone at process exit as the kernel does it. */
#include <sys/types.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/sem.h>
#include <stdarg.h>
#include <algorithm>
namespace ipc {
static const unsigned char SLACK = 0xee;
struct Seg { key_t key; size_t size, len; int fd; bool gone; };
struct Map { char *p; size_t len; int seg, pid; };
struct Set { key_t key; std::vector<int> v; std::map<int, std::vector<int> > adj; bool gone; };
static std::vector<Seg> segs; static std::vector<Map> maps; static std::vector<Set> sets; static int as_pid = 0; static bool shmat_fails = false;
static std::map<int, long long> slept; static std::map<int, int> interrupted; static std::string overrun;
static int pid() { return sched::cur ? sched::cur->id : as_pid; }
static bool shared(const void *a) { for (size_t i = 0; i < maps.size(); ++i) if ((const char *) a >= maps[i].p && (const char *) a < maps[i].p + maps[i].len) return true; return false; }
static void unmap(size_t i) { munmap(maps[i].p, maps[i].len); maps.erase(maps.begin() + i); }
static int attached(int p) { int n = 0; for (size_t i = 0; i < maps.size(); ++i) n += maps[i].pid == p; return n; }
/* what the kernel does when a process ends */
static void exited(int p)
{
	sched::G g;
	for (size_t i = maps.size(); i-- > 0; ) if (maps[i].pid == p) unmap(i);
	for (size_t i = 0; i < sets.size(); ++i) { std::vector<int> &a = sets[i].adj[p]; for (size_t j = 0; j < a.size(); ++j) sets[i].v[j] = std::max(0, std::min(32767, sets[i].v[j] + a[j])); sets[i].adj.erase(p); }
}
static void reset()
{
	sched::G g; overrun = "";
	for (size_t i = 0; i < segs.size(); ++i) {   /* nobody writes behind the segment */
		std::string s(segs[i].len - segs[i].size, 0); if (!s.empty() && pread(segs[i].fd, &s[0], s.size(), segs[i].size) == (ssize_t) s.size()) for (size_t j = 0; j < s.size(); ++j) if ((unsigned char) s[j] != SLACK) overrun = "write behind the segment";
		close(segs[i].fd);
	}
	while (!maps.empty()) unmap(maps.size() - 1);
	segs.clear(); sets.clear(); slept.clear(); interrupted.clear(); as_pid = 0;
}
static int fail(int e) { errno = e; return -1; }
static bool feasible(Set &s, struct sembuf *o, size_t n, bool commit)
{
	std::vector<int> v = s.v;
	for (size_t i = 0; i < n; ++i) { if (o[i].sem_op == 0) { if (v[o[i].sem_num]) return false; } else if ((v[o[i].sem_num] += o[i].sem_op) < 0) return false; }
	if (commit) { s.v = v; for (size_t i = 0; i < n; ++i) if (o[i].sem_flg & SEM_UNDO) { std::vector<int> &a = s.adj[pid()]; a.resize(s.v.size()); a[o[i].sem_num] -= o[i].sem_op; } }
	return true;
}
static int sem(int id, struct sembuf *o, size_t n, const struct timespec *ts)
{
	sched::G g; sched::point();
	size_t k = id - 500; if (id < 500 || k >= sets.size() || sets[k].gone) return fail(EINVAL);
	if (n == 0) return fail(EINVAL);
	std::vector<struct sembuf> ops(o, o + n); bool nowait = false; for (size_t i = 0; i < n; ++i) { if (ops[i].sem_num >= sets[k].v.size()) return fail(EFBIG); }
	if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) return fail(EINVAL);
	long long ns = ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : 0;
	if (!feasible(sets[k], &ops[0], n, true)) {
		for (size_t i = 0; i < n; ++i) { /* the first operation that cannot proceed decides */ std::vector<int> w; if (feasible(sets[k], &ops[0], i + 1, false)) continue; nowait = ops[i].sem_flg & IPC_NOWAIT; break; }
		if (nowait) return fail(EAGAIN);
		if (!sched::cur) { fprintf(stderr, "blocked outside a process\n"); _exit(97); }
		int why = sched::block([k, &ops]() { return sets[k].gone || feasible(sets[k], &ops[0], ops.size(), false); }, ts != 0, true);
		if (why == 1) { slept[pid()] += ns; return fail(EAGAIN); }
		if (why == 2) { ++interrupted[pid()]; return fail(EINTR); }
		if (sets[k].gone) return fail(EIDRM);
		feasible(sets[k], &ops[0], n, true);
	}
	return 0;
}
}
extern "C" {
int shmget(key_t key, size_t size, int flg) throw()
{
	sched::G g; sched::point();
	for (size_t i = 0; i < ipc::segs.size(); ++i) if (!ipc::segs[i].gone && ipc::segs[i].key == key && key != IPC_PRIVATE) {
		if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) return ipc::fail(EEXIST);
		return size > ipc::segs[i].size ? ipc::fail(EINVAL) : 100 + (int) i;
	}
	if (!(flg & IPC_CREAT) && key != IPC_PRIVATE) return ipc::fail(ENOENT);
	if (size == 0 || size > (64u << 20)) return ipc::fail(EINVAL);
	ipc::Seg s; s.key = key; s.size = size; s.len = (size + 4095) / 4096 * 4096; s.gone = false; s.fd = memfd_create("seg", MFD_CLOEXEC);
	std::string slack(s.len - s.size, (char) ipc::SLACK);
	if (s.fd < 0 || ftruncate(s.fd, s.len) || (!slack.empty() && pwrite(s.fd, slack.data(), slack.size(), s.size) != (ssize_t) slack.size())) { perror("memfd"); _exit(97); }
	ipc::segs.push_back(s); return 100 + (int) ipc::segs.size() - 1;
}
void *shmat(int id, const void *, int) throw()
{
	sched::G g; sched::point(); size_t k = id - 100;
	if (ipc::shmat_fails) { errno = ENOMEM; return (void *) -1; }
	if (id < 100 || k >= ipc::segs.size() || ipc::segs[k].gone) { errno = EINVAL; return (void *) -1; }
	void *p = mmap(0, ipc::segs[k].len, PROT_READ | PROT_WRITE, MAP_SHARED, ipc::segs[k].fd, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
	ipc::Map m = { (char *) p, ipc::segs[k].len, (int) k, ipc::pid() }; ipc::maps.push_back(m); return p;
}
int shmdt(const void *p) throw()
{
	sched::G g; sched::point();
	for (size_t i = 0; i < ipc::maps.size(); ++i) if (ipc::maps[i].p == p && ipc::maps[i].pid == ipc::pid()) { ipc::unmap(i); return 0; }
	return ipc::fail(EINVAL);
}
int shmctl(int id, int cmd, struct shmid_ds *d) throw()
{
	sched::G g; sched::point(); size_t k = id - 100; if (id < 100 || k >= ipc::segs.size() || ipc::segs[k].gone) return ipc::fail(EINVAL);
	if (cmd == IPC_RMID) { ipc::segs[k].gone = true; return 0; }
	if (cmd == IPC_STAT) { memset(d, 0, sizeof *d); d->shm_segsz = ipc::segs[k].size; for (size_t i = 0; i < ipc::maps.size(); ++i) d->shm_nattch += ipc::maps[i].seg == (int) k; return 0; }
	return 0;
}
int semget(key_t key, int n, int flg) throw()
{
	sched::G g; sched::point();
	for (size_t i = 0; i < ipc::sets.size(); ++i) if (!ipc::sets[i].gone && ipc::sets[i].key == key && key != IPC_PRIVATE) {
		if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) return ipc::fail(EEXIST);
		return n > (int) ipc::sets[i].v.size() ? ipc::fail(EINVAL) : 500 + (int) i;
	}
	if (!(flg & IPC_CREAT) && key != IPC_PRIVATE) return ipc::fail(ENOENT);
	if (n <= 0) return ipc::fail(EINVAL);
	ipc::Set s; s.key = key; s.v.assign(n, 0); s.gone = false; ipc::sets.push_back(s); return 500 + (int) ipc::sets.size() - 1;
}
int semctl(int id, int num, int cmd, ...) throw()
{
	va_list ap; va_start(ap, cmd); unsigned long arg = va_arg(ap, unsigned long); va_end(ap);
	sched::G g; sched::point(); size_t k = id - 500; if (id < 500 || k >= ipc::sets.size() || ipc::sets[k].gone) return ipc::fail(EINVAL);
	ipc::Set &s = ipc::sets[k]; bool in = num >= 0 && num < (int) s.v.size();
	switch (cmd) {
	case IPC_RMID: s.gone = true; return 0;
	case GETVAL: return in ? s.v[num] : ipc::fail(EINVAL);
	case SETVAL: if (!in) return ipc::fail(EINVAL); s.v[num] = (int) arg; for (std::map<int, std::vector<int> >::iterator i = s.adj.begin(); i != s.adj.end(); ++i) if (!i->second.empty()) i->second[num] = 0; return 0;
	case GETALL: for (size_t i = 0; i < s.v.size(); ++i) ((unsigned short *) arg)[i] = s.v[i]; return 0;
	case SETALL: for (size_t i = 0; i < s.v.size(); ++i) s.v[i] = ((unsigned short *) arg)[i]; s.adj.clear(); return 0;
	case GETNCNT: case GETZCNT: case GETPID: return 0;
	default: return 0;
	}
}
int semop(int id, struct sembuf *o, size_t n) throw() { return ipc::sem(id, o, n, 0); }
int semtimedop(int id, struct sembuf *o, size_t n, const struct timespec *ts) throw() { return ipc::sem(id, o, n, ts); }
/* block copies into and out of shared memory can be interrupted in the middle (linked with --wrap) */
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
#define HALF(a) (!sched::guard && sched::cur && sched::cur->in_op && !sched::stop_exec && n > 1 && (a))
NOI void *__wrap_memcpy(void *d, const void *s, size_t n) { if (HALF(ipc::shared(d) || ipc::shared(s))) { size_t h = n / 2; __real_memcpy(d, s, h); sched::point(); __real_memcpy((char *) d + h, (const char *) s + h, n - h); sched::point(); return d; } return __real_memcpy(d, s, n); }
NOI void *__wrap_memmove(void *d, const void *s, size_t n) { if (HALF(ipc::shared(d) || ipc::shared(s)) && !((char *) d < (char *) s + n && (char *) s < (char *) d + n)) { size_t h = n / 2; __real_memmove(d, s, h); sched::point(); __real_memmove((char *) d + h, (const char *) s + h, n - h); sched::point(); return d; } return __real_memmove(d, s, n); }
NOI void *__wrap_memset(void *d, int c, size_t n) { if (HALF(ipc::shared(d))) { size_t h = n / 2; __real_memset(d, c, h); sched::point(); __real_memset((char *) d + h, c, n - h); sched::point(); return d; } return __real_memset(d, c, n); }
}
#define IPC_WRAP "-Wl,--wrap=memcpy"
