/* C13: one run per line: <N> ops.  Two handles share the memory; h = 0/1 picks one.
 * pool: alloc h | free h j (the j-th oldest index that is out, modulo) | count h | pclear h | pattach h | pbad kind
 * stack: push h v | pop h | used h | empty h | sclear h | sattach h | sbad kind */
#include "calls.h"
#include "coda/shm_pool.hpp"
using namespace drv;
struct Big { char c[12]; };
template <int N> static void go(Line &l)
{
	typedef shm::pool<Big, N> P; typedef shm::stack<uint64_t, N> S;
	P p[2]; S s[2]; std::vector<uint32_t> out; size_t used = 0; Arr ops;
	char *ph = (char *) calloc(1, p[0].header_size()), *ps = (char *) calloc(1, p[0].stack_size()), *pd = (char *) calloc(1, p[0].data_size());
	char *sh = (char *) calloc(1, s[0].header_size()), *sd = (char *) calloc(1, s[0].data_size());
	for (int i = 0; i < 2; ++i) { p[i].attach(ph, ps, pd); s[i].attach(sh, sd); }
	while (l.more()) {
		std::string f = l.s(); int h = l.i(); Obj o;
		if (f == "alloc") { uint32_t r = p[h].allocate(); if (r != (uint32_t) -1) { out.push_back(r); if (r < N) memset(pd + r * sizeof(Big), r + 1, sizeof(Big)); } o.t("f", f).n("r", (int) r); }
		else if (f == "free") { int j = l.i(); if (out.empty()) continue; j %= out.size(); uint32_t i = out[j]; out.erase(out.begin() + j); bool r = p[h].free(i); o.t("f", f).n("i", (int) i).raw("r", B(r)); }
		else if (f == "count") o.t("f", f).n("r", p[h].allocated_objects());
		else if (f == "pclear") { p[h].clear(); out.clear(); o.t("f", f); }
		else if (f == "push") { long v = l.i(); bool r = s[h].push(v); used += r; o.t("f", f).n("v", v).raw("r", B(r)); }
		else if (f == "pop") { if (!used) continue; --used; o.t("f", f).n("r", s[h].pop()); }
		else if (f == "used") o.t("f", f).n("r", s[h].used());
		else if (f == "empty") o.t("f", f).raw("r", B(s[h].empty()));
		else if (f == "sclear") { s[h].clear(); used = 0; o.t("f", f); }
		else if (f == "pattach" || f == "sattach") { bool raised = false; try { if (f[0] == 'p') { p[h].detach(); p[h].attach(ph, ps, pd); } else { s[h].detach(); s[h].attach(sh, sd); } } catch (std::exception &) { raised = true; } o.t("f", "attach").raw("same", "true").raw("raised", B(raised)); }
		else if (f == "pbad") { bool raised = false; try { if (h == 0) { shm::pool<Big, N + 1> x; x.attach(ph, ps, pd); } else if (h == 1) { shm::pool<char, N> x; x.attach(ph, ps, pd); } else { shm::pool<char[24], N> x; x.attach(ph, ps, pd); } } catch (std::exception &) { raised = true; }
			o.t("f", "attach").raw("same", "false").raw("raised", B(raised)); }
		else if (f == "sbad") { bool raised = false; try { if (h == 0) { shm::stack<uint64_t, N + 1> x; x.attach(sh, sd); } else if (h == 1) { shm::stack<uint32_t, N> x; x.attach(sh, sd); } else { shm::stack<uint64_t, 2 * N> x; x.attach(sh, sd); } } catch (std::exception &) { raised = true; }
			o.t("f", "attach").raw("same", "false").raw("raised", B(raised)); }
		else _exit(97);
		ops.raw(o.end());
	}
	for (int i = 0; i < 2; ++i) { p[i].detach(); s[i].detach(); }
	free(ph); free(ps); free(pd); free(sh); free(sd);
	emit(Obj().n("n", N).raw("ops", ops.end()).end());
}
static void run(Line &l) { int n = l.i(); if (n == 1) go<1>(l); else if (n == 2) go<2>(l); else if (n == 3) go<3>(l); else if (n == 7) go<7>(l); else if (n == 100) go<100>(l); else _exit(97); }
int main(int, char **a) { init(); each_line(a[1], run); return 0; }
