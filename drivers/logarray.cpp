/* C36 arrays indexed by order of magnitude */
#include <new>
#include "calls.h"
#include "coda/log_array.hpp"
using namespace drv;
static std::string bits(unsigned long v) { Arr a; int i = 63; while (i > 0 && !(v >> i & 1)) --i; for (; i >= 0; --i) a.raw(num(v >> i & 1)); return a.end(); }
template <class A> static std::string all(A *x, int m) { Arr r; for (int j = 0; j < 3; ++j) { Arr q; const A &c = x[j]; for (int i = 0; i < m; ++i) q.raw(num((long) c.get_at(i))); r.raw(q.end()); } return r.end(); }
template <class T, unsigned M, class A = coda::log_array<T, M> > static void run(Line &l)
{
	A *x; Arr ops;
	void *mem = malloc(3 * sizeof(A)); memset(mem, 0x5A, 3 * sizeof(A)); x = (A *) mem;
	for (int i = 0; i < 3; ++i) new (x + i) A();
	while (l.more())
	{
		std::string f = l.s(); Obj o; o.t("f", f);
		if (f == "put") { int k = l.i(); unsigned long v = strtoul(l.s().c_str(), 0, 10); int w = l.i(); x[k - 1].get_by_value(v) = (T) w; o.n("x", k).raw("bits", bits(v)).n("v", w); }
		else if (f == "look") { int k = l.i(); unsigned long v = strtoul(l.s().c_str(), 0, 10); o.n("x", k).raw("bits", bits(v)).n("r", (long) x[k - 1].get_by_value(v)); }
		else if (f == "at") { int k = l.i(), i = l.i(), w = l.i(); x[k - 1].get_at(i) = (T) w; o.n("x", k).n("i", i).n("v", w); }
		else if (f == "swap") { int k = l.i(), y = l.i(); x[k - 1].swap(x[y - 1]); o.n("x", k).n("y", y); }
		else _exit(97);
		ops.raw(o.raw("all", all(x, M)).end());
	}
	free(mem);
	emit(Obj().n("m", M).raw("ops", ops.end()).end());
}
template <class T> static void sized(int m, Line &l)
{
	switch (m) { case 1: run<T, 1>(l); break; case 2: run<T, 2>(l); break; case 5: run<T, 5>(l); break; case 8: run<T, 8>(l); break; case 0: run<T, 8, coda::log_array<T> >(l); break; case 16: run<T, 16>(l); break;
		case 33: run<T, 33>(l); break; case 63: run<T, 63>(l); break; case 64: run<T, 64>(l); break; case 70: run<T, 70>(l); break; default: _exit(97); }
}
static void go(Line &l)
{
	int m = l.i(); std::string t = l.s();
	if (t == "c") sized<char>(m, l); else if (t == "C") sized<unsigned char>(m, l); else if (t == "s") sized<short>(m, l); else if (t == "S") sized<unsigned short>(m, l);
	else if (t == "i") sized<int>(m, l); else if (t == "I") sized<unsigned>(m, l); else if (t == "l") sized<long>(m, l); else if (t == "L") sized<unsigned long>(m, l);
	else if (t == "f") sized<float>(m, l); else if (t == "d") sized<double>(m, l); else _exit(97);
}
int main(int, char **a) { init(); each_line(a[1], go); return 0; }
