/* C14 C15: one run per line: <user data size> <number of strings> strings... ops
 * a string is r<hex byte>x<count>,... ; ops: add s | find s | write s (marks the slot of s) | check | enum | free
 * Slots are numbered by first appearance of their address. */
#include "calls.h"
#include <map>
#include "coda/stringstorage.h"
extern "C" void *string_storage_find(string_storage *, const char *);
using namespace drv;
static std::map<std::string, int> names; static std::map<void *, int> slots; static std::map<int, void *> addr; static Arr *calls; static size_t ud; static int marks;
static int slot(void *p) { if (!p) return 0; int &n = slots[p]; if (!n) { n = slots.size(); addr[n] = p; } return n; }
static int value(void *p) { unsigned char *c = (unsigned char *) p; if (!ud) return -1; int m = c[0]; for (size_t i = 0; i < ud; ++i) if (c[i] != (unsigned char) (m ? m + i * 7 : 0)) return 999; return m ? m : -1; }
static void cb(void *u, const char *key, void *v) { std::map<std::string, int>::iterator i = names.find(key); Arr p; p.raw(num(u == (void *) &names && i != names.end() ? i->second : 0)).raw(num(slots.count(v) ? slots[v] : -5)); calls->raw(p.end()); }
static void run(Line &l)
{
	string_storage ss; names.clear(); slots.clear(); addr.clear(); marks = 0; std::map<int, bool> live; Arr ops, lens; std::vector<std::string> tab(1);
	ud = l.i(); int n = l.i(); for (int i = 1; i <= n; ++i) { std::string d = l.s(), s; size_t p = 0; if (d != "-") while (p < d.size()) { int c = strtol(d.substr(p, 2).c_str(), 0, 16); size_t e = d.find(',', p); s.append(atoi(d.substr(p + 3, e - p - 3).c_str()), (char) c); p = e == std::string::npos ? d.size() : e + 1; }
		tab.push_back(s); names[s] = i; lens.raw(num(s.size())); }
	string_storage_init(&ss, ud);
	while (l.more()) {
		std::string f = l.s(); Obj o; o.t("f", f);
		if (f == "add") { int s = l.i(); CStr c(tab[s]); void *p = string_storage_add(&ss, c.p); int r = slot(p); bool fresh = r && !live[r]; if (r) live[r] = true; o.n("s", s).n("r", r).n("v", fresh ? value(p) : 0); }
		else if (f == "find") { int s = l.i(); CStr c(tab[s]); o.n("s", s).n("r", slot(string_storage_find(&ss, c.p))); }
		else if (f == "finds") { Arr a, b; int m = l.i(); while (m--) { int s = l.i(); CStr c(tab[s]); a.raw(num(s)); b.raw(num(slot(string_storage_find(&ss, c.p)))); } o.raw("ss", a.end()).raw("rs", b.end()); }
		else if (f == "write") { int s = l.i(); CStr c(tab[s]); void *p = string_storage_find(&ss, c.p); if (!p || !ud) continue; int m = 1 + marks++ % 250; for (size_t i = 0; i < ud; ++i) ((unsigned char *) p)[i] = (unsigned char) (m + i * 7); o.n("n", slot(p)).n("v", m); }
		else if (f == "check") { Arr a; for (std::map<int, void *>::iterator i = addr.begin(); i != addr.end(); ++i) a.raw(num(value(i->second))); o.raw("all", a.end()); }
		else if (f == "enum") { Arr a; calls = &a; string_storage_enumerate(&ss, cb, &names); o.raw("calls", a.end()); }
		else if (f == "free") { string_storage_free(&ss); string_storage_init(&ss, ud); slots.clear(); addr.clear(); live.clear(); }
		else _exit(97);
		ops.raw(o.end());
	}
	string_storage_free(&ss);
	emit(Obj().n("ud", ud).raw("len", lens.end()).raw("ops", ops.end()).end());
}
int main(int, char **a) { init(); each_line(a[1], run); return 0; }
