/* C26/C27 XML binding: bindings built at run time from the script */
#include "drv.h"
#include "coda/txml.hpp"
#include <dirent.h>
#include <memory>
#include <exception>
using namespace drv;
struct Slot; typedef std::vector<Slot> Schema;
struct Slot { std::string n, ty, it; std::shared_ptr<Schema> sub; };
static const Schema *next_schema;          /* binding of the next default-constructed Dyn */
struct Value;
static bool chained; static int unsaid;      /* members after the one that took the piece are not tried; members set though said not to be */
static std::string show(const Slot &, const Value &);
struct Dyn : coda::txml_determination_object { const Schema *sch; std::vector<Value> v; Dyn(); void determine(coda::txml_parser *p); };
struct Value {
	std::string s; bool b; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; uint8_t u8; float flt; double dbl; long double ld;
	std::vector<Dyn> st;   /* 0 or 1 */
#define EACH(X) X(str,std::string) X(i32,int32_t) X(u32,uint32_t) X(i64,int64_t) X(u64,uint64_t) X(u8,uint8_t) X(flt,float) X(dbl,double) X(ld,long double) X(st,Dyn)
#define F(n,t) std::list<t> l_##n; std::vector<t> v_##n;
	EACH(F)
#undef F
	std::list<bool> l_b;
	Value() : s("init"), b(true), i32(77), u32(77), i64(77), u64(77), u8(77), flt(77), dbl(77), ld(77) {}
};
Dyn::Dyn() : sch(next_schema), v(sch->size()) { for (size_t i = 0; i < v.size(); ++i) if ((*sch)[i].ty == "st") { next_schema = (*sch)[i].sub.get(); v[i].st.push_back(Dyn()); } }
void Dyn::determine(coda::txml_parser *p)
{
	for (size_t i = 0; i < sch->size(); ++i)
	{
		const Slot &s = (*sch)[i]; Value &x = v[i]; bool took = false; std::string was = chained ? show(s, x) : ""; next_schema = s.sub.get();
		if (s.ty == "str") took = p->determineMember(s.n, x.s); else if (s.ty == "b") took = p->determineMember(s.n, x.b);
		else if (s.ty == "i32") took = p->determineMember(s.n, x.i32); else if (s.ty == "u32") took = p->determineMember(s.n, x.u32);
		else if (s.ty == "i64") took = p->determineMember(s.n, x.i64); else if (s.ty == "u64") took = p->determineMember(s.n, x.u64);
		else if (s.ty == "u8") took = p->determineMember(s.n, x.u8); else if (s.ty == "flt") took = p->determineMember(s.n, x.flt);
		else if (s.ty == "dbl") took = p->determineMember(s.n, x.dbl); else if (s.ty == "ld") took = p->determineMember(s.n, x.ld);
		else if (s.ty == "st") took = p->determineMember(s.n, x.st[0]);
		else if (s.ty == "list") {
			if (s.it == "b") took = p->determineMember(s.n, x.l_b);
#define F(n_,t) else if (s.it == #n_) took = p->determineMember(s.n, x.l_##n_);
			EACH(F)
#undef F
		} else {
			if (0) ;
#define F(n_,t) else if (s.it == #n_) took = p->determineMember(s.n, x.v_##n_);
			EACH(F)
#undef F
		}
		/* what it returns says whether the member took it: a binding may stop there (no two of the same name) */
		if (chained && took) break;
		if (chained && was != show(s, x)) ++unsaid;
	}
}
static std::string out(const std::string &s) { return arr(s); }
template <class T> static std::string dec(T v) { return arr(std::to_string(v)); }
static std::string out(bool b) { return arr(b ? "1" : "0"); }
static std::string out(int32_t v) { return dec(v); } static std::string out(uint32_t v) { return dec(v); } static std::string out(int64_t v) { return dec(v); }
static std::string out(uint64_t v) { return dec(v); } static std::string out(uint8_t v) { return dec((unsigned) v); }
static std::string quart(long double v) { long double q = v * 4; return q == (long long) q ? dec((long long) q) : arr("?"); }
static std::string out(float v) { return quart(v); } static std::string out(double v) { return quart(v); } static std::string out(long double v) { return quart(v); }
static std::string out(const Dyn &d);
template <class C> static std::string all(const C &c) { Arr a; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) a.raw(out(*i)); return a.end(); }
static std::string show(const Slot &s, const Value &x)
{
	if (s.ty == "str") return (out(x.s)); else if (s.ty == "b") return (out(x.b)); else if (s.ty == "i32") return (out(x.i32)); else if (s.ty == "u32") return (out(x.u32));
	else if (s.ty == "i64") return (out(x.i64)); else if (s.ty == "u64") return (out(x.u64)); else if (s.ty == "u8") return (out(x.u8)); else if (s.ty == "flt") return (out(x.flt));
	else if (s.ty == "dbl") return (out(x.dbl)); else if (s.ty == "ld") return (out(x.ld)); else if (s.ty == "st") return (out(x.st[0]));
	else if (s.ty == "list" && s.it == "b") return (all(x.l_b));
#define F(n_,t) else if (s.it == #n_) return (s.ty == "list" ? all(x.l_##n_) : all(x.v_##n_));
	EACH(F)
#undef F
	return "";
}
static std::string out(const Dyn &d)
{
	Arr a;
	for (size_t i = 0; i < d.sch->size(); ++i)
	{
		a.raw(show((*d.sch)[i], d.v[i]));
	}
	return a.end();
}
static std::shared_ptr<Schema> schema(Line &l)
{
	std::shared_ptr<Schema> r(new Schema); int n = l.i();
	while (n--) { Slot s; s.n = l.b(); s.ty = l.s(); if (s.ty == "list" || s.ty == "vec") s.it = l.s(); if (s.ty == "st" || s.it == "st") s.sub = schema(l); r->push_back(s); }
	return r;
}
static std::string js(const Schema &s) { Arr a; for (size_t i = 0; i < s.size(); ++i) a.raw(Obj().b("n", s[i].n).t("ty", s[i].ty).t("it", s[i].it).raw("sub", s[i].sub ? js(*s[i].sub) : "[]").end()); return a.end(); }
static bool distinct(const Schema &s) { for (size_t i = 0; i < s.size(); ++i) { for (size_t j = 0; j < i; ++j) if (s[i].n == s[j].n) return false; if (s[i].sub && !distinct(*s[i].sub)) return false; } return true; }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static bool names(const std::string &m) { for (int c = 1; c < 60; ++c) { const char *s = XML_ErrorString((XML_Error) c); if (s && *s && m.find(s) != m.npos) return true; } return false; }
template <class Fn> static std::string load(const Schema *s, const std::string &by, Fn f)
{
	next_schema = s; Dyn d; int r = 0, nm = 0; unsaid = 0;
	try { f(d); } catch (const std::exception &e) { r = 1; nm = names(e.what()); } catch (...) { r = 2; }
	return Obj().t("by", by).n("r", r).n("nm", nm).n("unsaid", unsaid).raw("o", r ? "[]" : out(d)).end();
}
static void call(Line &l)
{
	std::string f = l.s(); int n0 = fds();
	if (f == "load")
	{
		std::shared_ptr<Schema> s = schema(l); std::string x = l.b(); Arr a;
		{ Exact e(x); a.raw(load(s.get(), "len", [&](Dyn &d) { d.load_from_string(e.p, e.n); })); }
		if (distinct(*s) && x.size() < 4000) { chained = true; Exact e(x); a.raw(load(s.get(), "chain", [&](Dyn &d) { d.load_from_string(e.p, e.n); })); chained = false; }
		if (x.find('\0') == x.npos) { std::vector<char> z(x.begin(), x.end()); z.push_back(0); a.raw(load(s.get(), "str", [&](Dyn &d) { d.load_from_string(&z[0]); })); }
		{ FILE *fp = fopen("doc.xml", "w"); fwrite(x.data(), 1, x.size(), fp); fclose(fp); }
		a.raw(load(s.get(), "file", [&](Dyn &d) { d.load_from_file("doc.xml"); }));
		emit(Obj().t("f", f).raw("sch", js(*s)).b("x", x).raw("l", a.end()).n("fd", fds() - n0).end());
	}
	else if (f == "long")   /* one text of n bytes, k items, d levels of what is not bound */
	{
		long n = l.i(), k = l.i(), d = l.i(); std::shared_ptr<Schema> s(new Schema), t(new Schema); Slot r, v, i, a; r.n = "r"; r.ty = "st"; v.n = "s"; v.ty = "str"; a.n = "a"; a.ty = "str"; i.n = "i"; i.ty = "list"; i.it = "u32"; t->push_back(v); t->push_back(i); t->push_back(a); r.sub = t; s->push_back(r);
		std::string body, want, x, at; for (long j = 0; j < n; ++j) { char c = 'a' + j * 7 % 26; want += c; if (j % 97 == 0) { body += "&amp;"; want[j] = '&'; } else if (j % 1009 == 0) { body += "&#10;"; want[j] = '\n'; } else body += c; }
		x = "<r a=\"" + body + "\">"; for (long j = 0; j < d; ++j) x += "<z>"; for (long j = 0; j < d; ++j) x += "</z>"; x += "<s>" + body + "</s>"; for (long j = 0; j < k; ++j) x += "<i>" + num(j) + "</i>"; x += "</r>"; Arr out; std::vector<char> z(x.begin(), x.end()); z.push_back(0); { FILE *fp = fopen("doc.xml", "w"); fwrite(x.data(), 1, x.size(), fp); fclose(fp); }
		for (int by = 0; by < 3; ++by) { next_schema = s.get(); Dyn D; int err = 0; try { if (by == 0) D.load_from_string(x.data(), x.size()); else if (by == 1) D.load_from_string(&z[0]); else D.load_from_file("doc.xml"); } catch (...) { err = 1; }
			Dyn &R = D.v[0].st[0]; bool ok = !err && R.v[0].s == want && R.v[2].s == want && R.v[1].l_u32.size() == (size_t) k; uint32_t j = 0; for (std::list<uint32_t>::iterator q = R.v[1].l_u32.begin(); q != R.v[1].l_u32.end(); ++q) ok = ok && *q == j++; out.raw(ok ? "true" : "false"); }
		emit(Obj().t("f", f).n("n", n).n("k", k).n("d", d).raw("same", out.end()).n("fd", fds() - n0).end());
	}
	else if (f == "nofile")
	{
		std::string p = l.b(), why = l.b(); Schema s; next_schema = &s; Dyn d; int r = 0, nm = 0;
		try { d.load_from_file(p.c_str()); } catch (const std::exception &e) { r = 1; std::string m = e.what(); nm = m.find(p.substr(0, 2000)) != m.npos && (p.size() > 3000 || m.find(why) != m.npos); } catch (...) { r = 2; }
		emit(Obj().t("f", f).t("p", p).n("r", r).n("nm", nm).n("fd", fds() - n0).end());
	}
	else _exit(97);
}
int main(int, char **a) { init(); each_line(a[1], call); unlink("doc.xml"); return 0; }
