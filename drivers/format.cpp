/* C25 formatting */
#include "calls.h"
#include "coda/string.hpp"
using namespace drv;
static std::string rle(const std::string &s) { Arr a; for (size_t i = 0; i < s.size(); ) { size_t j = i; while (j < s.size() && s[j] == s[i]) ++j; Arr p; p.raw(num((unsigned char) s[i])).raw(num(j - i)); a.raw(p.end()); i = j; } return a.end(); }
static std::string text(Line &l) { std::string r; int n = l.i(); while (n--) { int c = l.i(); long k = l.i(); r.append(k, (char) c); } return r; }
static void call(Line &l)
{
	std::string f = l.s(); int fmt = l.i(); std::string a = text(l); int d = l.i(); std::string b = text(l), pre = text(l), out = pre; long pos = l.i(), num = l.i(); int r = 0;
	CStr A(a), Bb(b); const char *x = A.p, *y = Bb.p;
	if (f == "strprintf") out = fmt == 0 ? coda_strprintf("%s", x) : fmt == 1 ? coda_strprintf("%s%d%s", x, d, y) : fmt == 2 ? coda_strprintf("%c%s", d, y) : coda_strprintf(x);
	else if (f == "strappend") r = fmt == 0 ? coda_strappend(out, "%s", x) : fmt == 1 ? coda_strappend(out, "%s%d%s", x, d, y) : fmt == 2 ? coda_strappend(out, "%c%s", d, y) : coda_strappend(out, x);
	else if (f == "strnappend") r = fmt == 0 ? coda_strnappend(out, num, "%s", x) : fmt == 1 ? coda_strnappend(out, num, "%s%d%s", x, d, y) : fmt == 2 ? coda_strnappend(out, num, "%c%s", d, y) : coda_strnappend(out, num, x);
	else if (f == "strnprintf") r = fmt == 0 ? coda_strnprintf(out, pos, num, "%s", x) : fmt == 1 ? coda_strnprintf(out, pos, num, "%s%d%s", x, d, y) : fmt == 2 ? coda_strnprintf(out, pos, num, "%c%s", d, y) : coda_strnprintf(out, pos, num, x);
	else _exit(97);
	emit(Obj().t("f", f).n("fmt", fmt).raw("a", rle(a)).n("d", d).raw("b", rle(b)).raw("pre", rle(pre)).n("pos", pos).n("num", num).n("r", r).raw("out", rle(out)).end());
}
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
