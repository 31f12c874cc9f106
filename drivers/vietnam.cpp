/* C35 */
#include "calls.h"
#include "coda/vietnam.hpp"
using namespace drv;
static void call(Line &l) { std::string in = l.b(); Exact e(in); std::string o = coda_remove_tones_utf8(e.p, e.n); Exact e2(o); emit(Obj().t("f", "tones").b("in", in).b("out", o).b("again", coda_remove_tones_utf8(e2.p, e2.n)).end()); }
int main(int, char **a) { init(); each_line(a[1], call); return 0; }
