/* C40: what a call does is the caller's own affair.  Two real threads run one use of the library each; they are stopped and
 * resumed at chosen points (before every call the compiler emitted, and at accesses to static data), so that exactly one runs.
 * A thread that does not come back within a moment waits for the other: then both run freely.
 *   solo <op> <variant>
 *   pair <cold|warm> <op> <variant> <op> <variant> <limit> <seed>   first stopped at every point (at most limit), second runs to its end or to a point */
#include <semaphore.h>
#include <pthread.h>
#include <link.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <dirent.h>
#include <errno.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <list>
#include "drv.h"
#include "coda/string.h"
#include "coda/string.hpp"
#include "coda/url.hpp"
#include "coda/url_parser.hpp"
#include "coda/base58.h"
#include "coda/base64.h"
#include "coda/web64.h"
#include "coda/vietnam.hpp"
#include "coda/gmtime.h"
#include "coda/error.hpp"
#include "coda/txml.hpp"
#include "coda/stringstorage.h"
#include "coda/cache.hpp"
#include "coda/log_array.hpp"
#include "coda/shm_pool.hpp"
#include "coda/synque.hpp"
#include "coda/system.h"
#include "coda/socket.h"
#include "coda/logger.h"
#include "coda/easy_parsing.hpp"
extern "C" void *string_storage_find(string_storage *, const char *);
using namespace drv;
#define NOI __attribute__((no_sanitize("thread")))
typedef std::string S;
/* ---- points ---- */
extern "C" { __thread int point_on = 0; void point_reached(); }
struct Th { pthread_t t; sem_t go; int op, var, slot, st; long count, stop; bool free; S res; };   /* st: 0 running, 1 stopped, 2 done */
static __thread Th *me = 0; static sem_t ev; static long total = 0;
static uintptr_t seg[64][2]; static int nseg = 0;
static int note_segments(struct dl_phdr_info *i, size_t, void *) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && nseg < 64) { seg[nseg][0] = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; seg[nseg][1] = seg[nseg][0] + i->dlpi_phdr[k].p_memsz; ++nseg; } return 1; /* the program itself only */ }
NOI void point_reached()
{
	Th *m = me; if (!m || !point_on) return;
	if (++m->count != m->stop || __atomic_load_n(&m->free, __ATOMIC_SEQ_CST)) return;
	int on = point_on, e = errno; point_on = 0; __atomic_store_n(&m->st, 1, __ATOMIC_SEQ_CST); sem_post(&ev);
	while (sem_wait(&m->go)) ;
	__atomic_store_n(&m->st, 0, __ATOMIC_SEQ_CST); errno = e; point_on = on;
}
NOI static inline void access_(const void *a) { if (!point_on) return; for (int i = 0; i < nseg; ++i) if ((uintptr_t) a >= seg[i][0] && (uintptr_t) a < seg[i][1]) { point_reached(); return; } }
extern "C" {
#define ACC(n) NOI void __tsan_read##n(void *a) { access_(a); } NOI void __tsan_write##n(void *a) { access_(a); } NOI void __tsan_unaligned_read##n(void *a) { access_(a); } NOI void __tsan_unaligned_write##n(void *a) { access_(a); } \
	NOI void __tsan_volatile_read##n(void *a) { access_(a); } NOI void __tsan_volatile_write##n(void *a) { access_(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOI void __tsan_read_range(void *a, unsigned long) { access_(a); } NOI void __tsan_write_range(void *a, unsigned long) { access_(a); }
NOI void __tsan_init() {} NOI void __tsan_func_entry(void *) {} NOI void __tsan_func_exit() {} NOI void __tsan_vptr_update(void **a, void *) { access_(a); } NOI void __tsan_vptr_read(void **a) { access_(a); }
#define ATO(bits, T) \
	NOI T __tsan_atomic##bits##_load(const volatile T *a, int) { access_((const void *) a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	NOI void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access_((const void *) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access_((const void *) a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access_((const void *) a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access_((const void *) a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access_((const void *) a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access_((const void *) a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access_((const void *) a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	NOI int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access_((const void *) a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	NOI int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { access_((const void *) a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access_((const void *) a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
NOI void __tsan_atomic_thread_fence(int) { __sync_synchronize(); } NOI void __tsan_atomic_signal_fence(int) {}
}
/* ---- uses ---- */
struct In { NOI In() { point_on = 1; } NOI ~In() { point_on = 0; } };
#define IN(...) do { In in__; __VA_ARGS__; } while (0)
static S rep(const S &s, int n) { S r; while (n--) r += s; return r; }
static S sum(const S &s) { if (s.size() < 200) return s; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char) s[i]) * 1099511628211ull; char b[64]; snprintf(b, sizeof b, "[%zu %016llx]", s.size(), (unsigned long long) h); return b; }
static S n2(long long v) { return num(v); }
static const char *hay(int v) { return v ? "xX-needle-IN-The-sTack;aabbcc" : "The quick brown fox JUMPS over: 0123456789 lazy dogs, twice"; }
#define SEARCH(nm, call0) static S nm(int v, int) { const char *h = hay(v); size_t n = strlen(h), r; const char *p; (void) n; (void) p; (void) r; IN(call0); return n2((long) r); }
static const char *al(int v, int k) { static const char *a[2][3] = { { " :,0123456789TefhiknouqrstvwxJMPSUbcdglmpyz", " Tehiq", "sgodcwit ,e" }, { "-NIXTaehknstdl;xX", "Xx", "abc;" } }; return a[v][k]; }
SEARCH(o_strnchr, p = coda_strnchr(h, v ? ';' : 'q', n); r = p ? p - h : -1)
SEARCH(o_strxchr, p = coda_strxchr(h, v ? 'T' : 'Q', n); r = p ? p - h : -1)
SEARCH(o_revnchr, p = coda_revnchr(h + n, v ? 'b' : 'o', n); r = p ? p - h : -1)
SEARCH(o_revxchr, p = coda_revxchr(h + n, v ? 'N' : 'O', n); r = p ? p - h : -1)
SEARCH(o_stristr, p = coda_stristr(h, v ? "in-tHE" : "JUmps"); r = p ? p - h : -1)
SEARCH(o_strnstr, p = coda_strnstr(h, v ? "sTack" : "lazy d", n); r = p ? p - h : -1)
SEARCH(o_strxstr, p = coda_strxstr(h, v ? "STACK" : "LAZY D", n); r = p ? p - h : -1)
SEARCH(o_strnchp, r = coda_strnchp(h, v ? ';' : 'q', n))
SEARCH(o_strxchp, r = coda_strxchp(h, v ? 'T' : 'Q', n))
SEARCH(o_strispn, r = coda_strispn(h, al(v, 0)))
SEARCH(o_strnspn, r = coda_strnspn(h, al(v, 0), n))
SEARCH(o_strxspn, r = coda_strxspn(h, v ? "-DEHIKLNSTX" : " BCFHIJKMNOPQRSTUVWXE", n))
SEARCH(o_revnspn, r = coda_revnspn(h + n, al(v, 0), n))
SEARCH(o_revxspn, r = coda_revxspn(h + n, v ? ";ABC" : " ,CDEGIOSTW", n))
SEARCH(o_strispc, r = coda_strispc(h, v ? "S;" : "XJ"))
SEARCH(o_strnspc, r = coda_strnspc(h, v ? ";T" : "JP", n))
SEARCH(o_strxspc, r = coda_strxspc(h, v ? ";S" : "XZ", n))
SEARCH(o_revnspc, r = coda_revnspc(h + n, v ? "-N" : ":X", n))
SEARCH(o_revxspc, r = coda_revxspc(h + n, v ? "-K" : ":Z", n))
SEARCH(o_atoi, const char *d = v ? "-9223372036854775807" : "31415926"; r = coda_atoi(d, strlen(d)))
static S o_strprintf(int v, int) { S a; if (v) IN(a = coda_strprintf("%s-%d-%s", "left", 12345, "right")); else IN(a = coda_strprintf("<%d|%s>", 77, "middle")); return a; }
static S o_strprintf_long(int v, int) { S a, t(v ? 700 : 300, v ? 'q' : 'w'); IN(a = coda_strprintf("%s/%d", t.c_str(), v)); return sum(a); }
static S o_strprintf_huge(int v, int) { S a, t(v ? 50000 : 40000, v ? 'q' : 'w'); IN(a = coda_strprintf("%s/%d", t.c_str(), v)); return sum(a); }
static S o_strappend(int v, int) { S a("start:"); int r, q; IN(r = coda_strappend(a, "%d,%s", v + 1, v ? "longer text here" : "x"); q = coda_strappend(a, "%c%c", v ? 'A' : 'B', 'z')); return a + n2(r) + n2(q); }
static S o_strnappend(int v, int) { S a("s"); int r; IN(r = coda_strnappend(a, v ? 5 : 9, "%s", v ? "abcdefghijkl" : "ABCDEFGHIJKLMNOP")); return a + n2(r); }
static S o_strnprintf(int v, int) { S a("0123456789"); int r; IN(r = coda_strnprintf(a, v ? 3 : 6, v ? 40 : 4, "%s", v ? "abcdefghijkl" : "ABCDEFGHIJKLMNOP")); return a + n2(r); }
static S o_stringset(int v, int) { std::set<S> x; IN(coda_get_stringset(v ? "one, two;three" : "a b,c , dd eee,ffff", x)); S r; for (std::set<S>::iterator i = x.begin(); i != x.end(); ++i) r += *i + "|"; return r; }
static S o_uint64set(int v, int) { std::set<uint64_t> x; IN(coda_get_uint64set(v ? "18446744073709551615,7" : "1,2, 3,44,555", x)); S r; for (std::set<uint64_t>::iterator i = x.begin(); i != x.end(); ++i) r += num(*i) + "|"; return r; }
static S join(const std::vector<S> &x) { S r; for (size_t i = 0; i < x.size(); ++i) r += x[i] + "|"; return r; }
static S o_split(int v, int) { std::vector<S> x; IN(x = coda_split_string(v ? "a:b::c:dd" : ";first;;second;third", v ? ":" : ";", v)); return join(x); }
static S o_splitn(int v, int) { std::vector<S> x; const char *s = v ? "k=v&&kk=vv" : "alpha beta\tgamma  delta"; IN(x = coda_split_string(s, strlen(s) - 1, v ? "&=" : " \t", !v)); return join(x); }
static S o_next_word(int v, int) { S r; const char *s = v ? "  one\ttwo three" : "lorem ipsum  dolor sit"; const char *b = s, *e = s; for (int i = 0; i < 9; ++i) { int k; IN(k = get_next_word(b, e)); if (k != 1) { r += n2(k); break; } r += S(b, e - b) + "|"; b = e; } return r; }
static S pr(const std::map<S, S> &m) { S r; for (std::map<S, S>::const_iterator i = m.begin(); i != m.end(); ++i) r += i->first + "=" + i->second + ";"; return r; }
static S o_params(int v, int) { coda_params_t m; int r; const char *s = v ? "x=%41%42&y=1+2&zed" : "name=J%C3%B6rg&name=second&empty=&q=a%2Bb"; IN(r = coda_get_params(m, s)); return pr(m) + n2(r); }
static S o_params_buf(int v, int) { coda_params_t m; int r; const char *s = v ? "u=%7e%7E&w=1" : "k1=v1&k2=v%202&k3"; IN(r = coda_get_params_buf(m, s, strlen(s))); return pr(m) + n2(r); }
static S o_header(int v, int) { coda_header_t m; int r; const char *s = v ? "A:1\r\nB: 2\r\n\r\nrest" : "Host: example.org\r\nCookie:session=abc\r\nX:y"; IN(r = coda_get_header(m, s)); return pr(m) + n2(r); }
static S o_header_buf(int v, int) { coda_header_t m; int r; const char *s = v ? "Aaa:x\r\nBB:yy" : "One: 1\r\nTwo: 2\r\nTwo: 3\r\n\r\n"; IN(r = coda_get_header_buf(m, s, strlen(s))); return pr(m) + n2(r); }
static S o_urlenc(int v, int) { S r; IN(r = coda_urlenc(S(v ? "a b/c\xd0\xb0&" : "spaces and \x01\xff marks?"))); return r; }
static S o_urlenc_np(int v, int) { S r; IN(r = coda_urlenc_noplus(S(v ? "plus + and space" : "\x80\x81 x"))); return r; }
static S o_urlenc_np2(int v, int) { S r; const char *s = v ? "two  spaces" : "tab\there#"; IN(r = coda_urlenc_noplus(s, strlen(s))); return r; }
static S o_urlenc_p(int v, int) { S r; const char *s = v ? "q=1&r=2" : "[brackets]{braces}"; IN(r = coda_urlenc(s, strlen(s))); return r; }
static S o_urlenc_buf(int v, int) { char b[200]; size_t n; const char *s = v ? "<a href='x'>" : "100% \xe2\x82\xac"; IN(n = coda_urlenc(b, s, strlen(s))); return S(b, n); }
static S o_urldec(int v, int) { S r; IN(r = coda_urldec(S(v ? "%41%42+%43" : "x%20y%2Fz%zz+%"))); return r; }
static S o_urldec_p(int v, int) { S r; const char *s = v ? "a+b%3D" : "%D0%B6+%D1%8F"; IN(r = coda_urldec(s, strlen(s))); return r; }
static S o_urldec_buf(int v, int) { char b[200]; size_t n; const char *s = v ? "%30%31%32rest" : "no escapes+one"; IN(n = coda_urldec(b, s, strlen(s))); return S(b, n); }
static S o_unescape(int v, int) { char b[100]; memset(b, 0, sizeof b); IN(coda_url_unescape(v ? "a%20b%41" : "%u0436x%7e+", b, sizeof b)); return b; }
static S o_escape(int v, int) { char b[100]; memset(b, 0, sizeof b); IN(coda_url_escape(v ? "a b\xff" : "\x01punct!*()", b, sizeof b)); return b; }
static S o_preunescape(int v, int) { char b[100]; memset(b, 0, sizeof b); IN(coda_url_preunescape(v ? "%61%2f%25" : "x%3Fy%23z", b, sizeof b)); return b; }
static S show(const coda_url &u) { return S(u.get_url()) + " " + u.get_domain() + n2(u.get_url_len()) + "," + n2(u.get_domain_len()) + ";"; }
static S o_url_abs(int v, int) { coda_url u; int r; const char *s = v ? "HTTPS://www.Example.com:80/a/../b?q#f" : "http://Sub.Domain.org/x/./y/../z/"; IN(r = u.create_absolute(s, strlen(s), 0)); return show(u) + n2(r); }
static S o_url_rel(int v, int) { coda_url p, u, w; int r, q; const char *s = v ? "http://host.net/dir/page?x=1" : "https://other.example/a/b/c/d"; const char *t = v ? "../up?y#z" : "/rooted/./path"; IN(r = p.create_absolute(s, strlen(s), 0); q = u.create_relative(t, strlen(t), 0, p); w = u); return show(p) + show(u) + show(w) + n2(r) + n2(q); }
static S o_url_copy(int v, int) { coda_url u; const char *s = v ? "http://aaa.com" : "http://b.c.d/eee?fff"; S o; IN(u.create_absolute(s, strlen(s), 0); coda_url w(u); coda_url x; x = w; u = coda_url(); o = show(u) + show(w) + show(x)); return o; }
static S bytes(int v) { S s; for (int i = 0; i < (v ? 23 : 41); ++i) s.push_back((char) (i * (v ? 37 : 91) + v)); return s; }
static S o_b58enc(int v, int) { char *o = 0; size_t n; S s = bytes(v); IN(n = coda_base58_encode_alloc(s.data(), s.size(), &o)); S r(o ? o : "", o ? n : 0); free(o); return r; }
static S o_b58enc_buf(int v, int) { char o[100]; S s = bytes(!v); memset(o, '~', sizeof o); IN(coda_base58_encode(s.data(), s.size(), o, 80)); return S(o, 81); }
static S o_b58dec(int v, int) { char *o = 0; ssize_t n; const char *s = v ? "2NEpo7TZRRrLZSi2U" : "11ZiCa5bDPT7vvWQ9qkH3AYBZ"; IN(n = coda_base58_decode_alloc(s, strlen(s), &o)); S r = n2(n); if (n > 0) r += arr(o, n); if (n >= 0) free(o); return r; }
static S o_b58dec_buf(int v, int) { char o[100]; ssize_t n; const char *s = v ? "USm3fpXnKG5EUBx2ndxBDMPVciP5hGey2Jh4NDv6gmeo1LkMeiKrLJUUBk6Z" : "Cn8eVZg"; memset(o, 0, sizeof o); IN(n = coda_base58_decode(s, strlen(s), o)); return n2(n) + (n > 0 ? arr(o, n) : S()); }
static S o_b64enc(int v, int) { char *o = 0; size_t n; S s = bytes(v); IN(n = coda_base64_encode_alloc(s.data(), s.size(), &o)); S r(o ? o : "", o ? n : 0); free(o); return r; }
static S o_b64enc_buf(int v, int) { char o[100]; S s = bytes(!v); memset(o, '~', sizeof o); IN(coda_base64_encode(s.data(), s.size(), o, 90)); return S(o, 91); }
static S o_b64dec(int v, int) { char *o = 0; size_t n = 0; bool ok; const char *s = v ? "SGVsbG8sIFdvcmxkIQ==" : "AQIDBAUGBwgJCgsMDQ4P"; IN(ok = coda_base64_decode_alloc(s, strlen(s), &o, &n)); S r = n2(ok) + (ok ? arr(o, n) : S()); free(o); return r; }
static S o_b64dec_buf(int v, int) { char o[100]; size_t n = 90; bool ok; const char *s = v ? "Zm9vYmFy" : "////++++AAAA"; IN(ok = coda_base64_decode(s, strlen(s), o, &n)); return n2(ok) + arr(o, n); }
static S o_w64enc(int v, int) { char o[100]; S s = bytes(v); memset(o, '~', sizeof o); IN(web64_encode(s.data(), s.size(), o, 90)); return S(o, 91); }
static S o_w64dec(int v, int) { char o[100]; size_t n = 90; bool ok; const char *s = v ? "Zm9vYmFy_-_-" : "AAECAwQFBgc="; IN(ok = web64_decode(s, strlen(s), o, &n)); return n2(ok) + arr(o, n); }
static S o_tones(int v, int) { S r; const char *s = v ? "\xc4\x91\xc6\xb0\xe1\xbb\x9dng \xe1\xba\xa3i" : "Ti\xe1\xba\xbfng Vi\xe1\xbb\x87t \xc3\x82u \xe1\xbb\xb4"; IN(r = coda_remove_tones_utf8(s, strlen(s))); return r; }
static S o_gmtime(int v, int) { struct tm m; memset(&m, 0, sizeof m); IN(coda_gmtime(v ? 951782399L : 1700000001L, &m)); char b[100]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d %d", m.tm_year, m.tm_mon, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec, m.tm_wday); return b; }
static S o_inet(int v, int) { in_addr_t a; const char *s = v ? "10.20.30.40" : "255.254.1.2"; IN(a = coda_inet_addr(s, strlen(s))); return n2(a); }
static S o_error(int v, int) { S r, q; IN(coda_error e("%s %d", v ? "first text" : "another", v + 5); coda_error f(e); r = f.what(); q = e.what()); return r + q; }
static S o_errno(int v, int) { S r; IN(coda_error e = coda_errno(v ? 2 : 13, "at %d", v); r = e.what()); return r; }
static S o_strerror(int v, int) { S r; IN(const char *s = coda_strerror(v ? 4711 : 2); r = s; r += coda_strerror(v ? 1 : 9999); r += s); return r; }
struct Leaf : coda::txml_determination_object { S name; int32_t num; std::vector<S> tag; Leaf() : num(0) {} void determine(coda::txml_parser *p) { txml_member(p, name); txml_member(p, num); txml_member(p, tag); } };
struct Root : coda::txml_determination_object { S title; uint64_t big; double d; bool b; std::list<Leaf> leaf; Root() : big(0), d(0), b(false) {} void determine(coda::txml_parser *p) { txml_member(p, title); txml_member(p, big); txml_member(p, d); txml_member(p, b); txml_member(p, leaf); } };
struct Doc : coda::txml_determination_object { Root r; void determine(coda::txml_parser *p) { txml_member(p, r); } };
static S xml(int v) { return v ? "<r><title>alpha &amp; omega</title><leaf><name>n1</name><num>-5</num><tag>t1</tag><tag>t2</tag></leaf><b>true</b></r>" : "<r><big>18446744073709551615</big><d>2.5</d><leaf><num>77</num></leaf><leaf><name>second</name></leaf><title>T</title></r>"; }
static S show(const Root &x) { S r = x.title + "/" + num(x.big) + "/" + num((long) (x.d * 100)) + "/" + num(x.b); for (std::list<Leaf>::const_iterator i = x.leaf.begin(); i != x.leaf.end(); ++i) r += "{" + i->name + "," + num(i->num) + "," + join(i->tag) + "}"; return r; }
static S o_xml(int v, int) { Doc x; S s = xml(v), w; try { IN(x.load_from_string(s.c_str(), s.size())); } catch (std::exception &e) { w = "raised"; } return show(x.r) + w; }
static S o_xml_bad(int v, int) { Doc x; S s = xml(v), w; s.resize(s.size() - (v ? 5 : 40)); try { IN(x.load_from_string(s.c_str())); } catch (std::exception &e) { w = e.what(); } return w; }
static S dir(int slot) { char b[64]; snprintf(b, sizeof b, "re.%d.%d", (int) getpid(), slot); return b; }
static void rmtree(const S &p) { DIR *d = opendir(p.c_str()); if (d) { while (struct dirent *e = readdir(d)) { S n = e->d_name; if (n == "." || n == "..") continue; S q = p + "/" + n; struct stat st; if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(q); else unlink(q.c_str()); } closedir(d); } rmdir(p.c_str()); }
static S o_xml_file(int v, int slot) { Doc x; S d = dir(slot), w; mkdir(d.c_str(), 0777); S f = d + (v ? "/a.xml" : "/other-name.xml"); FILE *o = fopen(f.c_str(), "w"); S t = xml(v); fwrite(t.data(), 1, t.size(), o); fclose(o); try { IN(x.load_from_file(f.c_str())); } catch (std::exception &e) { w = "raised"; } rmtree(d); return show(x.r) + w; }
static S o_mkpath(int v, int slot) { S d = dir(slot), r; std::vector<char> p; S t = d + (v ? "/aaa/bbb/file" : "/long-directory-name/second/third/x"); p.assign(t.begin(), t.end()); p.push_back(0); int k; IN(k = coda_mkpath(&p[0])); r = n2(k); struct stat st; S q = t.substr(0, t.rfind('/')); r += n2(!stat(q.c_str(), &st) && S_ISDIR(st.st_mode)); r += n2(stat(t.c_str(), &st)); r += n2(t == &p[0]); rmtree(d); return r; }
static S o_mmap(int v, int slot) { S d = dir(slot); mkdir(d.c_str(), 0777); S f = d + (v ? "/m" : "/mapped-file"), c = rep(v ? "xyz" : "content ", 30); FILE *o = fopen(f.c_str(), "w"); fwrite(c.data(), 1, c.size(), o); fclose(o); coda_strt a; memset(&a, 0, sizeof a); int k; IN(k = coda_mmap(&a, PROT_READ, MAP_SHARED, f.c_str())); S r = n2(k); if (k >= 0) { r += n2(S(a.data, a.size) == c) + n2(a.size); munmap(a.data, a.size); } rmtree(d); return r; }
static S o_pidf(int v, int slot) { S d = dir(slot); mkdir(d.c_str(), 0777); S f = d + (v ? "/p" : "/longer.pid"); int fd; IN(fd = coda_mkpidf(f.c_str())); S r = n2(fd); FILE *i = fopen(f.c_str(), "r"); long q = 0; if (i) { if (fscanf(i, "%ld", &q) != 1) q = -1; fclose(i); } r += n2(q == (long) getpid()); rmtree(d); return r; }
static S o_pair(int v, int) { int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return "none"; S t = v ? "ping" : "another message", r; char b[100]; int n, k; IN(k = coda_unix_send(s[0], (void *) t.data(), t.size()); n = coda_unix_recv(s[1], b, sizeof b)); r = n2(k) + n2(n) + S(b, n > 0 ? n : 0); close(s[0]); close(s[1]); return r; }
static void seen(void *u, const char *k, void *x) { int on = point_on; point_on = 0; *(S *) u += S(k) + ":" + (const char *) x + ";"; point_on = on; }
static S o_storage(int v, int) { string_storage ss; const char *w[] = { "alpha", "alphabet", "al", "beta", "", "alpine" }; S r; IN(string_storage_init(&ss, 8); for (int i = v; i < 6; ++i) { char *p = (char *) string_storage_add(&ss, w[i]); if (p) { p[0] = 'a' + i; p[1] = 0; } } ); IN(for (int i = 0; i < 6; ++i) { char *p = (char *) string_storage_find(&ss, w[i]); r += p ? p : "-"; }); IN(string_storage_enumerate(&ss, seen, &r)); IN(string_storage_free(&ss)); return r; }
static S o_cache(int v, int) { S r; coda_cache<S, S> *c; IN(c = new coda_cache<S, S>(v ? 200 : 400, 0)); for (int i = 0; i < 6; ++i) IN(c->set(num(i), rep(v ? "v" : "wx", i + 1), false)); IN(c->erase(S("4"))); for (int i = 0; i < 6; ++i) { S x("none"); IN(c->get(num(i), x)); r += x + ","; } S d; IN(c->dbg(d, 0)); r += d.substr(0, d.find("time_max")); delete c; return r; }
static S o_logarr(int v, int) { S r; coda::log_array<long> a, b; IN(for (long i = 1; i < 300; i += v ? 7 : 11) a.get_by_value(i) += i; b.get_by_value(5) = 9; a.swap(b)); for (int i = 0; i < 8; ++i) r += num(a.get_at(i)) + "," + num(b.get_at(i)) + ";"; return r; }
static S o_pool(int v, int) { S r; typedef shm::pool<long, 6> P; P p; char *h = (char *) calloc(1, p.header_size()), *s = (char *) calloc(1, p.stack_size()), *d = (char *) calloc(1, p.data_size()); IN(p.attach(h, s, d)); for (int i = 0; i < (v ? 4 : 7); ++i) { uint32_t k; IN(k = p.allocate()); r += num((int) k) + ","; } IN(p.free(v + 1); p.free(v)); for (int i = 0; i < 2; ++i) { uint32_t k; IN(k = p.allocate()); r += num((int) k) + ","; } r += num(p.allocated_objects()); p.detach(); free(h); free(s); free(d); return r; }
static S o_pool_bad(int v, int) { S r; typedef shm::pool<long, 6> P; typedef shm::pool<int, 5> Q; P p; Q q; char *h = (char *) calloc(1, 1024), *s = (char *) calloc(1, 1024), *d = (char *) calloc(1, 1024); try { IN(if (v) { p.attach(h, s, d); q.attach(h, s, d); } else { q.attach(h, s, d); p.attach(h, s, d); }); } catch (std::exception &e) { r = e.what(); } free(h); free(s); free(d); return r; }
static S o_synque(int v, int) { S r; coda::synque<S> q; IN(for (int i = 0; i < 5; ++i) q.add((v ? "element " : "e") + num(i))); S e; int k; IN(k = q.get(e, 0)); r = e + n2(k); std::deque<S> d; IN(k = q.get(d, v ? 2 : 9, 0)); for (size_t i = 0; i < d.size(); ++i) r += d[i]; r += n2(k) + n2(q.size()); return r; }
static S o_name(int v, int) { const char *n = v ? "worker-one" : "second"; int k; const char *g = 0; IN(k = log_thread_name_set(n); g = log_thread_name_get()); S r = n2(k) + (g ? g : "~"); char *b = 0; size_t z = 0; FILE *f = open_memstream(&b, &z); IN(log_fmt(f, LOG_error, "error", "%s %d", v ? "text" : "a longer text", v)); fclose(f); S t(b, z); free(b); r += t.size() > 23 ? t.substr(23) : t; return r; }
static S o_levels(int v, int) { int k; IN(k = log_levels(v ? "warn" : "alert")); return n2(k); }
/* things both threads only read */
static coda_url *sh_url = 0; static string_storage sh_ss;
static void shared_things() { sh_url = new coda_url(); const char *s = "http://Parent.example.com/one/two/three?x#y"; sh_url->create_absolute(s, strlen(s), 0); string_storage_init(&sh_ss, 4); const char *w[] = { "car", "cart", "carton", "dog", "do", "a" }; for (int i = 0; i < 6; ++i) { char *p = (char *) string_storage_add(&sh_ss, w[i]); if (p) { p[0] = 'A' + i; p[1] = 0; } } }
static S o_sh_rel(int v, int) { coda_url u; int r; const char *s = v ? "../../up/and/down" : "four?q=1"; IN(r = u.create_relative(s, strlen(s), 0, *sh_url)); return show(u) + show(*sh_url) + n2(r); }
static S o_sh_copy(int v, int) { coda_url u, w; IN(u = *sh_url; coda_url x(*sh_url); if (v) w = x); return show(u) + show(w); }
static S o_sh_find(int v, int) { S r; const char *w[] = { "carton", "dog", "ca", "cart", "a", "", "car" }; for (int i = v; i < 7; ++i) { char *p; IN(p = (char *) string_storage_find(&sh_ss, w[i])); r += p ? p : "-"; } return r; }
static S o_sh_enum(int, int) { S r; IN(string_storage_enumerate(&sh_ss, seen, &r)); return r; }
static struct Op { const char *name; S (*f)(int, int); } ops[] = {
#define O(n) { #n, o_##n },
O(strnchr) O(strxchr) O(revnchr) O(revxchr) O(stristr) O(strnstr) O(strxstr) O(strnchp) O(strxchp) O(strispn) O(strnspn) O(strxspn) O(revnspn) O(revxspn) O(strispc) O(strnspc) O(strxspc) O(revnspc) O(revxspc) O(atoi)
O(strprintf) O(strprintf_long) O(strprintf_huge) O(strappend) O(strnappend) O(strnprintf) O(stringset) O(uint64set) O(split) O(splitn) O(next_word) O(params) O(params_buf) O(header) O(header_buf)
O(urlenc) O(urlenc_np) O(urlenc_np2) O(urlenc_p) O(urlenc_buf) O(urldec) O(urldec_p) O(urldec_buf) O(unescape) O(escape) O(preunescape) O(url_abs) O(url_rel) O(url_copy)
O(b58enc) O(b58enc_buf) O(b58dec) O(b58dec_buf) O(b64enc) O(b64enc_buf) O(b64dec) O(b64dec_buf) O(w64enc) O(w64dec) O(tones) O(gmtime) O(inet) O(error) O(errno) O(strerror)
O(xml) O(xml_bad) O(xml_file) O(mkpath) O(mmap) O(pidf) O(pair) O(storage) O(cache) O(logarr) O(pool) O(pool_bad) O(synque) O(name) O(levels) O(sh_rel) O(sh_copy) O(sh_find) O(sh_enum) };
static const int NOPS = sizeof ops / sizeof *ops;
static int find(const S &n) { for (int i = 0; i < NOPS; ++i) if (n == ops[i].name) return i; fprintf(stderr, "no use %s\n", n.c_str()); _exit(97); }
/* ---- the two threads ---- */
static void *thread(void *p) { me = (Th *) p; for (;;) { while (sem_wait(&me->go)) ; if (me->op < 0) return 0; me->res = ops[me->op].f(me->var, me->slot); __atomic_store_n(&me->st, 2, __ATOMIC_SEQ_CST); sem_post(&ev); } }
static Th *th[2]; static bool blocked;
static void threads() { sem_init(&ev, 0, 0); for (int i = 0; i < 2; ++i) { th[i] = new Th(); th[i]->slot = i; sem_init(&th[i]->go, 0, 0); pthread_create(&th[i]->t, 0, thread, th[i]); } }
static int state(Th *t) { return __atomic_load_n(&t->st, __ATOMIC_SEQ_CST); }
static void resume(Th *t) { t->st = 0; sem_post(&t->go); }
/* wait until t stops or is done; false: it waits for something */
static bool settle(Th *t, long ms)
{
	struct timespec e; clock_gettime(CLOCK_REALTIME, &e); e.tv_sec += ms / 1000; e.tv_nsec += ms % 1000 * 1000000; if (e.tv_nsec >= 1000000000) { ++e.tv_sec; e.tv_nsec -= 1000000000; }
	while (!state(t)) if (sem_timedwait(&ev, &e) && errno == ETIMEDOUT) return state(t) != 0;
	return true;
}
static void begin(Th *t, int op, int var, long stop) { t->op = op; t->var = var; t->stop = stop; t->count = 0; t->free = false; resume(t); }
static void freely() { for (int i = 0; i < 2; ++i) __atomic_store_n(&th[i]->free, true, __ATOMIC_SEQ_CST); for (;;) { bool all = true; for (int i = 0; i < 2; ++i) { int s = state(th[i]); if (s == 1) resume(th[i]); if (s != 2) all = false; } if (all) return; struct timespec e; clock_gettime(CLOCK_REALTIME, &e); e.tv_nsec += 2000000; if (e.tv_nsec >= 1000000000) { ++e.tv_sec; e.tv_nsec -= 1000000000; } sem_timedwait(&ev, &e); } }
/* the first runs to point k, the second to point j (or its end), the first to its end, the second to its end */
static void execute(int a, int va, long k, int b, int vb, long j)
{
	static const long MS = 40; ++total; blocked = false;
	begin(th[0], a, va, k); if (!settle(th[0], 20000)) { fprintf(stderr, "a use does not end: %s\n", ops[a].name); _exit(98); }
	begin(th[1], b, vb, j);
	if (!settle(th[1], MS)) { blocked = true; freely(); return; }
	if (state(th[0]) == 1) { resume(th[0]); if (!settle(th[0], MS)) { blocked = true; freely(); return; } }
	freely();
}
/* ---- in a process of its own, where nothing has been used before ---- */
struct Out { volatile int done, blocked; long ca, cb; char a[4000], b[4000]; }; static Out *sh;
static void put(char *d, const S &s) { size_t n = s.size() < 3990 ? s.size() : 3990; memcpy(d, s.data(), n); d[n] = 0; }
static void clean(S &s) { for (size_t i = 0; i < s.size(); ++i) if (!s[i]) s[i] = '@'; if (s.size() > 3000) s = sum(s); }
static bool warmed = false;
static void run(bool cold, int a, int va, long k, int b, int vb, long j, S &ra, S &rb, long &ca, long &cb)
{
	if (!cold) { if (!warmed) { threads(); warmed = true; } execute(a, va, k, b, vb, j); ra = th[0]->res; rb = th[1]->res; ca = th[0]->count; cb = th[1]->count; clean(ra); clean(rb); return; }
	sh->done = 0; fflush(0); pid_t p = fork();
	if (!p) { alarm(50); threads(); execute(a, va, k, b, vb, j); S x = th[0]->res, y = th[1]->res; clean(x); clean(y); put(sh->a, x); put(sh->b, y); sh->ca = th[0]->count; sh->cb = th[1]->count; sh->blocked = blocked; sh->done = 1; _exit(0); }
	int w = 0; while (waitpid(p, &w, 0) < 0 && errno == EINTR) ;
	++total; if (WIFEXITED(w) && WEXITSTATUS(w) == 98) { fprintf(stderr, "child stuck\n"); }
	if (!sh->done) { char m[64]; snprintf(m, sizeof m, "ended with %d/%d", WIFSIGNALED(w) ? WTERMSIG(w) : 0, WIFEXITED(w) ? WEXITSTATUS(w) : 0); ra = rb = m; ca = cb = 0; blocked = false; for (int i = 0; i < 2; ++i) { char d[64]; snprintf(d, sizeof d, "re.%d.%d", (int) p, i); rmtree(d); } return; }
	ra = sh->a; rb = sh->b; ca = sh->ca; cb = sh->cb; blocked = sh->blocked;
}
static S label(int o, int v) { return S(ops[o].name) + "/" + num(v); }
static void call(Line &l)
{
	S f = l.s(), ra, rb; long ca, cb;
	if (f == "solo")
	{
		int o = find(l.s()), v = l.i();       /* in both places, before and after, one at a time */
		for (int i = 0; i < 2; ++i) { run(true, o, v, 1000000000, o, v, 1000000000, ra, rb, ca, cb); emit(Obj().t("f", "solo").t("a", label(o, v)).t("r", ra).end()); emit(Obj().t("f", "solo").t("a", label(o, v)).t("r", rb).end()); }
		return;
	}
	bool cold = l.s() == "cold"; int a = find(l.s()), va = l.i(), b = find(l.s()), vb = l.i(); long lim = l.i(); unsigned long seed = l.i() * 2654435761ul + 12345;
	const long INF = 1000000000; std::map<std::pair<S, S>, std::pair<long, long> > outs; long n = 0; int waits = 0;
	run(cold, a, va, INF, b, vb, INF, ra, rb, ca, cb); long na = ca, nb = cb; outs[std::make_pair(ra, rb)] = std::make_pair(0L, 0L);
	std::vector<std::pair<long, long> > plan;
	std::vector<long> ks; for (long k = 1; k <= na; ++k) ks.push_back(k);
	for (size_t i = ks.size(); i > 1; --i) { seed = seed * 6364136223846793005ul + 1442695040888963407ul; std::swap(ks[i - 1], ks[(seed >> 33) % i]); }
	if ((long) ks.size() > lim) ks.resize(lim);
	for (size_t i = 0; i < ks.size(); ++i) plan.push_back(std::make_pair(ks[i], INF));
	if (nb > 0) for (size_t i = 0; i < ks.size() / 2; ++i) { seed = seed * 6364136223846793005ul + 1442695040888963407ul; plan.push_back(std::make_pair(ks[i], 1 + (long) ((seed >> 33) % nb))); }
	for (size_t i = 0; i < plan.size() && waits < 8; ++i)
	{
		run(cold, a, va, plan[i].first, b, vb, plan[i].second, ra, rb, ca, cb); ++n; if (blocked) ++waits;
		std::pair<S, S> o(ra, rb); if (!outs.count(o) && outs.size() < 12) outs[o] = plan[i];
	}
	Arr q; for (std::map<std::pair<S, S>, std::pair<long, long> >::iterator i = outs.begin(); i != outs.end(); ++i) q.raw(Obj().t("a", i->first.first).t("b", i->first.second).n("k", i->second.first).n("j", i->second.second).end());
	emit(Obj().t("f", "pair").t("mode", cold ? "cold" : "warm").t("a", label(a, va)).t("b", label(b, vb)).n("points", na).n("runs", n).raw("outs", q.end()).end());
}
int main(int c, char **a)
{
	init(); if (c > 2) { if (chdir(a[2])) _exit(97); } dl_iterate_phdr(note_segments, 0); shared_things();
	sh = (Out *) mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	each_line(a[1], call); fprintf(stderr, "STAT executions %ld\n", total); return 0;
}
