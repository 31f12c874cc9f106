/* Common part of the drivers: reads a script (one run or call per line, blank separated
 * tokens, byte strings in hex, "-" = empty), writes one JSON line per run or call. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

namespace drv {

struct Line {
	std::vector<std::string> t; size_t p;
	Line() : p(0) {}
	bool more() const { return p < t.size(); }
	std::string s() { if (p >= t.size()) { fprintf(stderr, "script: missing token\n"); _exit(97); } return t[p++]; }
	long long i() { return atoll(s().c_str()); }
	std::string b() { std::string h = s(), r; if (h == "-") return r;
		for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16)); return r; }
};

static int out_fd = -1;
static char *cur = 0; static const size_t cur_sz = 1 << 20;

static inline void init()
{
	const char *o = getenv("TRACE_OUT"), *c = getenv("CUR_OUT");
	if (!o || !c) { fprintf(stderr, "no TRACE_OUT\n"); _exit(97); }
	out_fd = open(o, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
	int fd = open(c, O_RDWR | O_CREAT | O_TRUNC, 0666);
	if (out_fd < 0 || fd < 0 || ftruncate(fd, cur_sz)) { perror("trace"); _exit(97); }
	/* high descriptor numbers: low ones belong to the code under test */
	int hi = fcntl(out_fd, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { close(out_fd); out_fd = hi; }
	cur = (char *) mmap(0, cur_sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (cur == MAP_FAILED) { perror("mmap"); _exit(97); }
	close(fd);
}
/* what is being executed now, for a crash report */
static inline void now(const std::string &s) { size_t n = s.size() < cur_sz - 1 ? s.size() : cur_sz - 1; memcpy(cur, s.data(), n); cur[n] = 0; }
static inline void emit(const std::string &s)
{
	std::string l = s + "\n"; size_t o = 0;
	while (o < l.size()) { ssize_t r = write(out_fd, l.data() + o, l.size() - o); if (r <= 0) _exit(97); o += r; }
}
template <class F> void each_line(const char *path, F f)
{
	std::ifstream in(path); std::string l;
	if (!in) { fprintf(stderr, "no script\n"); _exit(97); }
	while (std::getline(in, l)) { Line x; std::istringstream is(l); std::string w; while (is >> w) x.t.push_back(w); if (x.t.empty()) continue; now(l); f(x); }
}
/* JSON */
static inline std::string num(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); return b; }
static inline std::string arr(const void *p, size_t n)
{
	std::string r = "["; const unsigned char *c = (const unsigned char *) p;
	for (size_t i = 0; i < n; ++i) { if (i) r += ','; r += num(c[i]); }
	return r + "]";
}
static inline std::string arr(const std::string &s) { return arr(s.data(), s.size()); }
static inline std::string str(const std::string &s) { std::string r = "\""; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
struct Obj { std::string s; Obj() : s("{") {}
	Obj &raw(const char *k, const std::string &v) { if (s.size() > 1) s += ','; s += '"'; s += k; s += "\":"; s += v; return *this; }
	Obj &n(const char *k, long long v) { return raw(k, num(v)); }
	Obj &b(const char *k, const std::string &v) { return raw(k, arr(v)); }
	Obj &t(const char *k, const std::string &v) { return raw(k, str(v)); }
	std::string end() const { return s + "}"; } };
struct Arr { std::string s; bool first; Arr() : s("["), first(true) {}
	Arr &raw(const std::string &v) { if (!first) s += ','; first = false; s += v; return *this; }
	std::string end() const { return s + "]"; } };
/* exact-size heap copy so that the address sanitizer sees any access outside it (an empty one too) */
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
struct Exact { char *p, *m; size_t n; Exact(const std::string &s) : n(s.size()) { m = (char *) malloc(n + 16); p = m + 16; memcpy(p, s.data(), n); if (__asan_poison_memory_region) __asan_poison_memory_region(m, 16); }
	~Exact() { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(m, 16); free(m); }
private: Exact(const Exact &); };
}
#endif
