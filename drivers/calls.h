/* Pure functions of the library: one script line per call. */
#include "drv.h"
#define CANARY 0xA5
struct Buf { unsigned char *p, *m; size_t n; Buf(size_t k) : m((unsigned char *) malloc(k + 16)), n(k) { p = m + 16; memset(p, CANARY, n); if (drv::__asan_poison_memory_region) drv::__asan_poison_memory_region(m, 16); }
	~Buf() { if (drv::__asan_unpoison_memory_region) drv::__asan_unpoison_memory_region(m, 16); free(m); }
	char *c() { return (char *) p; } std::string s() const { return std::string((char *) p, n); } };
struct CStr { char *p; CStr(const std::string &s) : p((char *) malloc(s.size() + 1)) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; } ~CStr() { free(p); } };
static inline const char *B(bool b) { return b ? "true" : "false"; }
