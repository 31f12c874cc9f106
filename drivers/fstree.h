/* A scratch directory as the specification sees it: what is in it, what changed. */
#ifndef FSTREE_H
#define FSTREE_H
#include "drv.h"
#include <dirent.h>
#include <sys/stat.h>
#include <map>
#include <set>
#include <algorithm>
namespace fst {
struct Node { char k; std::string c; unsigned m; };         /* d, f or l; contents or target; permissions */
typedef std::map<std::string, Node> Snap;
static std::string names(const std::string &p) { drv::Arr a; size_t i = 0; if (p.empty()) return "[]"; for (;;) { size_t j = p.find('/', i); a.raw(drv::arr(p.substr(i, j == std::string::npos ? j : j - i))); if (j == std::string::npos) break; i = j + 1; } return a.end(); }
static std::string slurp(const char *p) { std::string r; int fd = open(p, O_RDONLY | O_CLOEXEC); if (fd < 0) return r; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
static void scan(const std::string &at, Snap &s)
{
	DIR *d = opendir(at.empty() ? "." : at.c_str()); if (!d) return; std::vector<std::string> v; while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(d);
	std::sort(v.begin(), v.end());
	for (size_t i = 0; i < v.size(); ++i) {
		std::string p = at.empty() ? v[i] : at + "/" + v[i]; struct stat st; if (lstat(p.c_str(), &st)) continue; Node n; n.m = S_ISLNK(st.st_mode) ? 0 : st.st_mode & 07777;
		if (S_ISDIR(st.st_mode)) { n.k = 'd'; s[p] = n; scan(p, s); }
		else if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); n.k = 'l'; n.c.assign(b, k > 0 ? k : 0); s[p] = n; }
		else { n.k = 'f'; n.c = slurp(p.c_str()); s[p] = n; }
	}
}
static Snap scan() { Snap s; scan("", s); return s; }
static void wipe(const std::string &dir)                    /* inside a directory the driver made */
{
	DIR *d = opendir(dir.c_str()); if (!d) return; std::vector<std::string> v; while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(d);
	for (size_t i = 0; i < v.size(); ++i) { std::string p = dir + "/" + v[i]; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { wipe(p); } else unlink(p.c_str()); }
	rmdir(dir.c_str());
}
static void make(char k, const std::string &p, const std::string &c)
{
	if (k == 'd') { if (mkdir(p.c_str(), 0755)) { perror("mkdir"); _exit(97); } }
	else if (k == 'l') { if (symlink(c.c_str(), p.c_str())) { perror("symlink"); _exit(97); } }
	else { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t) c.size()) { perror("file"); _exit(97); } close(fd); }
}
static std::string tree(const Snap &s)
{
	drv::Arr a; for (Snap::const_iterator i = s.begin(); i != s.end(); ++i) a.raw(drv::Obj().raw("p", names(i->first)).t("k", i->second.k == 'd' ? "dir" : i->second.k == 'f' ? "file" : "link").raw("to", i->second.k == 'l' ? names(i->second.c) : "[]").end());
	return a.end();
}
static std::string bits(unsigned m) { drv::Arr a; for (int i = 0; i < 12; ++i) if (m >> i & 1) a.raw(drv::num(i)); return a.end(); }
static unsigned mask() { unsigned m = umask(0); umask(m); return m; }
/* permissions of what is new; (hurt) of anything else changed */
static std::string modes(const Snap &a, const Snap &b, int &hurt)
{
	drv::Arr r; for (Snap::const_iterator i = b.begin(); i != b.end(); ++i) { if (i->second.k == 'l') continue; Snap::const_iterator j = a.find(i->first);
		if (j == a.end() || j->second.k != i->second.k) r.raw(drv::Obj().raw("p", names(i->first)).t("k", i->second.k == 'd' ? "dir" : "file").raw("m", bits(i->second.m)).end()); else if (j->second.m != i->second.m) ++hurt; }
	return r.end();
}
/* appended to (d), new directories and files, anything else */
static void delta(const Snap &a, const Snap &b, drv::Obj &o)
{
	drv::Arr d, nd, nf; int hurt = 0;
	for (Snap::const_iterator i = b.begin(); i != b.end(); ++i) {
		Snap::const_iterator j = a.find(i->first);
		if (j == a.end()) { if (i->second.k == 'd') nd.raw(names(i->first)); else if (i->second.k == 'f') { nf.raw(names(i->first)); if (!i->second.c.empty()) d.raw(drv::Obj().raw("p", names(i->first)).b("s", i->second.c).end()); } else ++hurt; continue; }
		if (j->second.k != i->second.k) { ++hurt; continue; }
		if (j->second.c == i->second.c) continue;
		if (i->second.k == 'f' && i->second.c.size() > j->second.c.size() && i->second.c.compare(0, j->second.c.size(), j->second.c) == 0) d.raw(drv::Obj().raw("p", names(i->first)).b("s", i->second.c.substr(j->second.c.size())).end()); else ++hurt;
	}
	for (Snap::const_iterator i = a.begin(); i != a.end(); ++i) if (!b.count(i->first)) ++hurt;
	o.raw("d", d.end()).raw("nd", nd.end()).raw("nf", nf.end()).n("hurt", hurt);
}
/* a text in read-only memory, followed by an unreadable page */
struct Fixed { char *m; char *p; size_t n, len; bool rw;
	Fixed(const std::string &s, bool rw_ = false) : n(s.size() + 1), rw(rw_) { len = (n + 4095) / 4096 * 4096; m = (char *) mmap(0, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0); p = m + len - n; memcpy(p, s.c_str(), n); if (!rw) mprotect(m, len, PROT_READ); mprotect(m + len, 4096, PROT_NONE); }
	bool same(const std::string &s) const { return !memcmp(p, s.c_str(), n); }
	~Fixed() { munmap(m, len + 4096); } };
/* the k-th call of the code into the system fails */
static int fault_left = 0; static bool fired = false; static __thread bool armed = false;
static bool fails() { if (!armed || fault_left <= 0) return false; if (--fault_left) return false; fired = true; return true; }
struct Arm { Arm(int k) { fault_left = k; fired = false; armed = true; } ~Arm() { armed = false; } };
}
#endif
