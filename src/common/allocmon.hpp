// Resource monitor: every allocation, mapping and file handle the code under test obtains
// is intercepted (-Wl,--wrap), recorded while AM.on, and may be made to fail.
#pragma once
#include "mon.hpp"
#include <unordered_map>
#include <cerrno>
#include <fcntl.h>
#include <mutex>

#define AM_WRAPS "malloc calloc realloc free strdup mmap munmap fopen fdopen fclose open close"
struct AllocMon {
	bool on = false;	// record (set around library calls)
	long n = 0;		// operations seen since arm()
	long fail_at = -1;	// index of the operation to fail
	bool persist = false;	// and all later ones
	unsigned kinds = ~0u;	// which kinds are counted/failed
	long failed = 0;
	std::string failed_kind;
	std::unordered_map<void *, std::pair<size_t, long>> heap;
	std::unordered_map<void *, size_t> maps;
	std::set<FILE *> files;
	std::set<int> fds;
	long seq = 0, total = 0;
	std::string bad;	// e.g. free of something unknown

	enum { HEAP = 1, MAP = 2, FILES = 4 };
	void arm(long at, bool p, unsigned k = ~0u) { n = 0; fail_at = at; persist = p; kinds = k; failed = 0; failed_kind.clear(); }
	void disarm() { fail_at = -1; }
	bool hit(unsigned kind, const char *what)
	{
		if (!on || !(kinds & kind)) return false;
		total++;
		long i = n++;
		if (fail_at >= 0 && (i == fail_at || persist && i > fail_at)) {
			failed++; { bool o = on; on = false; M.count(std::string("failed:") + what); on = o; }
			if (failed_kind.empty()) failed_kind = what;
			return true;
		}
		return false;
	}
	bool clean() const { return heap.empty() && maps.empty() && files.empty() && fds.empty(); }
	std::string live() const
	{
		std::string s = strf("heap %zu maps %zu files %zu fds %zu", heap.size(), maps.size(), files.size(), fds.size());
		int k = 0;
		for (auto &h : heap) if (k++ < 4) s += strf(" [%zu bytes, #%ld]", h.second.first, h.second.second);
		return s;
	}
	void forget() { heap.clear(); maps.clear(); files.clear(); fds.clear(); bad.clear(); seq = 0; }
};
extern AllocMon AM;
struct AmOn { bool old; AmOn() : old(AM.on) { AM.on = true; } ~AmOn() { AM.on = old; } };
struct AmOff { bool old; AmOff() : old(AM.on) { AM.on = false; } ~AmOff() { AM.on = old; } };
// Call into the library with recording on.
template <class F> auto L(F f) -> decltype(f()) { AmOn o; return f(); }

#ifdef AM_MAIN
AllocMon AM;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_fclose(FILE *);
int __real_open(const char *, int, ...); int __real_close(int);

void *__wrap_malloc(size_t s)
{
	if (AM.hit(AllocMon::HEAP, "malloc")) { errno = ENOMEM; return nullptr; }
	void *p = __real_malloc(s);
	if (AM.on && p) AM.heap[p] = { s, AM.seq++ };
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	if (AM.hit(AllocMon::HEAP, "calloc")) { errno = ENOMEM; return nullptr; }
	void *p = __real_calloc(a, b);
	if (AM.on && p) AM.heap[p] = { a * b, AM.seq++ };
	return p;
}
void *__wrap_realloc(void *o, size_t s)
{
	if (AM.hit(AllocMon::HEAP, "realloc")) { errno = ENOMEM; return nullptr; }
	void *p = __real_realloc(o, s);
	if (AM.on && p) { AM.heap.erase(o); AM.heap[p] = { s, AM.seq++ }; }
	return p;
}
char *__wrap_strdup(const char *c)
{
	if (AM.hit(AllocMon::HEAP, "strdup")) { errno = ENOMEM; return nullptr; }
	char *p = __real_strdup(c);
	if (AM.on && p) AM.heap[p] = { strlen(c) + 1, AM.seq++ };
	return p;
}
void __wrap_free(void *p)
{
	if (p) { auto i = AM.heap.find(p); if (i != AM.heap.end()) AM.heap.erase(i); }
	__real_free(p);
}
void *__wrap_mmap(void *a, size_t l, int pr, int fl, int fd, off_t o)
{
	if (AM.hit(AllocMon::MAP, "mmap")) { errno = ENOMEM; return MAP_FAILED; }
	void *p = __real_mmap(a, l, pr, fl, fd, o);
	if (AM.on && p != MAP_FAILED) AM.maps[p] = l;
	return p;
}
int __wrap_munmap(void *p, size_t l)
{
	auto i = AM.maps.find(p);
	if (i != AM.maps.end()) {
		if (i->second != l) AM.bad = strf("mapping of %zu bytes unmapped with %zu", i->second, l);
		AM.maps.erase(i);
	}
	return __real_munmap(p, l);
}
FILE *__wrap_fopen(const char *n, const char *m)
{
	if (AM.hit(AllocMon::FILES, "fopen")) { errno = EMFILE; return nullptr; }
	FILE *f = __real_fopen(n, m);
	if (AM.on && f) AM.files.insert(f);
	return f;
}
FILE *__wrap_fdopen(int fd, const char *m)
{
	if (AM.hit(AllocMon::FILES, "fdopen")) { errno = ENOMEM; return nullptr; }
	FILE *f = __real_fdopen(fd, m);
	if (f && AM.fds.erase(fd)) AM.files.insert(f);	// the stream owns the descriptor
	return f;
}
int __wrap_fclose(FILE *f) { AM.files.erase(f); return __real_fclose(f); }
int __wrap_open(const char *n, int fl, ...)
{
	va_list a; va_start(a, fl); int mode = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a);
	if (AM.hit(AllocMon::FILES, "open")) { errno = EMFILE; return -1; }
	int fd = __real_open(n, fl, mode);
	if (AM.on && fd >= 0) AM.fds.insert(fd);
	return fd;
}
int __wrap_close(int fd) { AM.fds.erase(fd); return __real_close(fd); }
}
#endif
