// C16: decoders sharing a section cache run concurrently without interference.
#include "mon.hpp"
#include <atomic>
#include <thread>
#include <cerrno>
#include <pthread.h>
#include <threads.h>
#include <sched.h>
#include <fcntl.h>
#include <algorithm>

// Every thread counts and reports on its own, so that the monitor does not order the threads.
struct TMon {
	std::map<std::string, uint64_t> cnt; std::vector<std::pair<std::string, std::string>> viol; std::string note; uint64_t cur = 0;
	void count(const std::string &k, uint64_t n = 1) { cnt[k] += n; }
	void violation(const std::string &k, const std::string &m) { if (viol.size() < 3) viol.push_back({ k, m }); }
};
static TMon main_mon;
static thread_local TMon *TM = &main_mon;
#define MM (*TM)
#define IMG_TLS thread_local
static thread_local int in_lib;
struct InLib { InLib() { ++in_lib; } ~InLib() { --in_lib; } };
template <class F> auto L(F f) -> decltype(f()) { InLib l; return f(); }
#define LIBCALL(x) L([&] { return x; })
#include "imgmodel.hpp"

// Delays, the schedule log and resource counters; relaxed atomics order nothing.
struct LockEv { uint32_t ticket; int tid; void *m; };
struct TSched { Rng r { 1 }; int tid = -1; std::vector<LockEv> log; };
static thread_local TSched *TS;
static_assert(sizeof(mtx_t) >= sizeof(pthread_mutex_t), "mtx_t");
static std::atomic<uint32_t> ticket; static std::atomic<long> nheap, nmap, mapped, nfile; static std::atomic<uint64_t> progress;
static unsigned p_yield, p_sleep, p_mapfail; static bool logging;
static void delay()
{
	TSched *t = TS; if (!t) return;
	unsigned k = (unsigned) t->r.below(1000);
	if (k < p_sleep) { struct timespec ts { 0, (long) t->r.below(60000) }; nanosleep(&ts, nullptr); }
	else if (k < p_sleep + p_yield) sched_yield();
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!in_lib) return __real_pthread_mutex_lock(m);
	delay();
	int e = pthread_mutex_trylock(m);
	if (e) { MM.count("contended"); e = __real_pthread_mutex_lock(m); }
	if (TS && TS->log.size() < 4000) TS->log.push_back({ ticket.fetch_add(1, std::memory_order_relaxed), TS->tid, m });
	progress.fetch_add(1, std::memory_order_relaxed);
	delay();
	return e;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!in_lib) return __real_pthread_mutex_unlock(m);
	delay(); int e = __real_pthread_mutex_unlock(m); delay(); return e;
}
// ThreadSanitizer does not know the mutexes of <threads.h>: they are made of pthread ones.
int __wrap_mtx_init(mtx_t *m, int) { return pthread_mutex_init((pthread_mutex_t *) m, nullptr) ? thrd_error : thrd_success; }
void __wrap_mtx_destroy(mtx_t *m) { pthread_mutex_destroy((pthread_mutex_t *) m); }
int __wrap_mtx_lock(mtx_t *m) { return __wrap_pthread_mutex_lock((pthread_mutex_t *) m) ? thrd_error : thrd_success; }
int __wrap_mtx_trylock(mtx_t *m) { delay(); return pthread_mutex_trylock((pthread_mutex_t *) m) ? thrd_busy : thrd_success; }
int __wrap_mtx_unlock(mtx_t *m) { return __wrap_pthread_mutex_unlock((pthread_mutex_t *) m) ? thrd_error : thrd_success; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (in_lib) { delay(); if (p) nheap.fetch_add(1, std::memory_order_relaxed); } return p; }
void *__wrap_calloc(size_t a, size_t n) { void *p = __real_calloc(a, n); if (in_lib && p) nheap.fetch_add(1, std::memory_order_relaxed); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (in_lib && p && !o) nheap.fetch_add(1, std::memory_order_relaxed); return p; }
void __wrap_free(void *p) { if (in_lib) { delay(); if (p) nheap.fetch_sub(1, std::memory_order_relaxed); } __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (in_lib && p) nheap.fetch_add(1, std::memory_order_relaxed); return p; }
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
	if (!in_lib || fd < 0) return __real_mmap(a, n, p, f, fd, o);
	if (TS && TS->r.below(100) < p_mapfail) { MM.count("file_based"); errno = ENOMEM; return MAP_FAILED; }
	void *r = __real_mmap(a, n, p, f, fd, o); delay();
	if (r != MAP_FAILED) { nmap.fetch_add(1, std::memory_order_relaxed); mapped.fetch_add((long) n, std::memory_order_relaxed); MM.count("mappings"); }
	return r;
}
int __wrap_munmap(void *a, size_t n)
{
	if (in_lib) { delay(); nmap.fetch_sub(1, std::memory_order_relaxed); mapped.fetch_sub((long) n, std::memory_order_relaxed); }
	return __real_munmap(a, n);
}
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_fclose(FILE *); int __real_open(const char *, int, ...); int __real_close(int);
FILE *__wrap_fopen(const char *n, const char *m) { FILE *f = __real_fopen(n, m); if (in_lib && f) nfile.fetch_add(1, std::memory_order_relaxed); return f; }
FILE *__wrap_fdopen(int d, const char *m) { return __real_fdopen(d, m); }
int __wrap_open(const char *n, int f, ...) { va_list a; va_start(a, f); int mode = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); int d = __real_open(n, f, mode); if (in_lib && d >= 0) nfile.fetch_add(1, std::memory_order_relaxed); return d; }
int __wrap_close(int d) { if (in_lib) nfile.fetch_sub(1, std::memory_order_relaxed); return __real_close(d); }
int __wrap_fclose(FILE *f) { if (in_lib) nfile.fetch_sub(1, std::memory_order_relaxed); return __real_fclose(f); }
}

struct Key { int file; uint64_t off, size, va; bool operator<(const Key &o) const { return std::tie(file, off, size, va) < std::tie(o.file, o.off, o.size, o.va); } };
struct SecT { Key k; uint64_t ask; };	// ask: requested size, maybe beyond the end of the file
static struct pt_image_section_cache *ISC;
static std::vector<SecT> pool; static ImageM *master; static std::atomic<int> gate; static uint64_t cbase;

struct Worker {
	int tid; uint64_t seed; TMon mon; TSched sched; std::map<Key, int> ids; std::vector<std::unique_ptr<Walk>> left; std::vector<std::unique_ptr<ImageM>> im; std::string history; uint64_t done = 0; bool keep = false;
	void run(int nthreads)
	{
		TM = &mon; TS = &sched; sched.tid = tid; sched.r = Rng(seed ^ 77); Rng r(seed); base = cbase; hist.clear(); cb_fail.clear();
		for (int k = 0; k < 2; ++k) { im.emplace_back(new ImageM); im.back()->id = tid * 10 + k; im.back()->im = LIBCALL(pt_image_alloc("t")); }
		std::vector<std::unique_ptr<Walk>> walks; bool ok = true; int nops = (int) r.range(5, 40);
		gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < nthreads) sched_yield();
		for (int o = 0; o < nops && ok; ++o) {
			int op = (int) r.below(100); ++done;
			if (op < 25 || ids.empty()) {
				const SecT &s = pool[r.below(pool.size())]; uint64_t ask = r.chance(70) ? s.k.size : s.ask;
				int id = LIBCALL(pt_iscache_add_file(ISC, files[(size_t) s.k.file].name.c_str(), s.k.off, ask, s.k.va));
				hist += strf("cache add file %d off=%llu size=%llu va=%llx -> %d\n", s.k.file, (unsigned long long) s.k.off, (unsigned long long) ask, (unsigned long long) s.k.va, id);
				if (id <= 0) { ok = bad("add-rc", strf("pt_iscache_add_file: %d", id)); break; }
				auto i = ids.find(s.k); if (i != ids.end() && i->second != id) { ok = bad("isid", strf("section was %d, is now %d", i->second, id)); break; }
				for (auto &x : ids) if (!(x.first < s.k) && !(s.k < x.first)) continue; else if (x.second == id) ok = bad("isid", strf("%d is used for two sections", id));
				ids[s.k] = id; MM.count("adds");
			} else if (op < 40) {
				auto i = ids.begin(); std::advance(i, (long) r.below(ids.size())); const Key &k = i->first; uint64_t at = r.below(k.size), n = r.range(1, 300); uint8_t b[300];
				int e = LIBCALL(pt_iscache_read(ISC, b, n, i->second, k.va + at)); uint64_t w = std::min(n, k.size - at); hist += strf("read %d -> %d\n", i->second, e);
				if (e != (int) w || memcmp(b, &files[(size_t) k.file].b[k.off + at], w)) ok = bad("read", strf("section %d at %llu, %llu bytes: %d", i->second, (unsigned long long) at, (unsigned long long) n, e));
				MM.count("reads");
			} else if (op < 48) {
				uint64_t l = r.chance(20) ? 0 : r.chance(20) ? ~0ull : r.wide(18); int e = LIBCALL(pt_iscache_set_limit(ISC, l)); hist += strf("limit %llu -> %d\n", (unsigned long long) l, e); if (e < 0) ok = bad("limit-rc", strf("pt_iscache_set_limit: %d", e)); MM.count("limits");
			} else if (op < 62) {
				ImageM &m = *im[r.below(im.size())]; auto i = ids.begin(); std::advance(i, (long) r.below(ids.size())); const Key &k = i->first; hist += strf("image %d add cached %d\n", m.id, i->second);
				int e = LIBCALL(pt_image_add_cached(m.im, ISC, i->second, nullptr)); if (e < 0) ok = bad("add-cached-rc", strf("pt_image_add_cached: %d", e));
				m.add({ pt_asid_no_cr3, pt_asid_no_vmcs, k.va, k.va + k.size - 1, k.off, k.file, i->second }); MM.count("shared");
			} else if (op < 65) {
				ImageM &a = *im[r.below(im.size())], &b = r.chance(60) ? *master : *im[r.below(im.size())]; if (&a == &b) continue; hist += strf("image %d copy from %d\n", a.id, b.id);
				int e = LIBCALL(pt_image_copy(a.im, b.im)); if (e) ok = bad("copy-rc", strf("pt_image_copy: %d", e)); std::vector<PieceM> q = b.p; for (auto &x : q) a.add(x); MM.count(&b == master ? "master_copies" : "copies");
			} else if (op < 67) {
				ImageM &m = *im[r.below(im.size())]; int f = (int) r.below(4); hist += strf("image %d remove file %d\n", m.id, f); int n = 0; for (size_t q = 0; q < m.p.size();) if (m.p[q].file == f) { m.p.erase(m.p.begin() + (long) q); ++n; } else ++q;
				int e = LIBCALL(pt_image_remove_by_filename(m.im, files[(size_t) f].name.c_str(), nullptr)); if (e != n) ok = bad("remove-rc", strf("removed %d instead of %d", e, n)); MM.count("removes");
			} else if (op < 69) {
				ImageM &m = *im[r.below(im.size())]; int f = (int) r.below(4); uint64_t fs = files[(size_t) f].b.size(), off = r.below(fs), n = r.range(1, 200), va = base + r.below(400); hist += strf("image %d add file\n", m.id);
				int e = LIBCALL(pt_image_add_file(m.im, files[(size_t) f].name.c_str(), off, n, nullptr, va)); if (e < 0) ok = bad("add-file-rc", strf("pt_image_add_file: %d", e)); n = std::min(n, fs - off); m.add({ pt_asid_no_cr3, pt_asid_no_vmcs, va, va + n - 1, off, f, 0 });
			} else if (op < 72) {
				size_t q = r.below(im.size()); bool used = false; for (auto &w : walks) used |= w->im == im[q].get(); if (used) continue;
				LIBCALL((pt_image_free(im[q]->im), 0)); im[q]->im = LIBCALL(pt_image_alloc("t")); im[q]->p.clear(); hist += strf("image %d freed\n", im[q]->id); MM.count("freed");
			} else if (op < 82 || walks.empty()) {
				ImageM &m = *im[r.below(im.size())]; if (m.p.empty() || walks.size() > 2) continue; auto &x = m.p[r.below(m.p.size())]; bool used = false; for (auto &w : walks) used |= w->im == &m; if (used) continue;
				std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = 0x1000; w->vmcs = 0x2000; w->ip = x.b + r.below(std::min<uint64_t>(x.last - x.b, 40) + 1);
				if (!start(r, *w)) { ok = false; break; }
				for (int n = (int) r.range(1, 20); n && !w->dead && ok; --n) ok = step(*w);
				walks.push_back(std::move(w)); MM.count("walks");
			} else {
				size_t q = r.below(walks.size()); for (int n = (int) r.range(1, 10); n && !walks[q]->dead && ok; --n) ok = step(*walks[q]);
				if (walks[q]->dead || r.chance(20)) walks.erase(walks.begin() + (long) q);
			}
		}
		if (ok && r.chance(30)) { left = std::move(walks); keep = true; }	// freed by another thread, after the cache
		else { walks.clear(); for (auto &m : im) LIBCALL((pt_image_free(m->im), 0)); im.clear(); }
		history = hist; TS = nullptr; TM = &main_mon;
	}
};
void harness_init() { make_files(); }

static void stress(Rng &r)
{
	ticket = 0; nheap = 0; nmap = 0; mapped = 0; nfile = 0; gate = 0; in_lib = 0; TM = &main_mon; main_mon = TMon(); TS = nullptr; cur_im = nullptr;
	p_yield = (unsigned) (r.chance(40) ? 0 : r.range(5, 200)); p_sleep = (unsigned) (r.chance(50) ? 0 : r.range(1, 60)); p_mapfail = r.chance(25) ? (unsigned) r.range(5, 60) : 0;
	int nth = (int) r.range(2, 6); cbase = base = 0x400000; hist.clear();
	pool.clear(); int np = (int) r.range(2, 7); bool big = r.chance(40);
	for (int k = 0; k < np; ++k) {
		int f = (int) r.below(4); uint64_t fs = files[(size_t) f].b.size(), off = r.chance(50) ? 0 : r.below(fs), n = big || r.chance(40) ? fs - off : r.range(1, std::min<uint64_t>(fs - off, 400)), va = base + 16 * r.below(4) + (r.chance(30) ? 4096 : 0);
		if (!pool.empty() && r.chance(40)) { auto &s = pool[r.below(pool.size())]; f = s.k.file; off = s.k.off; n = s.k.size; fs = files[(size_t) f].b.size(); }
		SecT s { { f, off, n, va }, off + n == fs ? n + r.wide(20) : n }; bool dup = false; for (auto &x : pool) dup |= !(x.k < s.k) && !(s.k < x.k); if (!dup) pool.push_back(s);
	}
	ISC = LIBCALL(pt_iscache_alloc(r.chance(50) ? "c" : nullptr)); if (r.chance(60)) LIBCALL(pt_iscache_set_limit(ISC, r.wide(17)));
	ImageM mst; mst.id = 99; mst.im = LIBCALL(pt_image_alloc("master")); master = &mst; std::map<Key, int> ids;
	for (int k = (int) r.below(4); k; --k) {
		auto &s = pool[r.below(pool.size())]; int id = LIBCALL(pt_iscache_add_file(ISC, files[(size_t) s.k.file].name.c_str(), s.k.off, s.k.size, s.k.va)); if (id <= 0) continue; ids[s.k] = id;
		if (r.chance(70)) { LIBCALL(pt_image_add_cached(mst.im, ISC, id, nullptr)); mst.add({ pt_asid_no_cr3, pt_asid_no_vmcs, s.k.va, s.k.va + s.k.size - 1, s.k.off, s.k.file, id }); }
	}
	M.note = strf("threads %d yield %u sleep %u mapfail %u sections %zu\n", nth, p_yield, p_sleep, p_mapfail, pool.size());
	std::vector<std::unique_ptr<Worker>> ws; std::vector<std::thread> th;
	for (int k = 0; k < nth; ++k) { ws.emplace_back(new Worker); ws.back()->tid = k; ws.back()->seed = r.next(); ws.back()->ids = ids; }
	static std::atomic<int> nfinished; nfinished = 0;
	for (auto &w : ws) { Worker *p = w.get(); th.emplace_back([p, nth] { p->run(nth); nfinished.fetch_add(1, std::memory_order_relaxed); }); }
	// Watch for threads that wait for each other.
	uint64_t last = ~0ull; int idle = 0;
	for (unsigned us = 50; nfinished.load(std::memory_order_relaxed) < nth;) {
		usleep(us); if (us < 100000) us *= 2; else { uint64_t p = progress.load(std::memory_order_relaxed); idle = p == last ? idle + 1 : 0; last = p; }
		if (idle > 250) { for (auto &w : ws) M.note += strf("thread %d: %llu operations\n", w->tid, (unsigned long long) w->done); M.violation("deadlock", "the threads wait for each other"); M.evals++; M.finish(); fflush(stdout); _exit(0); }
	}
	for (auto &t : th) t.join();
	bool ok = true; std::vector<LockEv> log;
	for (auto &w : ws) {
		for (auto &c : w->mon.cnt) M.count(c.first, c.second);
		for (auto &v : w->mon.viol) { M.note += strf("thread %d\n", w->tid) + w->mon.note; M.violation(v.first, v.second); ok = false; }
		for (auto &x : w->ids) { auto i = ids.find(x.first); if (i == ids.end()) ids[x.first] = x.second; else if (i->second != x.second) { if (ok) M.violation("isid-threads", strf("one section has identifiers %d and %d", i->second, x.second)); ok = false; } }
		log.insert(log.end(), w->sched.log.begin(), w->sched.log.end());
	}
	std::set<int> used; for (auto &x : ids) if (!used.insert(x.second).second || x.second > (int) ids.size()) { if (ok) M.violation("isid-threads", strf("identifier %d for %zu sections, or used twice", x.second, ids.size())); ok = false; }
	// What was observed: the order in which threads took the locks.
	std::sort(log.begin(), log.end(), [](const LockEv &a, const LockEv &b) { return a.ticket < b.ticket; });
	uint64_t h = M.cur, switches = 0; std::map<void *, int> mid; for (size_t k = 0; k < log.size(); ++k) { int m = mid.emplace(log[k].m, (int) mid.size()).first->second; h = (h * 1000003) ^ (uint64_t) (log[k].tid * 1009 + m); if (k && log[k].tid != log[k - 1].tid) ++switches; }
	M.nontrivial(h); M.count("lock_events", log.size()); M.count("thread_switches", switches); M.count("threads", (uint64_t) nth);
	// The cache alone: nothing but what it keeps within its limit is mapped; everything goes away.
	bool kept = false; for (auto &w : ws) kept |= w->keep;
	LIBCALL((pt_image_free(mst.im), 0));
	if (!kept && ok) {
		uint64_t l = r.wide(17); if (LIBCALL(pt_iscache_set_limit(ISC, l)) < 0) M.violation("limit-rc", "limit at the end");
		if (mapped.load() < 0 || (uint64_t) mapped.load() > l) M.violation("limit", strf("%ld bytes mapped with a limit of %llu", mapped.load(), (unsigned long long) l)); else if (mapped.load()) M.count("kept_mapped");
		for (auto &x : ids) { uint8_t b[64]; uint64_t n = std::min<uint64_t>(64, x.first.size); if (LIBCALL(pt_iscache_read(ISC, b, n, x.second, x.first.va)) != (int) n || memcmp(b, &files[(size_t) x.first.file].b[x.first.off], n)) { M.violation("read", strf("section %d at the end", x.second)); break; } }
	}
	bool early = r.chance(50); if (early) LIBCALL((pt_iscache_free(ISC), 0));
	for (auto &w : ws) if (w->keep) {
		cur_im = nullptr; hist = w->history; if (ok && !w->left.empty() && !w->left[0]->dead) { ok = step(*w->left[0]); M.count("continued_elsewhere"); }
		w->left.clear(); for (auto &m : w->im) LIBCALL((pt_image_free(m->im), 0));
	}
	for (auto &v : main_mon.viol) M.violation(v.first, v.second);
	if (!early) LIBCALL((pt_iscache_free(ISC), 0));
	if (ok && (nheap.load() || nmap.load() || nfile.load() || mapped.load())) M.violation("leak", strf("left: %ld allocations, %ld mappings, %ld files", nheap.load(), nmap.load(), nfile.load()));
	for (auto &c : main_mon.cnt) if (c.first == "mappings") M.count(c.first, c.second);
}
void run_case(Rng &r)
{
	// The schedule is not part of the seed: repeat a replayed case.
	for (int k = 0, n = M.replay ? 300 : 1; k < n && !M.nviol; ++k) { Rng q = r; stress(q); alarm(600); }
}
