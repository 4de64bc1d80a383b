// Common monitor/driver code of every harness: deterministic case generation,
// violation reporting, measured coverage counters, crash and hang attribution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <fcntl.h>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned pct) { return below(100) < pct; }
	// A value with a random magnitude: boundary-rich.
	uint64_t wide(unsigned bits = 64)
	{
		unsigned k = (unsigned) below(bits + 1);
		uint64_t m = k >= 64 ? ~0ull : ((1ull << k) - 1);
		uint64_t v;
		switch (below(6)) {
		case 0: v = m; break;
		case 1: v = m + 1; break;
		case 2: v = k ? 1ull << (k - 1) : 0; break;
		default: v = next() & m; break;
		}
		return bits >= 64 ? v : v & ((1ull << bits) - 1);
	}
};

inline uint64_t hash64(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
	const uint8_t *b = (const uint8_t *) p;
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}
inline uint64_t hashs(const std::string &s) { return hash64(s.data(), s.size()); }

inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *f, ...)
{
	char b[2048]; va_list a; va_start(a, f);
	int n = vsnprintf(b, sizeof b, f, a); va_end(a);
	if (n < 0) return "";
	if ((size_t) n < sizeof b) return std::string(b, (size_t) n);
	std::string s((size_t) n + 1, 0);
	va_start(a, f); vsnprintf(&s[0], s.size(), f, a); va_end(a);
	s.resize((size_t) n);
	return s;
}
inline std::string hexs(const void *p, size_t n)
{
	std::string s; const uint8_t *b = (const uint8_t *) p;
	static const char d[] = "0123456789abcdef";
	for (size_t i = 0; i < n; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
	return s;
}
inline std::string jesc(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) o += strf("\\u%04x", c);
		else o += (char) c;
	}
	return o + "\"";
}

struct Mon {
	std::string harness, variant, outdir, prop, scratch;
	uint64_t seed = 1, from = 0, to = 0, cur = 0;
	bool thorough = false, replay = false;
	unsigned shard = 0;

	uint64_t evals = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> cnt;
	std::vector<std::string> samples;
	std::map<std::string, int> vkeys;
	uint64_t nviol = 0;

	// Per-case replay payload (text), dumped on violation or crash.
	std::string note;

	void count(const std::string &k, uint64_t n = 1) { cnt[k] += n; }
	// A non-trivial case, identified by what it exercised.
	void nontrivial(uint64_t h) { distinct.insert(h); }
	void sample(const std::string &s)
	{
		if (samples.size() < 6) samples.push_back(s);
	}
	// Report a violation.  @key identifies the failing behaviour, for
	// matching against the known-findings file; it does not depend on the seed.
	void violation(const std::string &key, const std::string &msg)
	{
		nviol++;
		int n = ++vkeys[key];
		if (n > 3) return;
		std::string path = strf("%s/%s-%s-s%llu-c%llu-%d.replay", outdir.c_str(), prop.c_str(),
			harness.c_str(), (unsigned long long) seed, (unsigned long long) cur, (int) nviol);
		FILE *f = fopen(path.c_str(), "w");
		if (f) {
			fprintf(f, "property=%s\nharness=%s\nvariant=%s\nseed=%llu\ncase=%llu\nthorough=%d\nkey=%s\n"
				"message=%s\n--- case\n%s\n", prop.c_str(), harness.c_str(), variant.c_str(),
				(unsigned long long) seed, (unsigned long long) cur, (int) thorough,
				key.c_str(), msg.c_str(), note.c_str());
			fclose(f);
		}
		printf("VIOL\t%s\t%s\t%s\n", key.c_str(), path.c_str(), msg.substr(0, 1500).c_str());
		fflush(stdout);
	}
	void finish()
	{
		std::string p = strf("%s/stats-%s-%u", outdir.c_str(), harness.c_str(), shard);
		FILE *f = fopen((p + ".json").c_str(), "w");
		if (!f) { perror("stats"); _exit(98); }
		fprintf(f, "{\"evals\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long) evals,
			(unsigned long long) nviol);
		bool first = true;
		for (auto &c : cnt) {
			fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long) c.second);
			first = false;
		}
		fprintf(f, "},\"samples\":[");
		first = true;
		for (auto &s : samples) { fprintf(f, "%s%s", first ? "" : ",", jesc(s).c_str()); first = false; }
		fprintf(f, "]}\n");
		fclose(f);
		f = fopen((p + ".hashes").c_str(), "wb");
		if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); }
	}
};

extern Mon M;
static volatile sig_atomic_t mon_in_case;

#ifdef __has_feature
# if __has_feature(thread_sanitizer)
#  define MON_NOTSAN __attribute__((no_sanitize("thread"), noinline))
# endif
#endif
#ifndef MON_NOTSAN
# define MON_NOTSAN
#endif
inline char mon_notepath[1024];
// Best effort, from a signal or sanitizer death callback: no allocation, nothing intercepted.
MON_NOTSAN inline void mon_dump_case(const char *what)
{
	char b[128]; size_t n = 0;
	for (const char *p = "\nCASEINFO\t"; *p; ++p) b[n++] = *p;
	for (const char *p = what; *p; ++p) b[n++] = *p;
	b[n++] = '\t';
	char d[24]; int k = 0; uint64_t v = M.cur; do d[k++] = (char) ('0' + v % 10); while (v /= 10);
	while (k) b[n++] = d[--k];
	b[n++] = '\n';
	long r = syscall(SYS_write, 1, b, n); (void) r;
	int fd = (int) syscall(SYS_openat, AT_FDCWD, mon_notepath, O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { r = syscall(SYS_write, fd, M.note.data(), M.note.size()); syscall(SYS_close, fd); }
}
inline void mon_alarm(int) { mon_dump_case("HANG"); _exit(97); }

#if defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#  define MON_SAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
# define MON_SAN 1
#endif
#ifdef MON_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void mon_death() { mon_dump_case("CRASH"); }
#endif
inline void mon_sig(int s) { mon_dump_case("CRASH"); signal(s, SIG_DFL); raise(s); }

// Each harness defines: the per-case function and optional init/fini.
void run_case(Rng &rng);
void harness_init() __attribute__((weak));
void harness_fini() __attribute__((weak));

#ifdef MON_MAIN
Mon M;
int main(int argc, char **argv)
{
	unsigned casetime = 30;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i]; const char *v = argv[i + 1];
		if (a == "--seed") M.seed = strtoull(v, 0, 0);
		else if (a == "--from") M.from = strtoull(v, 0, 0);
		else if (a == "--to") M.to = strtoull(v, 0, 0);
		else if (a == "--out") M.outdir = v;
		else if (a == "--prop") M.prop = v;
		else if (a == "--harness") M.harness = v;
		else if (a == "--variant") M.variant = v;
		else if (a == "--shard") M.shard = (unsigned) atoi(v);
		else if (a == "--tier") M.thorough = !strcmp(v, "thorough");
		else if (a == "--replay") M.replay = atoi(v);
		else if (a == "--casetime") casetime = (unsigned) atoi(v);
		else { fprintf(stderr, "bad arg %s\n", argv[i]); return 99; }
	}
	M.scratch = strf("%s/scratch-%s-%u", M.outdir.c_str(), M.harness.c_str(), M.shard);
	mkdir(M.scratch.c_str(), 0700);
	snprintf(mon_notepath, sizeof mon_notepath, "%s/crash-%s-%u.note", M.outdir.c_str(), M.harness.c_str(), M.shard);
#ifdef MON_SAN
	__sanitizer_set_death_callback(mon_death);
#else
	signal(SIGSEGV, mon_sig); signal(SIGBUS, mon_sig); signal(SIGFPE, mon_sig); signal(SIGILL, mon_sig);
#endif
	signal(SIGABRT, mon_sig);
	signal(SIGALRM, mon_alarm);
	if (harness_init) harness_init();
	for (M.cur = M.from; M.cur < M.to; M.cur++) {
		// CPU time would be fairer than wall time, but a deadlock uses none.
		alarm(casetime);
		Rng r(M.seed * 0x9e3779b97f4a7c15ull ^ (M.cur + 1) * 0xd1342543de82ef95ull ^ hashs(M.harness));
		M.note.clear();
		run_case(r);
		M.evals++;
	}
	alarm(0);
	if (harness_fini) harness_fini();
	M.finish();
	return 0;
}
#endif
