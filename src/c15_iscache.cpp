// C15: the image section cache is transparent.
#include "imgmodel.hpp"
#include <cerrno>
#include <fcntl.h>

static std::map<void *, size_t> maps; static bool mmap_fails, tracking = false; static size_t nmaps, nfallback;
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);
extern "C" void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
	if (!tracking || fd < 0) return __real_mmap(a, n, p, f, fd, o);
	if (mmap_fails) { nfallback++; errno = ENOMEM; return MAP_FAILED; }
	void *r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED) { maps[r] = n; nmaps++; }
	return r;
}
extern "C" int __wrap_munmap(void *a, size_t n)
{
	if (tracking) { auto it = maps.find(a); if (it == maps.end() || it->second != n) M.violation("munmap", strf("unmapping %p %zu which is not a mapped section", a, n)); else maps.erase(it); }
	return __real_munmap(a, n);
}
static int BIG;	// a sparse file with contents far behind
static int BIG2;	// the same file, 4G behind that
static const uint64_t BIGOFF = 0x90000000ull;
static uint64_t fileoff(int f) { return f == BIG ? BIGOFF : f == BIG2 ? BIGOFF + (1ull << 32) : 0; }
void harness_init()
{
	make_files();
	// page multiple sizes and a long one
	Rng r(5);
	for (size_t n : { 8192ul, 70000ul, 1ul }) { FileM f; f.name = M.scratch + strf("/g%zu", n); for (size_t k = 0; k < n; ++k) f.b.push_back((uint8_t) r.next()); FILE *o = fopen(f.name.c_str(), "w"); fwrite(f.b.data(), 1, n, o); fclose(o); files.push_back(f); }
	FileM f; f.name = M.scratch + "/sparse"; for (size_t k = 0; k < 5000; ++k) f.b.push_back(files[3].b[k]);
	int fd = open(f.name.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0 || pwrite(fd, f.b.data(), f.b.size(), (off_t) BIGOFF) != (ssize_t) f.b.size()) abort();
	BIG = (int) files.size(); files.push_back(f);
	{ Rng q(7); f.b = code_bytes(q, 5000); }
	if (pwrite(fd, f.b.data(), f.b.size(), (off_t) (BIGOFF + (1ull << 32))) != (ssize_t) f.b.size()) abort();
	close(fd); BIG2 = (int) files.size(); files.push_back(f);
}
void harness_fini() { unlink(files[(size_t) BIG].name.c_str()); M.count("mappings", nmaps); M.count("mmap_failures", nfallback); }

struct SecM { int file; uint64_t off, size, va; int isid; };

void run_case(Rng &r)
{
	hist.clear(); base = r.chance(20) ? 0ull - r.range(100, 3000) : r.chance(10) ? 0 : r.wide(47) + 0x1000;
	tracking = true; mmap_fails = false; maps.clear();
	const char *name = r.chance(50) ? "some name" : nullptr;
	struct pt_image_section_cache *isc = pt_iscache_alloc(name);
	if (!isc || (name ? strcmp(pt_iscache_name(isc), name) != 0 : pt_iscache_name(isc) != nullptr)) { M.violation("name", "name"); }
	bool failing = r.chance(15);
	uint64_t limit = ~0ull; auto setlimit = [&] { limit = r.chance(15) ? 0 : r.chance(15) ? ~0ull : r.wide(18); hist += strf("limit %llu\n", (unsigned long long) limit); if (pt_iscache_set_limit(isc, limit) < 0) bad("limit-rc", "set_limit"); };
	if (r.chance(70)) setlimit();
	std::vector<SecM> secs; std::vector<std::unique_ptr<ImageM>> im; std::vector<std::unique_ptr<Walk>> walks; bool ok = true; uint64_t hh = limit;
	for (int k = 0; k < 2; ++k) { im.emplace_back(new ImageM); im.back()->id = k; im.back()->im = pt_image_alloc("i"); }
	int nops = (int) r.range(4, r.chance(5) ? 300 : 60), maxid = 0;
	for (int o = 0; o < nops && ok; ++o) {
		mmap_fails = failing && r.chance(50);
		int op = (int) r.below(100);
		if (op < 30 && isc) {
			int f = r.chance(8) ? r.chance(50) ? BIG : BIG2 : (int) r.below(files.size() - 2); uint64_t fs = files[(size_t) f].b.size(), lo = fileoff(f);
			uint64_t off = r.chance(40) ? 0 : r.below(fs + 2), n = r.chance(15) ? r.wide(64) : r.chance(50) ? r.range(1, 5000) : r.range(1, 40), va = r.chance(50) ? base + r.below(64) : base + 16 * r.below(4);
			if (!secs.empty() && r.chance(50)) { auto &s = secs[r.below(secs.size())]; f = s.file; fs = files[(size_t) f].b.size(); lo = fileoff(f); off = s.off; n = r.chance(50) ? s.size : s.off + s.size == fs ? s.size + r.wide(40) : r.range(1, 100); if (r.chance(60)) va = s.va; else if (r.chance(40)) { va = s.va ^ (1ull << r.range(12, 47)); M.count("same_range_elsewhere"); }
				if ((f == BIG || f == BIG2) && r.chance(50)) { f = BIG + BIG2 - f; lo = fileoff(f); M.count("offset_4g_apart"); } }
			if (f == BIG) { if (off >= fs) off = 0; n = std::min(n, fs - off); }
			if (!n) n = 1;
			if (va < base || va + n < va) { va = base; if (va + n < va || n > (1ull << 40)) { n = std::max<uint64_t>(1, std::min<uint64_t>(n, 0ull - va - 1)); if (va + n < va) continue; } }
			hist += strf("add file %d off=%llu size=%llu va=%llx -> ", f, (unsigned long long) off, (unsigned long long) n, (unsigned long long) va);
			int id = pt_iscache_add_file(isc, files[(size_t) f].name.c_str(), lo + off, n, va); hist += strf("%d\n", id);
			if (off >= fs) { if (id != -pte_invalid) ok = bad("add-beyond", strf("offset beyond the end of the file: %d", id)); continue; }
			uint64_t sz = std::min(n, fs - off); SecM *same = nullptr; for (auto &s : secs) if (s.file == f && s.off == off && s.size == sz && s.va == va) same = &s;
			if (id <= 0) { ok = bad("add-rc", strf("add: %d", id)); continue; }
			if (same) { M.count("same_again"); if (same->isid != id) ok = bad("isid-unstable", strf("section %d is now %d", same->isid, id)); }
			else { for (auto &s : secs) if (s.isid == id) { ok = bad("isid-shared", strf("two different sections are %d", id)); break; } secs.push_back({ f, off, sz, va, id }); maxid = std::max(maxid, id); M.count("sections"); }
		} else if (op < 60 && isc) {
			SecM *s = secs.empty() || r.chance(5) ? nullptr : &secs[r.below(secs.size())]; int id = s ? s->isid : 0;
			uint64_t n = r.chance(10) ? r.range(1, 70000) : r.range(1, 64), va = s ? s->va + r.below(std::min<uint64_t>(s->size, 1u << 20)) : base;
			if (s && r.chance(30)) va = s->va + s->size - 1 - r.below(std::min<uint64_t>(s->size, 20));
			int want = 0; if (!s) { do switch (r.below(6)) { case 0: id = 0; break; case 1: id = -1 - (int) r.below(100); break; case 2: id = maxid + 1; break; case 3: id = 0x7fffffff; break; case 4: id = 65536 + (int) r.below(3); break; default: id = (int) r.below(100000); }
				while ([&] { for (auto &q : secs) if (q.isid == id) return true; return false; }()); want = -pte_bad_image; }
			else if (r.chance(10)) { switch (r.below(4)) { case 0: va = s->va - 1 - r.below(20); break; case 1: va = s->va + s->size; break; case 2: va = s->va + s->size + r.wide(62); break; default: va = r.next(); }
				if (!(va - s->va < s->size)) want = -pte_nomap; if (va < s->va) want = -pte_nomap; }
			std::vector<uint8_t> buf(n, 0xa5); hist += strf("read %d va=%llx size=%llu\n", id, (unsigned long long) va, (unsigned long long) n);
			if (r.chance(2)) { int e = r.chance(50) ? pt_iscache_read(isc, nullptr, n, id, va) : pt_iscache_read(isc, buf.data(), 0, id, va); if (e != -pte_invalid) ok = bad("read-invalid", strf("%d", e)); continue; }
			int e = pt_iscache_read(isc, buf.data(), n, id, va);
			if (want < 0) { M.count(strf("refused:%d", e)); if (e != want) ok = bad("read-rc", strf("%d instead of %d", e, want)); continue; }
			if (e <= 0) { ok = bad("read-rc", strf("read: %d", e)); continue; }
			uint64_t at = va - s->va, have = std::min(n, s->size - at);
			if ((uint64_t) e > have || (uint64_t) e < std::min<uint64_t>(have, 4096)) { ok = bad("read-size", strf("%d bytes read, %llu there, %llu wanted", e, (unsigned long long) (s->size - at), (unsigned long long) n)); continue; }
			if (memcmp(buf.data(), &files[(size_t) s->file].b[s->off + at], (size_t) e)) { ok = bad("read-bytes", strf("wrong bytes at %llx", (unsigned long long) va)); continue; }
			for (uint64_t k = (uint64_t) e; k < n; ++k) if (buf[k] != 0xa5) { ok = bad("read-beyond", "buffer changed beyond the bytes read"); break; }
			M.count("reads"); M.count("bytes", (uint64_t) e); if (s->file >= BIG) M.count("reads_file_based"); if ((uint64_t) e < n) M.count("short_reads"); hh = hash64(&va, 8, hh) + (uint64_t) e;
		} else if (op < 66 && isc) setlimit();
		else if (op < 76 && isc && !secs.empty()) {
			ImageM &m = *im[r.below(im.size())]; SecM &s = secs[r.below(secs.size())]; if (s.file > 3 && s.file < BIG) continue; if (s.va + s.size < s.va || s.va == 0 || s.size > 100000) continue;
			hist += strf("image %d add cached %d\n", m.id, s.isid); int e = pt_image_add_cached(m.im, isc, s.isid, nullptr); if (e < 0) { ok = bad("add-cached", strf("%d", e)); continue; } M.count("shared");
			m.add({ pt_asid_no_cr3, pt_asid_no_vmcs, s.va, s.va + s.size - 1, s.off, s.file, s.isid });
		} else if (op < 77 && isc) { // unknown sections cannot be added
			int id = r.chance(50) ? maxid + 1 + (int) r.below(70000) : -(int) r.below(3); int e = pt_image_add_cached(im[0]->im, isc, id, nullptr); if (e != -pte_bad_image) ok = bad("add-unknown", strf("isid %d: %d", id, e)); M.count("unknown");
		} else if (op < 79 && isc && r.chance(20)) { pt_iscache_free(isc); isc = nullptr; hist += "cache freed\n"; M.count("cache_freed_early"); }
		else if (op < 92 || walks.empty()) {
			ImageM &m = *im[r.below(im.size())]; if (m.p.empty()) continue; auto &x = m.p[r.below(m.p.size())];
			std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = 0x1000; w->vmcs = 0x2000; w->ip = x.b + r.below(std::min<uint64_t>(x.last - x.b, 200) + 1);
			if (!start(r, *w)) { ok = false; break; }
			for (int k = (int) r.range(1, 20); k && !w->dead && ok; --k) ok = step(*w);
			M.count("walks"); if (!w->dead && r.chance(50)) walks.push_back(std::move(w)); if (walks.size() > 3) walks.erase(walks.begin());
		} else { size_t q = r.below(walks.size()); if (r.chance(40)) walks.erase(walks.begin() + (long) q); else for (int k = (int) r.range(1, 10); k && !walks[q]->dead && ok; --k) ok = step(*walks[q]); }
		if (walks.empty() && isc && ok) {
			uint64_t sum = 0; for (auto &x : maps) sum += x.second;
			if (sum > limit) ok = bad("limit", strf("%llu bytes mapped with a limit of %llu", (unsigned long long) sum, (unsigned long long) limit));
			if (sum) M.count("kept_mapped"); else M.count("nothing_mapped");
		}
	}
	M.nontrivial(hh);
	walks.clear(); bool first = r.chance(50); if (isc && first) pt_iscache_free(isc);
	for (auto &m : im) pt_image_free(m->im);
	if (isc && !first) pt_iscache_free(isc);
	if (!maps.empty() && ok) bad("leaked-mapping", strf("%zu mappings left after everything was freed", maps.size()));
	maps.clear(); tracking = false;
	if (M.cur % 4999 == 0) M.sample(hist.substr(0, 600));
}
