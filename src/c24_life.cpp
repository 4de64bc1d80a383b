// C24: sections follow their files and live exactly as long as they are used.
#define AM_MAIN
#include "allocmon.hpp"
#define LIBCALL(x) L([&] { return x; })
#include "imgmodel.hpp"
#include <algorithm>

// A path and what is currently there: a version (an entry of @files with its modification time) or nothing.
struct PathM { std::string name; int cur = -1; std::vector<int> vers; uint64_t hash = 0; };
static std::vector<PathM> P; static std::vector<time_t> mtimes; static std::vector<int> path_of;
struct SecM { int file; uint64_t off, size, va; int isid; };

static bool idle() { return AM.maps.empty() && AM.files.empty() && AM.fds.empty(); }
static bool stale(int ver) { return P[(size_t) path_of[(size_t) ver]].cur != ver; }
static int stale_error(int ver) { return P[(size_t) path_of[(size_t) ver]].cur < 0 ? -pte_bad_file : -pte_bad_image; }
static bool tolerate(const Walk &w, uint64_t ip, int rc)
{
	if (rc != -pte_bad_image && rc != -pte_bad_file) return false;
	for (uint64_t k = 0; k < 15 && ip + k >= ip; ++k) {
		const PieceM *x = w.im->find(w.cr3, w.vmcs, ip + k);
		if (!x) return false;
		if (stale(x->file) && stale_error(x->file) == rc) { M.count("stale_detected_by_decoder"); return true; }
	}
	return false;
}
static void put(const std::string &name, const Bytes &b, time_t mt, int how)
{
	// how: 0 in place, 1 replace by renaming, 2 delete first
	std::string t = how == 1 ? name + ".new" : name;
	if (how == 2) unlink(name.c_str());
	int fd = open(t.c_str(), O_WRONLY | O_CREAT | (how == 0 ? O_TRUNC : O_TRUNC), 0600); if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t) b.size()) _exit(98);
	struct timespec ts[2] = { { mt, 0 }, { mt, 0 } }; futimens(fd, ts); close(fd);
	if (how == 1 && rename(t.c_str(), name.c_str())) _exit(98);
}
static int new_version(Rng &r, PathM &p, int pi)
{
	FileM f; f.name = p.name; time_t mt; size_t n;
	for (;;) {
		int old = p.vers.empty() ? -1 : p.vers[r.below(p.vers.size())];
		n = old >= 0 && r.chance(50) ? files[(size_t) old].b.size() : r.chance(50) ? r.range(1, 300) : r.range(1, 9000);
		if (old >= 0 && r.chance(20)) n = files[(size_t) old].b.size() + 1 - 2 * r.below(2); if (!n) n = 1;
		mt = old >= 0 && r.chance(50) ? mtimes[(size_t) old] : 1000000 + (time_t) r.below(1000);
		if (old >= 0 && r.chance(30)) mt = mtimes[(size_t) old] + (r.chance(50) ? 1 : -1);
		bool dup = false; for (int v : p.vers) if (files[(size_t) v].b.size() == n && mtimes[(size_t) v] == mt) dup = true;
		if (!dup) break;
	}
	f.b = code_bytes(r, n); if (f.b.size() > n) f.b[n - 1] = 0x90; f.b.resize(n, 0x90); files.push_back(f); mtimes.push_back(mt); path_of.push_back(pi); p.vers.push_back((int) files.size() - 1);
	return p.vers.back();
}
void run_case(Rng &r)
{
	hist.clear(); AM.forget(); AM.disarm(); files.clear(); mtimes.clear(); path_of.clear(); P.clear(); tolerated = tolerate;
	int np = (int) r.range(1, 3);
	for (int k = 0; k < np; ++k) { PathM p; p.name = M.scratch + strf("/p%d", k); P.push_back(p); int v = new_version(r, P.back(), k); put(p.name, files[(size_t) v].b, mtimes[(size_t) v], 2); P.back().cur = v; }
	struct pt_image_section_cache *isc = L([&] { return pt_iscache_alloc(r.chance(50) ? "n" : nullptr); }); uint64_t limit = ~0ull;
	std::vector<std::unique_ptr<ImageM>> im; std::vector<std::unique_ptr<Walk>> walks; std::vector<SecM> secs; int ids = 0;
	auto new_image = [&] { im.emplace_back(new ImageM); im.back()->id = ids++; im.back()->im = L([&] { return pt_image_alloc(r.chance(50) ? "i" : nullptr); }); };
	new_image(); if (r.chance(50)) new_image();
	base = r.chance(50) ? 0x400000 : 0xffffffff81000000ull; bool ok = true; uint64_t hh = 0; bool filebased = r.chance(25);
	auto addr = [&] { return base + r.below(r.chance(50) ? 64 : 600); };
	auto drop_walks = [&](ImageM *m) { walks.erase(std::remove_if(walks.begin(), walks.end(), [&](std::unique_ptr<Walk> &w) { return w->im == m; }), walks.end()); };
	auto walk_on = [&](Walk &w, int n) {
		for (; n && !w.dead && ok; --n) {
			const PieceM *x = w.im->find(w.cr3, w.vmcs, w.ip); bool must = x && stale(x->file) && idle(); uint64_t ip = w.ip;
			ok = step(w);
			if (ok && must && !w.dead) ok = bad("stale-read", strf("instructions at %llx decoded from a file that has changed and was not mapped", (unsigned long long) ip));
			if (must) M.count("stale_walks");
		}
	};
	int nops = (int) r.range(5, 50);
	for (int o = 0; o < nops && ok; ++o) {
		if (filebased && r.chance(60)) AM.arm(0, true, AllocMon::MAP); else AM.disarm();
		int op = (int) r.below(100);
		if (op < 22) {	// add
			int pi = (int) r.below(P.size()); PathM &p = P[(size_t) pi]; size_t fs = p.cur < 0 ? 100 : files[(size_t) p.cur].b.size();
			uint64_t off = r.chance(50) ? 0 : r.below(fs + (r.chance(10) ? 20 : 0)), n = r.chance(40) ? r.wide(30) : r.range(1, 200), va = addr(); if (!n) n = 1;
			bool cached = isc && r.chance(60);
			if (cached && !secs.empty() && r.chance(40)) { auto &s = secs[r.below(secs.size())]; if (path_of[(size_t) s.file] == pi) { off = s.off; if (r.chance(70)) n = s.size; if (r.chance(50)) va = s.va; } }
			uint64_t have = p.cur >= 0 && off < fs ? std::min<uint64_t>(n, fs - off) : 0; int want = p.cur < 0 ? -pte_bad_file : !have ? -pte_invalid : 0;
			ImageM *m = im.empty() ? nullptr : im[r.below(im.size())].get();
			if (cached) {
				// The cache shares sections by name and range, also if the file has changed since.
				SecM *same = nullptr, *share = nullptr; uint64_t fsz = n;
				for (auto &s : secs) if (P[(size_t) path_of[(size_t) s.file]].name == p.name && s.off == off && s.size == n) { share = &s; if (s.va == va) same = &s; }
				if (!share && have) { fsz = have; for (auto &s : secs) if (P[(size_t) path_of[(size_t) s.file]].name == p.name && s.off == off && s.size == have) { share = &s; if (s.va == va) same = &s; } }
				if (share) { want = 0; M.count("shared_in_cache"); }
				hist += strf("cache add path %d (version %d) off=%llu size=%llu va=%llx", pi, p.cur, (unsigned long long) off, (unsigned long long) n, (unsigned long long) va);
				int id = L([&] { return pt_iscache_add_file(isc, p.name.c_str(), off, n, va); }); hist += strf(" -> %d\n", id);
				if (want < 0 || id <= 0) { if (id != want) ok = bad("add-rc", strf("pt_iscache_add_file: %d instead of %d", id, want)); else M.count(strf("refused:%d", id)); continue; }
				if (same) { if (same->isid != id) ok = bad("isid", strf("section %d is now %d", same->isid, id)); }
				else secs.push_back({ share ? share->file : p.cur, off, fsz, va, id });
				M.count("cached");
				if (m && r.chance(60)) {
					SecM &s = same ? *same : secs.back(); int e = L([&] { return pt_image_add_cached(m->im, isc, id, nullptr); }); hist += strf("image %d add cached %d\n", m->id, id);
					if (e < 0) { ok = bad("add-cached", strf("%d", e)); continue; }
					m->add({ pt_asid_no_cr3, pt_asid_no_vmcs, s.va, s.va + s.size - 1, s.off, s.file, s.isid });
				}
			} else if (m) {
				hist += strf("image %d add path %d (version %d) off=%llu size=%llu va=%llx\n", m->id, pi, p.cur, (unsigned long long) off, (unsigned long long) n, (unsigned long long) va);
				int e = L([&] { return pt_image_add_file(m->im, p.name.c_str(), off, n, nullptr, va); });
				if (e != want) { ok = bad("add-rc", strf("pt_image_add_file: %d instead of %d", e, want)); continue; }
				if (e < 0) { M.count(strf("refused:%d", e)); continue; }
				m->add({ pt_asid_no_cr3, pt_asid_no_vmcs, va, va + have - 1, off, p.cur, 0 }); M.count("added");
			}
		} else if (op < 25) {	// unsuitable files
			std::string n; int want = 0;
			switch (r.below(4)) { case 0: n = M.scratch + "/missing"; want = -pte_bad_file; break; case 1: n = M.scratch + "/p0/x"; want = -pte_bad_file; break; case 2: n = "/" + std::string(FILENAME_MAX + r.below(3), 'a'); want = -pte_invalid; break; default: n = M.scratch + "/empty"; put(n, Bytes(), 5, 2); want = -pte_invalid; }
			int e = isc && r.chance(50) ? L([&] { return pt_iscache_add_file(isc, n.c_str(), r.below(2), r.range(1, 10), base); }) : im.empty() ? want : L([&] { return pt_image_add_file(im[0]->im, n.c_str(), 0, 10, nullptr, base); });
			if (e != want) ok = bad("add-rc", strf("adding %s: %d instead of %d", n.substr(0, 60).c_str(), e, want)); M.count("unsuitable");
		} else if (op < 29 && im.size() > 1) {
			ImageM &a = *im[r.below(im.size())], &b = *im[r.below(im.size())]; hist += strf("image %d copy from %d\n", a.id, b.id);
			int e = L([&] { return pt_image_copy(a.im, b.im); }); if (e) { ok = bad("copy", strf("%d", e)); continue; }
			if (&a != &b) { std::vector<PieceM> q = b.p; for (auto &x : q) a.add(x); M.count("copies"); }
		} else if (op < 32 && !im.empty()) {
			ImageM &m = *im[r.below(im.size())]; int pi = (int) r.below(P.size()); hist += strf("image %d remove path %d\n", m.id, pi);
			int e = L([&] { return pt_image_remove_by_filename(m.im, P[(size_t) pi].name.c_str(), nullptr); }), k = 0; std::vector<PieceM> q;
			for (auto &x : m.p) if (path_of[(size_t) x.file] == pi) k++; else q.push_back(x);
			m.p = q; if (e != k) ok = bad("remove", strf("%d sections removed, reported %d", k, e));
		} else if (op < 50) {	// the file changes
			int pi = (int) r.below(P.size()); PathM &p = P[(size_t) pi]; int how = idle() ? (int) r.below(3) : 1 + (int) r.below(2);
			if (r.chance(25)) { unlink(p.name.c_str()); p.cur = -1; M.count("deleted"); hist += strf("delete path %d\n", pi); continue; }
			int v = r.chance(30) ? p.vers[r.below(p.vers.size())] : new_version(r, p, pi); if (p.cur < 0) how = 2;
			put(p.name, files[(size_t) v].b, mtimes[(size_t) v], how); hist += strf("path %d is version %d (%zu bytes, mtime %ld)%s\n", pi, v, files[(size_t) v].b.size(), (long) mtimes[(size_t) v], how == 0 ? " in place" : how == 1 ? " renamed" : "");
			if (p.cur >= 0) M.count(files[(size_t) p.cur].b.size() == files[(size_t) v].b.size() ? "changed_time_only" : mtimes[(size_t) p.cur] == mtimes[(size_t) v] ? "changed_size_only" : "changed"); if (how == 0) M.count("changed_in_place");
			p.cur = v;
		} else if (op < 66 && isc && !secs.empty()) {
			SecM &s = secs[r.below(secs.size())]; uint64_t at = r.below(s.size), n = r.chance(10) ? r.range(1, 70000) : r.range(1, 64), have = std::min(n, s.size - at); std::vector<uint8_t> buf(n, 0xa5);
			bool st = stale(s.file), must = st && idle(); hist += strf("read section %d (version %d%s) +%llu size=%llu\n", s.isid, s.file, st ? " stale" : "", (unsigned long long) at, (unsigned long long) n);
			int e = L([&] { return pt_iscache_read(isc, buf.data(), n, s.isid, s.va + at); });
			if (e < 0 && st) { if (e != stale_error(s.file)) ok = bad("stale-rc", strf("%d instead of %d", e, stale_error(s.file))); else M.count("stale_detected"); continue; }
			if (must) { ok = bad("stale-read", strf("section %d read although its file has changed", s.isid)); continue; }
			if (e < 0) { ok = bad("read-rc", strf("section %d: %d", s.isid, e)); continue; }
			if ((uint64_t) e > have || !e || memcmp(buf.data(), &files[(size_t) s.file].b[s.off + at], (size_t) e)) { ok = bad("read-bytes", strf("section %d: wrong bytes", s.isid)); continue; }
			M.count(st ? "reads_of_kept_mapping" : "reads"); hh = hh * 31 + (uint64_t) e + at;
		} else if (op < 70 && isc) { limit = r.chance(40) ? 0 : r.chance(50) ? r.wide(15) : ~0ull; hist += strf("limit %llu\n", (unsigned long long) limit); if (L([&] { return pt_iscache_set_limit(isc, limit); }) < 0) ok = bad("limit", "set_limit"); }
		else if (op < 73) { if (isc && r.chance(30)) { hist += "free cache\n"; L([&] { pt_iscache_free(isc); return 0; }); isc = nullptr; secs.clear(); M.count("cache_freed_first"); } }
		else if (op < 77) {
			if (im.size() < 3 && r.chance(50)) { new_image(); continue; }
			if (im.size() < 2) continue;
			size_t q = r.below(im.size()); hist += strf("free image %d\n", im[q]->id);
			// Decoders keep what they use until they are freed, too; they just cannot go on without their image.
			std::vector<std::unique_ptr<Walk>> mine; for (auto &w : walks) if (w->im == im[q].get()) mine.push_back(std::move(w));
			walks.erase(std::remove(walks.begin(), walks.end(), nullptr), walks.end());
			bool after = r.chance(50); if (!after) mine.clear(); L([&] { pt_image_free(im[q]->im); return 0; }); mine.clear(); if (after) M.count("image_freed_before_decoder");
			im.erase(im.begin() + (long) q); M.count("images_freed");
		} else if (op < 92) {
			if (im.empty()) continue; ImageM &m = *im[r.below(im.size())]; if (m.p.empty()) continue; auto &x = m.p[r.below(m.p.size())];
			std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = 0x1000; w->vmcs = 0x2000; w->ip = x.b + (r.chance(50) ? 0 : r.below(std::min<uint64_t>(x.last - x.b, 300) + 1));
			if (!start(r, *w)) { ok = false; break; }
			walk_on(*w, (int) r.range(1, 20)); M.count("walks"); hh = hash64(&w->ip, 8, hh);
			if (!w->dead && r.chance(60)) walks.push_back(std::move(w)); if (walks.size() > 3) walks.erase(walks.begin());
		} else if (!walks.empty()) { size_t q = r.below(walks.size()); if (r.chance(30)) walks.erase(walks.begin() + (long) q); else { hist += strf("continue walk at %llx\n", (unsigned long long) walks[q]->ip); walk_on(*walks[q], (int) r.range(1, 10)); M.count("continued"); if (walks[q]->dead && r.chance(50)) walks.erase(walks.begin() + (long) q); } }
		if (!AM.bad.empty() && ok) ok = bad("release", AM.bad);
		if (!AM.fds.empty() && ok) ok = bad("descriptor", strf("%zu descriptors open after a call", AM.fds.size()));
		if (ok && walks.empty() && (!isc || !limit)) {
			// Nobody keeps anything mapped, except file based sections, which do not count for the limit.
			if (!AM.maps.empty() || (!isc && !AM.files.empty())) ok = bad("kept", strf("%s with no decoder and %s", AM.live().c_str(), isc ? "a cache limit of zero" : "no cache")); M.count("nothing_mapped");
		}
	}
	AM.disarm(); M.nontrivial(hh);
	// free everything in any order
	while (!walks.empty() || !im.empty() || isc) {
		switch (r.below(3)) {
		case 0: if (!walks.empty()) walks.erase(walks.begin() + (long) r.below(walks.size())); break;
		case 1: if (!im.empty()) {
			size_t q = r.below(im.size()); L([&] { pt_image_free(im[q]->im); return 0; });
			im.erase(im.begin() + (long) q); break;
		} break;
		case 2: if (isc) { L([&] { pt_iscache_free(isc); return 0; }); isc = nullptr; } break;
		}
	}
	if (ok && !AM.bad.empty()) bad("release", AM.bad);
	if (ok && !AM.clean()) bad("leak", "left after everything was freed: " + AM.live());
	for (auto &p : P) unlink(p.name.c_str());
	if (M.cur % 4999 == 0) M.sample(hist.substr(0, 600));
}
