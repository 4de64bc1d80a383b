// C22: running out of memory is reported cleanly.
#define AM_MAIN
#include "allocmon.hpp"
#define LIBCALL(x) L([&] { return x; })
#include "imgmodel.hpp"
#include <algorithm>
extern "C" {
#include "libipt-sb.h"
}

struct SecM { int file; uint64_t off, size, va; int isid; };
static bool env_error(int rc) { return rc == -pte_nomem || rc == -pte_bad_file; }
static bool tolerate(const Walk &, uint64_t, int rc) { return AM.failed && env_error(rc); }
static Rng *R; static unsigned rate;
// Arms a failure for the next call, maybe.
static void arm()
{
	if (!R->chance(rate)) { AM.disarm(); AM.failed = 0; return; }
	AM.arm((long) R->below(R->chance(80) ? 4 : 12), R->chance(40), R->chance(60) ? ~0u : R->chance(50) ? AllocMon::HEAP : AllocMon::MAP | AllocMon::FILES);
}
static bool injected(const char *what)
{
	bool f = AM.failed > 0; AM.disarm();
	if (f) { M.count("injected"); M.count(strf("injected:%s", what)); M.count("kind:" + AM.failed_kind); hist += strf("  (%s failed in %s)\n", AM.failed_kind.c_str(), what); }
	return f;
}
void harness_init() { make_files(); }

void run_case(Rng &r)
{
	R = &r; hist.clear(); AM.forget(); AM.disarm(); AM.failed = 0; tolerated = tolerate; rate = r.chance(50) ? 25 : 60;
	struct pt_image_section_cache *isc = nullptr; std::vector<std::unique_ptr<ImageM>> im; std::vector<std::unique_ptr<Walk>> walks; std::vector<SecM> secs; int ids = 0; uint64_t hh = 0, nfail = 0; bool ok = true;
	base = 0x400000;
	auto addr = [&] { return base + r.below(r.chance(50) ? 64 : 600); };
	auto verify = [&] {	// objects give correct results when memory is available
		AM.disarm(); AM.failed = 0;
		for (int k = 0; k < 2 && ok && !im.empty(); ++k) {
			ImageM &m = *im[r.below(im.size())]; std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = 0x1000; w->vmcs = 0x2000; w->ip = addr();
			if (!m.p.empty()) { auto &x = m.p[r.below(m.p.size())]; w->ip = x.b + r.below(std::min<uint64_t>(x.last - x.b, 200) + 1); }
			if (!(ok = start(r, *w))) return;
			for (int n = 8; n && !w->dead && ok; --n) ok = step(*w);
			M.count("verified_walks");
		}
		if (isc && !secs.empty() && ok) {
			SecM &s = secs[r.below(secs.size())]; uint64_t at = r.below(s.size); uint8_t b[16];
			int e = L([&] { return pt_iscache_read(isc, b, sizeof b, s.isid, s.va + at); });
			if (e <= 0 || (uint64_t) e > s.size - at || memcmp(b, &files[(size_t) s.file].b[s.off + at], (size_t) e)) ok = bad("verify-read", strf("section %d: %d", s.isid, e));
			M.count("verified_reads");
		}
	};
	int nops = (int) r.range(5, 50);
	for (int o = 0; o < nops && ok; ++o) {
		if (!AM.fds.empty()) { ok = bad("descriptor", "descriptor left open"); break; }
		int op = (int) r.below(100); bool f = false;
		if (!isc && op < 30) {
			const char *n = r.chance(60) ? "cache" : nullptr; arm(); isc = L([&] { return pt_iscache_alloc(n); }); f = injected("pt_iscache_alloc");
			if (!isc) { if (!f) ok = bad("null", "pt_iscache_alloc failed"); }
			else if (n && (!pt_iscache_name(isc) || strcmp(pt_iscache_name(isc), n))) ok = bad("name", "the cache lost its name");
			secs.clear();
		} else if (op < 8 || im.empty()) {
			if (im.size() > 2) continue;
			const char *n = r.chance(60) ? "image" : nullptr; arm(); struct pt_image *i = L([&] { return pt_image_alloc(n); }); f = injected("pt_image_alloc");
			if (!i) { if (!f) ok = bad("null", "pt_image_alloc failed"); }
			else { if (n && (!pt_image_name(i) || strcmp(pt_image_name(i), n))) ok = bad("name", "the image lost its name"); im.emplace_back(new ImageM); im.back()->id = ids++; im.back()->im = i; }
		} else if (op < 30) {
			ImageM &m = *im[r.below(im.size())]; int fi = (int) r.below(4); uint64_t fs = files[(size_t) fi].b.size(), off = r.chance(50) ? 0 : r.below(fs), n = r.chance(40) ? r.wide(20) : r.range(1, 200), va = addr(); if (!n) n = 1; uint64_t have = std::min(n, fs - off);
			hist += strf("image %d add file %d off=%llu size=%llu va=%llx\n", m.id, fi, (unsigned long long) off, (unsigned long long) n, (unsigned long long) va);
			arm(); int e = L([&] { return pt_image_add_file(m.im, files[(size_t) fi].name.c_str(), off, n, nullptr, va); }); f = injected("pt_image_add_file");
			if (e < 0) { if (!f || !env_error(e)) ok = bad("add-rc", strf("pt_image_add_file: %d", e)); }
			else m.add({ pt_asid_no_cr3, pt_asid_no_vmcs, va, va + have - 1, off, fi, 0 });
		} else if (op < 48 && isc) {
			int fi = (int) r.below(4); uint64_t fs = files[(size_t) fi].b.size(), off = r.chance(50) ? 0 : r.below(fs), n = r.chance(40) ? r.wide(20) : r.range(1, 200), va = addr(); if (!n) n = 1;
			if (!secs.empty() && r.chance(30)) { auto &s = secs[r.below(secs.size())]; fi = s.file; fs = files[(size_t) fi].b.size(); off = s.off; n = s.size; if (r.chance(50)) va = s.va; else if (s.off + s.size == fs) n += r.below(100); }
			uint64_t sz = std::min(n, fs - off); SecM *same = nullptr; for (auto &s : secs) if (s.file == fi && s.off == off && s.size == sz && s.va == va) same = &s;
			hist += strf("cache add file %d off=%llu size=%llu va=%llx", fi, (unsigned long long) off, (unsigned long long) n, (unsigned long long) va);
			arm(); int id = L([&] { return pt_iscache_add_file(isc, files[(size_t) fi].name.c_str(), off, n, va); }); hist += strf(" -> %d\n", id); f = injected("pt_iscache_add_file");
			if (id <= 0) { if (!f || !env_error(id)) ok = bad("add-rc", strf("pt_iscache_add_file: %d", id)); }
			else if (same) { if (same->isid != id) ok = bad("isid", strf("%d is now %d", same->isid, id)); }
			else { for (auto &s : secs) if (s.isid == id) ok = bad("isid", strf("%d used twice", id)); secs.push_back({ fi, off, sz, va, id }); }
		} else if (op < 56 && isc && !secs.empty()) {
			ImageM &m = *im[r.below(im.size())]; SecM &s = secs[r.below(secs.size())]; hist += strf("image %d add cached %d\n", m.id, s.isid);
			arm(); int e = L([&] { return pt_image_add_cached(m.im, isc, s.isid, nullptr); }); f = injected("pt_image_add_cached");
			if (e < 0) { if (!f || !env_error(e)) ok = bad("add-rc", strf("pt_image_add_cached: %d", e)); }
			else m.add({ pt_asid_no_cr3, pt_asid_no_vmcs, s.va, s.va + s.size - 1, s.off, s.file, s.isid });
		} else if (op < 60 && im.size() > 1) {
			ImageM &a = *im[r.below(im.size())], &b = *im[r.below(im.size())]; if (&a == &b) continue; hist += strf("image %d copy from %d\n", a.id, b.id);
			arm(); int e = L([&] { return pt_image_copy(a.im, b.im); }); f = injected("pt_image_copy"); hist += strf("  -> %d\n", e);
			if (e && !f) ok = bad("copy", strf("pt_image_copy: %d", e));
			else if (!e) { std::vector<PieceM> q = b.p; for (auto &x : q) a.add(x); }
			else if (e > (int) b.p.size()) ok = bad("copy-count", strf("%d of %zu sections ignored", e, b.p.size()));
			else {
				// Some sections were not copied: every address has its old or its new contents.  Start over.
				if (L([&] { return pt_image_remove_by_asid(a.im, nullptr); }) < 0) ok = bad("remove", "pt_image_remove_by_asid"); a.p.clear(); M.count("partial_copies");
			}
		} else if (op < 66 && isc && !secs.empty()) {
			SecM &s = secs[r.below(secs.size())]; uint64_t at = r.below(s.size); uint8_t b[64]; uint64_t n = r.range(1, 64);
			arm(); int e = L([&] { return pt_iscache_read(isc, b, n, s.isid, s.va + at); }); f = injected("pt_iscache_read"); hist += strf("read %d -> %d\n", s.isid, e);
			if (e <= 0) { if (!f || !env_error(e)) ok = bad("read-rc", strf("pt_iscache_read: %d", e)); }
			else if ((uint64_t) e > std::min(n, s.size - at) || memcmp(b, &files[(size_t) s.file].b[s.off + at], (size_t) e)) ok = bad("read-bytes", strf("section %d", s.isid));
		} else if (op < 68 && isc) { uint64_t l = r.chance(50) ? 0 : r.wide(16); hist += strf("limit %llu\n", (unsigned long long) l); arm(); int e = L([&] { return pt_iscache_set_limit(isc, l); }); f = injected("pt_iscache_set_limit"); if (e < 0) ok = bad("limit", strf("%d", e)); }
		else if (op < 72) {
			// decoders and the encoder
			Bytes t; mencode(MP(K_PSB), t); mencode(MP(K_PSBEND), t); GuardBuf g(t.data(), t.size(), true); struct pt_config c; pt_config_init(&c); c.begin = g.begin; c.end = g.end(); const char *nm[] = { "pt_pkt_alloc_decoder", "pt_evt_alloc_decoder", "pt_qry_alloc_decoder", "pt_insn_alloc_decoder", "pt_blk_alloc_decoder", "pt_alloc_encoder" };
			int k = (int) r.below(6); void *d = nullptr; arm();
			L([&] { switch (k) { case 0: d = pt_pkt_alloc_decoder(&c); break; case 1: d = pt_evt_alloc_decoder(&c); break; case 2: d = pt_qry_alloc_decoder(&c); break; case 3: d = pt_insn_alloc_decoder(&c); break; case 4: d = pt_blk_alloc_decoder(&c); break; default: d = pt_alloc_encoder(&c); } return 0; });
			f = injected(nm[k]); hist += strf("%s -> %p\n", nm[k], d);
			if (!d) { if (!f) ok = bad("null", strf("%s failed", nm[k])); }
			else L([&] {
				int e = 0;
				switch (k) { case 0: e = pt_pkt_sync_forward((struct pt_packet_decoder *) d); pt_pkt_free_decoder((struct pt_packet_decoder *) d); break; case 1: e = pt_evt_sync_forward((struct pt_event_decoder *) d); pt_evt_free_decoder((struct pt_event_decoder *) d); break;
				case 2: e = pt_qry_sync_forward((struct pt_query_decoder *) d, nullptr); pt_qry_free_decoder((struct pt_query_decoder *) d); break; case 3: e = pt_insn_sync_forward((struct pt_insn_decoder *) d); pt_insn_free_decoder((struct pt_insn_decoder *) d); break;
				case 4: e = pt_blk_sync_forward((struct pt_block_decoder *) d); pt_blk_free_decoder((struct pt_block_decoder *) d); break; default: pt_free_encoder((struct pt_encoder *) d); }
				if (e < 0 && e != -pte_eos) ok = bad("decoder", strf("%s: sync: %d", nm[k], e)); return 0; });
		} else if (op < 90 || walks.empty()) {
			ImageM &m = *im[r.below(im.size())]; if (m.p.empty()) continue; auto &x = m.p[r.below(m.p.size())];
			std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = 0x1000; w->vmcs = 0x2000; w->ip = x.b + r.below(std::min<uint64_t>(x.last - x.b, 200) + 1); uint64_t ip = w->ip;
			if (!start(r, *w)) { ok = false; break; }
			for (int n = (int) r.range(1, 12); n && !w->dead && ok; --n) { arm(); ok = step(*w); if (injected(w->kind ? "pt_blk_next" : "pt_insn_next")) { f = true; if (w->dead) M.count("walk_failed"); else M.count("walk_continued"); } }
			if (f && ok) {	// the same decoder, again
				w->dead = false; w->ip = ip; w->nt = 0; AM.failed = 0; M.count("decoder_reused");
				w->st = w->kind ? LIBCALL(pt_blk_sync_set(w->b, 0)) : LIBCALL(pt_insn_sync_set(w->i, 0));
				while (w->st > 0 && w->st & pts_event_pending) { struct pt_event ev; w->st = w->kind == 0 ? LIBCALL(pt_insn_event(w->i, &ev, sizeof ev)) : LIBCALL(pt_blk_event(w->b, &ev, sizeof ev)); }
				if (w->st < 0) { ok = bad("resync", strf("%d", w->st)); break; }
				for (int n = 15; n && !w->dead && ok; --n) ok = step(*w);
			}
			if (!w->dead && r.chance(50) && walks.size() < 3) walks.push_back(std::move(w));
		} else { size_t q = r.below(walks.size()); if (r.chance(30)) walks.erase(walks.begin() + (long) q); else { arm(); ok = step(*walks[q]); f = injected("next"); if (walks[q]->dead) walks.erase(walks.begin() + (long) q); } }
		if (f) { nfail++; hh = hh * 31 + hashs(AM.failed_kind) + (uint64_t) op + (uint64_t) AM.n * 7; M.nontrivial(hash64(hist.data(), hist.size())); if (ok) verify(); }
		if (ok && !AM.bad.empty()) ok = bad("release", AM.bad);
	}
	AM.disarm(); walks.clear();
	while (!im.empty() || isc) {
		if (!im.empty() && (!isc || r.chance(50))) { size_t q = r.below(im.size()); L([&] { pt_image_free(im[q]->im); return 0; }); im.erase(im.begin() + (long) q); }
		else { L([&] { pt_iscache_free(isc); return 0; }); isc = nullptr; }
	}
	if (ok && !AM.bad.empty()) bad("release", AM.bad);
	if (ok && !AM.clean()) bad("leak", "left after everything was freed: " + AM.live());
	if (M.cur % 4999 == 0) M.sample(hist.substr(0, 600));
}
