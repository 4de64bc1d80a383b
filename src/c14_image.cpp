// C14: an image read returns what was mapped there last.
#include "imgmodel.hpp"

void harness_init() { make_files(); }

// Code that exists in several address spaces at one address, entered, left, and
// switched inside of (mov cr3, vmptrld): what is decoded must come from the
// space that is current at each instruction.
static void switch_case(Rng &r)
{
	hist.clear();
	static const uint64_t C[] = { pt_asid_no_cr3, 0x1000, 0x2000, 0x5000 }, V[] = { pt_asid_no_vmcs, 0x3000, 0x4000, 0x7000 };
	struct I { unsigned off, len; int kind; };	// kind: 0 filler, 1 mov cr3, 2 vmptrld, 3 jmp *rax
	int gap[3]; for (auto &g : gap) g = (int) r.range(1, 11);
	int mode = (int) r.below(3), nc = mode == 1 ? 1 : 3, nv = mode == 0 ? 1 : 3;
	auto gen = [&](Bytes &b) { for (int g = 0; g < 3; ++g) {
		for (int left = gap[g]; left;) { if (left >= 5 && r.chance(35)) { b.push_back(0xb8); for (int k = 0; k < 4; ++k) b.push_back((uint8_t) r.next()); left -= 5; } else { b.push_back((uint8_t) (0x50 + r.below(16))); left--; } }
		static const uint8_t sp[3][3] = { { 0x0f, 0x22, 0xd8 }, { 0x0f, 0xc7, 0x30 }, { 0xff, 0xe0, 0 } }; b.insert(b.end(), sp[g], sp[g] + (g == 2 ? 2 : 3)); } };
	std::string fn = M.scratch + "/sw"; Bytes all; ImageM m; m.im = pt_image_alloc(nullptr); struct pt_image_section_cache *isc = r.chance(60) ? pt_iscache_alloc(nullptr) : nullptr;
	struct Add { uint64_t c3, vm, off, n, va; }; std::vector<Add> adds; uint64_t P = 0x400000 + r.below(5000), plen = 0;
	for (int c = 0; c < nc; ++c) for (int v = 0; v < nv; ++v) {
		uint64_t off = all.size(); gen(all); plen = all.size() - off;
		uint64_t cut = r.chance(30) ? r.range(1, plen - 1) : plen;
		adds.push_back({ C[nc == 1 ? 0 : c + 1], V[nv == 1 ? 0 : v + 1], off, cut, P }); if (cut < plen) adds.push_back({ adds.back().c3, adds.back().vm, off + cut, plen - cut, P + cut });
	}
	FILE *o = fopen(fn.c_str(), "w"); fwrite(all.data(), 1, all.size(), o); fclose(o);
	for (size_t k = adds.size(); k > 1; --k) std::swap(adds[k - 1], adds[r.below(k)]);
	bool ok = true;
	for (auto &a : adds) {
		struct pt_asid as; pt_asid_init(&as); as.cr3 = a.c3; as.vmcs = a.vm; int isid = 0, e;
		if (isc) { isid = pt_iscache_add_file(isc, fn.c_str(), a.off, a.n, a.va); e = isid < 0 ? isid : pt_image_add_cached(m.im, isc, isid, &as); } else e = pt_image_add_file(m.im, fn.c_str(), a.off, a.n, &as, a.va);
		hist += strf("add off=%llu size=%llu va=%llx cr3=%llx vmcs=%llx isid %d\n", (unsigned long long) a.off, (unsigned long long) a.n, (unsigned long long) a.va, (unsigned long long) a.c3, (unsigned long long) a.vm, isid);
		if (e < 0) { ok = bad("add-rc", strf("add: %d", e)); break; }
		m.add({ a.c3, a.vm, a.va, a.va + a.n - 1, a.off, 0, isid });
	}
	// what the current space holds
	uint64_t cr3 = C[1 + r.below(3)], vmcs = V[1 + r.below(3)];
	struct E { uint64_t ip; Bytes raw; int isid; bool trunc; }; std::vector<E> want; Bytes t;
	mencode(MP(K_PSB), t); mencode(MP(K_EXEC, 1, 0, 0), t); mencode(MP(K_PIP, cr3, 0), t); mencode(MP(K_VMCS, vmcs), t); mencode(MP(K_FUP, pt_ipc_full, P), t); mencode(MP(K_PSBEND), t);
	int passes = (int) r.range(2, 14); uint64_t sw = 0, swv = 0;
	auto setc = [&] { uint64_t n = C[1 + r.below(3)]; sw += n != cr3; cr3 = n; mencode(MP(K_PIP, cr3, 0), t); };
	auto setv = [&] { uint64_t n = V[1 + r.below(3)]; swv += n != vmcs; vmcs = n; mencode(MP(K_VMCS, vmcs), t); };
	for (int p = 0; ok && p < passes; ++p) {
		uint64_t a = P, off[3] = { P + gap[0], P + gap[0] + 3 + gap[1], P + plen - 2 };
		while (a < P + plen) {
			const PieceM *x = m.find(cr3, vmcs, a); if (!x) abort();
			uint64_t n = a == off[0] || a == off[1] ? 3 : a == off[2] ? 2 : all[x->off + (a - x->b)] == 0xb8 ? 5 : 1;
			E e; e.ip = a; e.isid = x->isid; e.trunc = a + n - 1 > x->last;
			for (uint64_t k = 0; k < n; ++k) { auto *y = m.find(cr3, vmcs, a + k); e.raw.push_back(all[y->off + (a + k - y->b)]); }
			want.push_back(e); a += n;
			if (e.ip == off[0] && r.chance(50)) setc();
			if (e.ip == off[1] && r.chance(50)) setv();
		}
		if (p + 1 == passes) mencode(MP(K_PGD, pt_ipc_full, P + 0x10000), t);
		else if (r.chance(45)) mencode(MP(K_TIP, pt_ipc_full, P), t);
		else { mencode(MP(K_PGD, pt_ipc_full, P + 0x10000), t); for (int k = (int) r.below(4); k; --k) r.chance(50) ? setc() : setv(); mencode(MP(K_PGE, pt_ipc_full, P), t); }
	}
	GuardBuf g(t.data(), t.size(), true); struct pt_config c; pt_config_init(&c); c.begin = g.begin; c.end = g.end();
	hist += strf("P=%llx len=%llu trace ", (unsigned long long) P, (unsigned long long) plen) + hexs(t.data(), t.size()) + "\n";
	for (int kind = 0; kind < 2 && ok; ++kind) {
		size_t n = 0; int st, steps = 0;
		struct pt_insn_decoder *i = nullptr; struct pt_block_decoder *b = nullptr;
		if (!kind) { i = pt_insn_alloc_decoder(&c); st = pt_insn_set_image(i, m.im); if (st >= 0) st = pt_insn_sync_forward(i); }
		else { b = pt_blk_alloc_decoder(&c); st = pt_blk_set_image(b, m.im); if (st >= 0) st = pt_blk_sync_forward(b); }
		while (ok && ++steps < 10000) {
			while (st >= 0 && (st & pts_event_pending)) { struct pt_event ev; st = kind ? pt_blk_event(b, &ev, sizeof ev) : pt_insn_event(i, &ev, sizeof ev); M.count("switch_events"); }
			if (st < 0) break;
			if (!kind) {
				struct pt_insn in; memset(&in, 0, sizeof in); st = pt_insn_next(i, &in, sizeof in); if (!in.size) continue;
				if (n >= want.size()) { ok = bad("switch-extra", strf("instruction %zu at %llx after the last", n, (unsigned long long) in.ip)); break; }
				auto &w = want[n++];
				if (in.ip != w.ip || in.size != w.raw.size() || memcmp(in.raw, w.raw.data(), in.size)) ok = bad("switch-bytes", strf("instruction %zu at %llx: ", n - 1, (unsigned long long) in.ip) + hexs(in.raw, std::min<size_t>(in.size, 15)) + strf(" instead of %llx: ", (unsigned long long) w.ip) + hexs(w.raw.data(), w.raw.size()));
				else if (in.isid != w.isid || in.truncated != (unsigned) w.trunc) ok = bad("switch-isid", strf("instruction %zu at %llx: isid %d truncated %d instead of %d %d", n - 1, (unsigned long long) in.ip, in.isid, in.truncated, w.isid, w.trunc));
			} else {
				struct pt_block k; memset(&k, 0, sizeof k); st = pt_blk_next(b, &k, sizeof k); if (!k.ninsn) continue;
				if (n + k.ninsn > want.size()) { ok = bad("switch-extra", strf("block of %d at %llx after instruction %zu of %zu", k.ninsn, (unsigned long long) k.ip, n, want.size())); break; }
				if (k.ip != want[n].ip || k.end_ip != want[n + k.ninsn - 1].ip) ok = bad("switch-block", strf("block %llx..%llx of %d instead of %llx..%llx", (unsigned long long) k.ip, (unsigned long long) k.end_ip, k.ninsn, (unsigned long long) want[n].ip, (unsigned long long) want[n + k.ninsn - 1].ip));
				for (int q = 0; q < k.ninsn && ok; ++q) if (want[n + q].isid != k.isid) ok = bad("switch-isid", strf("block at %llx has isid %d, its instruction at %llx %d", (unsigned long long) k.ip, k.isid, (unsigned long long) want[n + q].ip, want[n + q].isid));
				n += k.ninsn;
			}
		}
		if (ok && (st != -pte_eos || n != want.size())) ok = bad("switch-end", strf("%s decoder: %d after %zu of %zu instructions", kind ? "block" : "instruction", st, n, want.size()));
		M.count(kind ? "switch_blk_insns" : "switch_insns", n);
		if (i) pt_insn_free_decoder(i); if (b) pt_blk_free_decoder(b);
	}
	M.count("switch_cr3", sw); M.count("switch_vmcs", swv); if (sw + swv) M.nontrivial(hash64(t.data(), t.size(), P));
	pt_image_free(m.im); pt_iscache_free(isc);
}

void run_case(Rng &r)
{
	if (r.chance(12)) { switch_case(r); return; }
	hist.clear();
	struct pt_image_section_cache *isc = pt_iscache_alloc("c"); if (r.chance(40)) pt_iscache_set_limit(isc, r.wide(15));
	std::vector<std::unique_ptr<ImageM>> im; std::vector<std::unique_ptr<CbM>> cbs; std::vector<std::unique_ptr<Walk>> walks; std::vector<std::pair<int, PieceM>> cached;
	int nim = (int) r.range(1, 3);
	for (int k = 0; k < nim; ++k) { im.emplace_back(new ImageM); im.back()->id = k; im.back()->im = pt_image_alloc(k ? "x" : nullptr); }
	switch (r.below(5)) { case 0: base = 0ull - r.range(200, 600); break; case 1: base = 0x7ffffffffe00ull; break; case 2: base = 0xffffffff81000000ull; break; case 3: base = 0x1000; break; default: base = r.wide(47) + 0x400; }
	static const uint64_t C[] = { pt_asid_no_cr3, 0x1000, 0x2000 }, V[] = { pt_asid_no_vmcs, 0x3000, 0x4000 };
	int wild = (int) r.below(3);
	auto addr = [&] { uint64_t a = base + r.below(r.chance(50) ? 64 : 400); return a < base ? base : a; };
	auto mkasid = [&](uint64_t &c, uint64_t &v) { c = wild == 0 ? C[0] : C[r.below(3)]; v = wild < 2 || r.chance(50) ? V[0] : V[r.below(3)]; };
	bool ok = true; uint64_t hh = 0; size_t pieces = 0;
	int nops = (int) r.range(5, 60);
	for (int o = 0; o < nops && ok; ++o) {
		ImageM &m = *im[r.below(im.size())]; uint64_t c3, vm; mkasid(c3, vm); struct pt_asid as; pt_asid_init(&as); as.cr3 = c3; as.vmcs = vm;
		if (vm == pt_asid_no_vmcs && r.chance(20)) { as.size = offsetof(struct pt_asid, vmcs); as.vmcs = r.next(); }
		const struct pt_asid *pa = c3 == C[0] && vm == V[0] && r.chance(50) ? nullptr : &as;
		int op = (int) r.below(100);
		if (op < 25) {
			int f = (int) r.below(4); uint64_t off = r.chance(30) ? 0 : r.below(files[(size_t) f].b.size() + (r.chance(3) ? 20 : 0)), n = r.chance(20) ? r.wide(20) : r.range(1, r.chance(50) ? 12 : 200); uint64_t va = addr();
			if (!n) n = 1;
			uint64_t have = off < files[(size_t) f].b.size() ? std::min<uint64_t>(n, files[(size_t) f].b.size() - off) : 0;
			if (have && va + (have - 1) < va) { have = 0ull - va; M.count("top_of_space"); }
			hist += strf("image %d add %s off=%llu size=%llu va=%llx cr3=%llx vmcs=%llx\n", m.id, FN[f], (unsigned long long) off, (unsigned long long) n, (unsigned long long) va, (unsigned long long) c3, (unsigned long long) vm);
			int e = 0, isid = 0;
			if (isc && r.chance(40)) { isid = pt_iscache_add_file(isc, files[(size_t) f].name.c_str(), off, n, va); e = isid < 0 ? isid : pt_image_add_cached(m.im, isc, isid, pa); }
			else e = pt_image_add_file(m.im, files[(size_t) f].name.c_str(), off, n, pa, va);
			if (!have) { if (e != -pte_invalid) ok = bad("add-rc", strf("adding from beyond the end of the file: %d", e)); continue; }
			if (e < 0 || isid < 0) { ok = bad("add-rc", strf("add: %d", e)); continue; }
			m.add({ c3, vm, va, va + have - 1, off, f, isid }); M.count("adds"); if (isid) cached.push_back({ isid, { c3, vm, va, va + have - 1, off, f, isid } });
		} else if (op < 30 && !cached.empty() && isc) {
			auto &q = cached[r.below(cached.size())]; int e = pt_image_add_cached(m.im, isc, q.first, pa); hist += strf("image %d add cached %d cr3=%llx vmcs=%llx\n", m.id, q.first, (unsigned long long) c3, (unsigned long long) vm);
			if (e < 0) { ok = bad("add-rc", strf("add_cached: %d", e)); continue; } PieceM n = q.second; n.cr3 = c3; n.vmcs = vm; m.add(n); M.count("adds_cached");
		} else if (op < 36) {
			int f = (int) r.below(4); hist += strf("image %d remove %s cr3=%llx vmcs=%llx\n", m.id, FN[f], (unsigned long long) c3, (unsigned long long) vm); int e = pt_image_remove_by_filename(m.im, files[(size_t) f].name.c_str(), pa), n = 0;
			std::vector<PieceM> q; for (auto &x : m.p) if (ImageM::match(x, c3, vm) && x.file == f) n++; else q.push_back(x);
			m.p = q; if (e != n) ok = bad("remove-count", strf("%d sections removed, reported %d", n, e)); M.count("removed_by_name", (uint64_t) n);
		} else if (op < 39) {
			hist += strf("image %d remove cr3=%llx vmcs=%llx\n", m.id, (unsigned long long) c3, (unsigned long long) vm); int e = pt_image_remove_by_asid(m.im, pa), n = 0; std::vector<PieceM> q; for (auto &x : m.p) if (ImageM::match(x, c3, vm)) n++; else q.push_back(x);
			m.p = q; if (e != n) ok = bad("remove-count", strf("%d sections removed, reported %d", n, e)); M.count("removed_by_asid", (uint64_t) n);
		} else if (op < 44) {
			ImageM &s = *im[r.below(im.size())]; hist += strf("image %d copy from %d\n", m.id, s.id); int e = pt_image_copy(m.im, s.im); if (e != 0) ok = bad("copy-rc", strf("copy: %d", e));
			if (&s != &m) { std::vector<PieceM> q = s.p; for (auto &x : q) m.add(x); M.count("copies"); M.count("pieces_copied", q.size()); }
		} else if (op < 50) {
			if (m.cb && r.chance(40)) { hist += strf("image %d no callback\n", m.id); pt_image_set_callback(m.im, nullptr, nullptr); m.cb = nullptr; continue; }
			cbs.emplace_back(new CbM); CbM *c = cbs.back().get(); c->im = &m; c->lo = addr(); c->hi = c->lo + r.below(200); if (c->hi < c->lo) c->hi = ~0ull; c->seed = r.next(); c->bad = r.chance(30) ? addr() : 1; m.cb = c;
			hist += strf("image %d callback %llx..%llx seed %llx\n", m.id, (unsigned long long) c->lo, (unsigned long long) c->hi, (unsigned long long) c->seed);
			if (pt_image_set_callback(m.im, callback, c) < 0) ok = bad("callback-rc", "set_callback");
		} else if (op < 51 && isc && r.chance(50)) { pt_iscache_free(isc); isc = nullptr; hist += "iscache freed\n"; M.count("iscache_freed"); }
		else if (op < 75 || walks.empty()) {
			if (walks.size() >= 4) walks.erase(walks.begin() + (long) r.below(walks.size()));
			std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = C[1 + r.below(2)]; w->vmcs = V[1 + r.below(2)]; w->ip = addr();
			if (!m.p.empty() && r.chance(60)) { auto &x = m.p[r.below(m.p.size())]; w->ip = r.chance(50) ? x.b + r.below(std::min<uint64_t>(x.last - x.b, 400) + 1) : x.b; if (x.cr3 != C[0]) w->cr3 = x.cr3; if (x.vmcs != V[0]) w->vmcs = x.vmcs; }
			if (!start(r, *w)) { ok = false; break; }
			for (int k = (int) r.range(1, 30); k && !w->dead && ok; --k) ok = step(*w);
			hh = hash64(&w->ip, 8, hh + m.p.size()); M.count("walks"); pieces = std::max(pieces, m.p.size());
			if (!w->dead) walks.push_back(std::move(w)); else if (w->steps > 1) M.nontrivial(hash64(&w->ip, 8, hh));
		} else {
			size_t q = r.below(walks.size()); hist += strf("continue walk at %llx\n", (unsigned long long) walks[q]->ip);
			for (int k = (int) r.range(1, 10); k && !walks[q]->dead && ok; --k) { ok = step(*walks[q]); M.count("steps_after_change"); }
			if (walks[q]->dead) walks.erase(walks.begin() + (long) q);
		}
	}
	M.count(strf("pieces:%s", pieces < 3 ? "0-2" : pieces < 8 ? "3-7" : "8+")); M.nontrivial(hh);
	if (r.chance(50)) walks.clear();
	// decoders keep their own references; they may outlive nothing else
	for (auto &m : im) if (r.chance(50)) { for (auto &w : walks) if (w->im == m.get()) w.reset(); walks.erase(std::remove(walks.begin(), walks.end(), nullptr), walks.end()); }
	walks.clear();
	for (auto &m : im) pt_image_free(m->im);
	if (isc) pt_iscache_free(isc);
	if (M.cur % 4999 == 0) M.sample(hist.substr(0, 600));
}
