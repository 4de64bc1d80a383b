// C02: arbitrary traces and code images are safe for the flow decoders.
#include "hostile.hpp"
#include <sys/resource.h>

static uint8_t *stack_lo;	// lowest address touched below the monitor's frame
// The stack a call used: paint below the current frame, look how far the paint is gone.
static const size_t PAINT = 256 * 1024;
__attribute__((noinline, no_sanitize("address"))) static size_t stack_used(bool paint)
{
	volatile uint8_t a[PAINT];
	if (paint) { for (size_t i = 0; i < PAINT; i += 8) *(volatile uint64_t *) (a + i) = 0x5eedfacecafef00dull; return 0; }
	size_t i = 0;
	while (i < PAINT && *(volatile uint64_t *) (a + i) == 0x5eedfacecafef00dull) i += 8;
	return PAINT - i;
}

// Long runs of code without a branch that needs trace: neither decode time nor stack may depend on their length.
static const size_t PAINT2 = 4096 * 1024;
__attribute__((noinline, no_sanitize("address"))) static size_t stack_used2(bool paint)
{
	volatile uint8_t a[PAINT2];
	if (paint) { for (size_t i = 0; i < PAINT2; i += 8) *(volatile uint64_t *) (a + i) = 0x5eedfacecafef00dull; return 0; }
	size_t i = 0;
	while (i < PAINT2 && *(volatile uint64_t *) (a + i) == 0x5eedfacecafef00dull) i += 8;
	return PAINT2 - i;
}
static void long_case(Rng &r)
{
	static const struct { const char *b; size_t n; } ins[] = { { "\x90", 1 }, { "\x66\x90", 2 }, { "\xeb\x00", 2 }, { "\x48\x89\xe5", 3 }, { "\xe8\x00\x00\x00\x00", 5 }, { "\x40\x90", 2 }, { "\xeb\x02\x0f\x0b", 4 } };
	std::string code; size_t want = r.chance(15) ? r.range(20000, 150000) : r.range(1000, 12000), total = 0; int only = r.chance(50) ? (int) r.below(7) : -1;
	while (code.size() < want) { auto &i = ins[only >= 0 ? (size_t) only : r.chance(90) ? 0 : r.below(7)]; code.append(i.b, i.n); ++total; }
	code.append("\xff\xe0", 2); ++total;
	std::string fn = M.scratch + "/long"; FILE *f = fopen(fn.c_str(), "w"); fwrite(code.data(), 1, code.size(), f); fclose(f);
	Bytes t; uint64_t va = 0x1000; int trips = (int) r.range(1, 3);
	auto m = [&](const MP &p) { mencode(p, t); };
	m(MP(K_PSB)); t.push_back(0x99); t.push_back(1); m(MP(K_FUP, 6, va)); m(MP(K_PSBEND)); for (int k = 0; k < trips; ++k) m(MP(K_TIP, 6, va));
	GuardBuf buf(t.data(), t.size(), true); struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end(); int kind = r.chance(85) ? 4 : 3;
	if (kind == 4) { c.flags.variant.block.end_on_call = r.chance(30); c.flags.variant.block.end_on_jump = r.chance(30); }
	struct pt_image *im = pt_image_alloc(nullptr); struct pt_image_section_cache *isc = r.chance(30) ? pt_iscache_alloc(nullptr) : nullptr; int e;
	if (isc) { e = pt_iscache_add_file(isc, fn.c_str(), 0, code.size(), va); if (e > 0) e = pt_image_add_cached(im, isc, e, nullptr); if (r.chance(50)) pt_iscache_set_limit(isc, 1 << 20); }
	else e = pt_image_add_file(im, fn.c_str(), 0, code.size(), nullptr, va);
	if (e < 0) M.violation("long-image", strf("%d", e));
	M.note = strf("long case: %zu bytes, %zu instructions, only=%d, %d trips, %s\n", code.size(), total, only, trips, deckind[kind]);
	uint64_t n = 0, calls = 0; int rc; size_t stack = 0;
	{
		Dec d(kind, c, im); rc = d.sync(0, 0);
		while (rc >= 0 && !((rc & pts_eos) && !(rc & pts_event_pending) && n >= total * (uint64_t) (trips + 1))) {
			if (++calls > (total + 10) * (uint64_t) (trips + 2)) { M.violation("long-endless", strf("%llu calls", (unsigned long long) calls)); break; }
			bool paint = kind == 4 && (calls < 8 || r.chance(1)); std::string s;
			if (paint) stack_used2(true);
			if (rc & pts_event_pending) { struct pt_event ev; rc = kind == 4 ? pt_blk_event(d.b, &ev, sizeof ev) : pt_insn_event(d.i, &ev, sizeof ev); }
			else if (kind == 4) { struct pt_block b; memset(&b, 0, sizeof b); rc = pt_blk_next(d.b, &b, sizeof b); n += b.ninsn; }
			else { struct pt_insn in; rc = pt_insn_next(d.i, &in, sizeof in); if (rc >= 0) ++n; }
			if (paint) stack = std::max(stack, stack_used2(false));
		}
	}
	// The last instruction needs trace that is not there.
	uint64_t all = total * (uint64_t) (trips + 1);
	if (n != all && !(rc < 0 && n + 1 == all)) M.violation("long-insns", strf("%llu instructions instead of %llu: %d", (unsigned long long) n, (unsigned long long) all, rc));
	else if (rc < 0 && rc != -pte_eos && rc != -pte_bad_query) M.violation(strf("long-error:%d", rc), "at the end of the trace");
	if (stack > PAINT2 / 2) M.violation("long-stack", strf("one call used %zu bytes of stack for %zu instructions", stack, total));
	if (stack > M.cnt["max:stack_bytes_long"]) M.cnt["max:stack_bytes_long"] = stack;
	M.count("long_runs"); M.count("long_insns", n); M.nontrivial(hash64(code.data(), std::min<size_t>(code.size(), 64), code.size()));
	pt_image_free(im); pt_iscache_free(isc); unlink(fn.c_str());
}

void run_case(Rng &r)
{
#ifndef VG
	if (r.below(500) == 0) { long_case(r); return; }
#endif
	HImage h; Bytes t; std::string desc;
	if (r.chance(45)) { h.gen(r); t = soup(r, h.ips, (int) r.range(1, 60)); desc = "soup over random code "; if (r.chance(30)) mutate(r, t, (unsigned) r.range(1, 6)); }
	else if (r.chance(85)) { ProgSim p(r); p.simple = r.chance(20); p.generate(); t = p.out; if (t.size() > 4000) t.resize(4000); unsigned tm = 0, cm = 0; if (r.chance(75)) mutate(r, t, tm = (unsigned) (r.chance(70) ? r.range(1, 4) : r.range(5, 30))); if (!tm || r.chance(50)) cm = (unsigned) r.range(1, 20); h.from(r, p, cm); desc = strf("program, trace mutated %u, code mutated %u ", tm, cm); }
	else { h.gen(r); t = hostile_trace(r, desc); }
	GuardBuf buf(t.data(), t.size(), r.chance(50));
	int kind = 3 + (int) r.below(2);
	struct pt_config c; hostile_config(r, c, buf.begin, buf.end(), kind);
	M.note = strf("%s\n%s\n", deckind[kind], desc.c_str()) + cfg_str(c) + h.desc + hexs(t.data(), t.size()) + "\n";
	Dec d(kind, c, r.chance(97) ? h.image : nullptr);
	if (!d.ok()) { M.violation("alloc", "no decoder"); return; }
	bool wild = r.chance(35);
	size_t syncs = 0, steps = 0, cap = 3000; uint64_t icap = kind == 4 ? 400000 : 3000;
	// straight-line code: every trip over the image needs trace
	uint64_t bound = h.forward_only && !h.cb_hostile ? (8ull * t.size() + 64) * (h.total + 2) : 0;
	if (bound && bound < 200000) { cap = bound; icap = bound + 1; } else bound = 0;
	bool paint = r.chance(10);
#ifdef VG
	paint = false;
#endif
	std::string s, last; bool fin = false;
	if (r.chance(10)) { d.query(); d.step(r, s, true); d.status = 0; }
	int rc = r.chance(15) ? d.sync(2, r.below(t.size() + 1)) : d.sync(0, 0);
	while (!fin) {
		if (++syncs > t.size() / 16 + 20) { M.violation(strf("endless-sync:%s", deckind[kind]), "synchronizing on errors does not reach the end"); break; }
		if (rc < 0) { if (rc == -pte_eos && syncs > 1) break; }
		else {
			d.query();
			for (;;) {
				if (steps > cap || d.ninsn > icap) { if (bound && steps > cap) M.violation(strf("endless:%s", deckind[kind]), "straight-line code decodes forever: " + s); fin = true; break; }
				s.clear(); uint64_t n0 = d.ninsn;
				if (paint) stack_used(true);
				int x = d.step(r, s, wild); ++steps;
				if (paint) { size_t u = stack_used(false); if (u >= PAINT - 4096) M.violation(strf("stack:%s", deckind[kind]), strf("one call used %zu bytes of stack", u)); else if (u > M.cnt["max:stack_bytes"]) M.cnt["max:stack_bytes"] = u; }
				if (M.replay) fprintf(stderr, "%s\n", s.c_str());
				if (d.ninsn - n0 > M.cnt["max:block_insns"]) M.cnt["max:block_insns"] = d.ninsn - n0;
				if (wild ? r.chance(30) : steps % 16 == 0) d.query();
				M.count(strf("%s_steps", deckind[kind]));
				if (x >= 0) last = s.substr(0, 12);
				if (x < 0) {
					M.count(strf("%s_err:%d", deckind[kind], x));
					uint64_t o = 0; d.get_offset(&o); o = std::min<uint64_t>(o, t.size());
					M.nontrivial(hash64(last.data(), std::min<size_t>(last.size(), 8), hash64(c.begin + o, std::min<size_t>(t.size() - o, 3)) * 31 + (uint64_t) (kind * 100 - x)));
					break;
				}
				if ((x & pts_eos) && !(x & pts_event_pending)) { if (wild) { s.clear(); d.step(r, s); } break; }
				// another image, or other contents, underneath
				if (wild && r.chance(1)) { int k = (int) r.below(3); struct pt_image *im = kind == 3 ? pt_insn_get_image(d.i) : pt_blk_get_image(d.b);
					if (k == 0) { int e = kind == 3 ? pt_insn_set_image(d.i, r.chance(50) ? h.image : nullptr) : pt_blk_set_image(d.b, r.chance(50) ? h.image : nullptr); d.chk("set_image", e); }
					else if (k == 1 && im) pt_image_remove_by_filename(im, h.file.c_str(), nullptr);
					else if (im && !h.reg.empty()) { Region &g = h.reg[r.below(h.reg.size())]; pt_image_add_file(im, h.file.c_str(), r.below(h.total), r.range(1, 40), nullptr, g.va + r.below(g.bytes.size() + 1)); }
					M.count("image_changes"); }
			}
			if (wild) { int n = (int) r.below(4); while (n--) { s.clear(); d.step(r, s, true); d.query(); } }
		}
		if (fin) break;
		if (wild && r.chance(3)) { d.sync(1, 0); d.query(); s.clear(); d.step(r, s, true); if (r.chance(50)) break; }
		if (wild && r.chance(3)) { d.sync(2, r.chance(80) ? r.below(t.size() + 17) : r.wide(64)); d.query(); if (r.chance(50)) break; }
		uint64_t before = 0, after = 0; bool hb = d.get_sync(&before) >= 0;
		rc = d.sync(0, 0);
		if (rc >= 0 && hb && d.get_sync(&after) >= 0 && after <= before) { M.violation(strf("resync:%s", deckind[kind]), strf("sync point %llu after %llu", (unsigned long long) after, (unsigned long long) before)); break; }
	}
	M.count("traces"); M.count(strf("%s_traces", deckind[kind])); M.count("insns", d.ninsn); M.count("resyncs", syncs); if (bound) M.count("bounded_cases");
	if (M.cur % 4999 == 0) M.sample(M.note.substr(0, 600));
}
