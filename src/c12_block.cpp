// C12: block decode reports the same flow as instruction decode, whatever the
// options and whatever is cached.
#include "progsim.hpp"

static bool decode(ProgSim &p, struct pt_image *image, GuardBuf &buf, Rng &r, bool call, bool jump, size_t start, bool warm, bool &again)
{
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	c.flags.variant.block.enable_iflags_events = p.iflags;
	c.flags.variant.block.end_on_call = call; c.flags.variant.block.end_on_jump = jump;
	bool ticks = r.chance(20); c.flags.variant.block.enable_tick_events = ticks;
	struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
	if (!d) { M.violation("alloc", "no decoder"); return false; }
	int rc = pt_blk_set_image(d, image);
	if (rc < 0) M.violation("set-image", strf("%d", rc));
	FlowMon m(p, "blk", p.psb[start].pos, p.psb[start].ev);
	if (start) { m.noresume = !p.psb[start].enabled; rc = pt_blk_sync_set(d, p.psb[start].off); } else rc = pt_blk_sync_forward(d);
	bool bad = false; uint64_t last = 0; size_t empty = 0;
	auto fail = [&](const std::string &k, const std::string &s) { m.fail(k, s); bad = true; };
	if (rc < 0) fail("sync", strf("%d", rc));
	auto events = [&]() {
		while (rc & pts_event_pending) {
			struct pt_event e; memset(&e, 0x5a, sizeof e);
			rc = pt_blk_event(d, &e, sizeof e);
			if (rc < 0) { fail("event-error", strf("%d from pt_blk_event; ", rc) + m.want()); return; }
			if (e.type == ptev_tick) {
				if (!ticks) { fail("tick", "unrequested tick event"); return; }
				M.count("ticks"); continue;
			}
			if (!m.event(e)) { bad = true; return; }
			M.count("events_compared");
		}
	};
	for (uint64_t guard = 0; !bad; ++guard) {
		if (guard > 40 * (p.insns.size() + p.evs.size()) + 1000) { fail("endless", "no end; " + m.want()); break; }
		events();
		if (bad || (rc & pts_eos)) break;
		struct pt_block b; memset(&b, 0x5a, sizeof b);
		rc = pt_blk_next(d, &b, sizeof b);
		int brc = rc;
		if (rc < 0 && rc != -pte_eos) { fail(strf("error:%d", -rc), strf("%s ip %llx ninsn %u; ", pt_errstr(pt_errcode(rc)), (unsigned long long) b.ip, b.ninsn) + m.want()); break; }
		// Instructions of the block.
		const LI *f = nullptr;
		for (unsigned i = 0; i < b.ninsn && !bad; ++i) {
			if (!m.can_insn()) { bad = true; break; }
			const LI &l = p.insns[m.pos]; const SI &s = p.si(l); const Region &g = p.reg[(size_t) l.region];
			bool lst = i + 1 == b.ninsn;
			if (!i) { f = &l; if (b.ip != s.ip) { fail("ip", strf("block at %llx; ", (unsigned long long) b.ip) + m.want()); break; } }
			if (lst && b.end_ip != s.ip) { fail("end-ip", strf("block %llx..%llx with %u insns should end at %llx; ", (unsigned long long) b.ip, (unsigned long long) b.end_ip, b.ninsn, (unsigned long long) s.ip) + m.want()); break; }
			bool ind = b.iclass == ptic_indirect && (s.kind == X_IJMP || s.kind == X_JMPABS || s.cls == ptic_far_call || s.cls == ptic_far_return || s.cls == ptic_far_jump);
			if (lst && b.iclass != ptic_unknown && !ind && (int) b.iclass != s.cls) { fail("class", strf("%s is class %d not %d", hexs(s.b.data(), s.b.size()).c_str(), b.iclass, s.cls)); break; }
			if (lst) M.count(b.iclass == ptic_unknown ? "class_unknown" : "class_known");
			if ((int) b.mode != g.mode) { fail("mode", strf("mode %d not %d", b.mode, g.mode)); break; }
			if (b.speculative != l.spec) { fail("speculative", strf("speculative %d not %d at %llx", b.speculative, l.spec, (unsigned long long) s.ip)); break; }
			if (b.isid != p.isid_of(l)) { fail("isid", strf("isid %d not %d at %llx", b.isid, p.isid_of(l), (unsigned long long) s.ip)); break; }
			if (p.truncated(l) != (lst && b.truncated)) { fail("truncated", strf("truncated %d not %d at %llx, last %d", b.truncated, p.truncated(l), (unsigned long long) s.ip, lst)); break; }
			if (lst && b.truncated) {
				if (b.size != s.b.size() || memcmp(b.raw, s.b.data(), s.b.size())) { fail("raw", strf("%s instead of %s", hexs(b.raw, std::min<size_t>(b.size, 15)).c_str(), hexs(s.b.data(), s.b.size()).c_str())); break; }
				M.count("truncated");
			}
			if (!lst && call && (s.cls == ptic_call)) { fail("end-on-call", strf("block goes on after the call at %llx", (unsigned long long) s.ip)); break; }
			if (!lst && jump && (s.cls == ptic_jump)) { fail(warm ? "end-on-jump-warm" : "end-on-jump", strf("block goes on after the jump at %llx", (unsigned long long) s.ip)); break; }
			if (!lst) { if (s.cls == ptic_call) M.count("call_inside"); if (s.cls == ptic_jump) M.count("jump_inside"); }
			m.pos++; M.count("insns_compared");
		}
		if (bad) break;
		if (brc == -pte_eos) break;
		if (!b.ninsn) { M.count("empty_blocks"); if (!(brc & (pts_event_pending | pts_eos))) empty++; else empty = 0; if (empty > 3) { fail("empty", "empty blocks without progress; " + m.want()); break; } }
		else { empty = 0; M.nontrivial((((uint64_t) b.ninsn * 16 + (size_t) b.iclass) * 64 + (size_t) (f ? p.si(*f).kind : 0)) * 64 + b.truncated * 32 + b.mode * 8 + call * 4 + jump * 2 + warm); M.count("blocks"); }
		uint64_t off = 0; int oe = pt_blk_get_offset(d, &off);
		if (oe < 0 || off > p.out.size() || off < last) { fail("offset", strf("offset %llu after %llu: %d", (unsigned long long) off, (unsigned long long) last, oe)); break; }
		last = off;
	}
	if (!bad) m.done();
	if (!m.key.empty()) { M.violation(m.key, strf("[call=%d jump=%d warm=%d start=%zu] ", call, jump, warm, start) + m.msg); again = false; }
	else { M.count(strf("runs:call%d,jump%d,warm%d", call, jump, warm)); again = true; }
	pt_blk_free_decoder(d);
	return m.key.empty();
}

// Somebody else decoded the same code before, from arbitrary places in arbitrary modes.
static void warm_up(ProgSim &p, struct pt_image *image, Rng &r)
{
	Bytes t;
	for (int k = (int) r.range(1, 4); k; --k) {
		mencode(MP(K_PSB), t); mencode(MP(K_PSBEND), t);
		auto &g = p.reg[r.below(p.reg.size())]; if (g.bytes.empty()) continue;
		int md = (int) r.below(3); mencode(MP(K_EXEC, md == 0, md == 1, 0), t);
		uint64_t ip = g.va + r.below(g.bytes.size()); if (!p.insns.empty() && r.chance(70)) ip = p.si(p.insns[r.below(p.insns.size())]).ip;
		mencode(MP(K_PGE, pt_ipc_full, ip), t);
		for (int q = (int) r.below(20); q; --q) mencode(MP(K_TNT8, r.below(64), 6), t);
	}
	struct pt_config c; pt_config_init(&c); c.begin = t.data(); c.end = t.data() + t.size(); c.flags.variant.block.end_on_call = r.chance(50); c.flags.variant.block.end_on_jump = r.chance(50); c.flags.variant.block.enable_tick_events = 0;
	struct pt_block_decoder *d = pt_blk_alloc_decoder(&c); if (!d) return;
	pt_blk_set_image(d, image);
	for (int loops = 0; loops < 10; ++loops) {
		int s = pt_blk_sync_forward(d); uint64_t n = 0; if (s < 0) break;
		while (s >= 0 && n < 4000) {
			if (s & pts_event_pending) { struct pt_event ev; s = pt_blk_event(d, &ev, sizeof ev); }
			else { struct pt_block b; memset(&b, 0, sizeof b); s = pt_blk_next(d, &b, sizeof b); M.count("poison_blocks"); n += b.ninsn; }
			++n; if (s >= 0 && (s & pts_eos) && !(s & pts_event_pending)) break;
		}
	}
	pt_blk_free_decoder(d);
}

void run_case(Rng &r)
{
	ProgSim p(r); p.simple = r.chance(20); p.generate();
	GuardBuf buf(p.out.data(), p.out.size(), r.chance(50));
	std::string fn = M.scratch + "/img";
	SimImage img(p, r, fn);
	M.note = p.describe();
	if (!img.ok) { M.violation("image", img.err); return; }
	int n = (int) r.range(1, 4); bool go = true;
	bool poison = r.chance(30); if (poison) warm_up(p, img.image, r);
	for (int i = 0; i < n && go; ++i) {
		size_t start = r.chance(25) ? r.below(p.psb.size()) : 0;
		decode(p, img.image, buf, r, r.chance(50), r.chance(50), start, poison || i > 0, go);
	}
	M.count("programs");
	if (M.samples.size() < 2) M.sample(p.describe().substr(0, 600));
}
