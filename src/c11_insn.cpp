// C11: instruction flow decode reproduces the executed instructions and events.
#include "progsim.hpp"

void run_case(Rng &r)
{
	ProgSim p(r); p.simple = r.chance(20); p.generate();
	GuardBuf buf(p.out.data(), p.out.size(), r.chance(50));
	std::string fn = M.scratch + "/img";
	SimImage img(p, r, fn);
	M.note = p.describe();
	if (!img.ok) { M.violation("image", img.err); return; }
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	c.flags.variant.insn.enable_iflags_events = p.iflags;
	bool ticks = r.chance(25); c.flags.variant.insn.enable_tick_events = ticks;
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	if (!d) { M.violation("alloc", "no decoder"); return; }
	int rc = pt_insn_set_image(d, img.image);
	if (rc < 0) M.violation("set-image", strf("%d", rc));
	size_t start = 0;
	if (r.chance(25)) start = r.below(p.psb.size());
	FlowMon m(p, "insn", p.psb[start].pos, p.psb[start].ev);
	if (start) { m.noresume = !p.psb[start].enabled; rc = pt_insn_sync_set(d, p.psb[start].off); } else rc = pt_insn_sync_forward(d);
	bool bad = false; uint64_t last = 0;
	auto fail = [&](const std::string &k, const std::string &s) { m.fail(k, s); bad = true; };
	if (rc < 0) fail("sync", strf("%d", rc));
	std::string tailhist;
	for (uint64_t guard = 0; !bad; ++guard) {
		if (guard > 40 * (p.insns.size() + p.evs.size()) + 1000) { fail("endless", "no end; " + m.want()); break; }
		while (rc & pts_event_pending) {
			struct pt_event e; memset(&e, 0x5a, sizeof e);
			rc = pt_insn_event(d, &e, sizeof e);
			if (rc < 0) { fail("event-error", strf("%d from pt_insn_event; ", rc) + m.want()); break; }
			if (e.type == ptev_tick) {
				if (!ticks) { fail("tick", "unrequested tick event"); break; }
				M.count("ticks"); continue;
			}
			if (!m.event(e)) { bad = true; break; }
			M.count(strf("ev:%s%s%s", evname((int) e.type), e.status_update ? "/status" : "", e.ip_suppressed ? "/ipsup" : ""));
			size_t pr = m.pos ? (size_t) p.si(p.insns[m.pos - 1]).kind : 99, nx = m.pos < p.insns.size() ? (size_t) p.si(p.insns[m.pos]).kind : 99;
			M.nontrivial(0x100000000ull + (((uint64_t) e.type * 4 + e.status_update * 2 + e.ip_suppressed) * 128 + pr) * 128 + nx);
		}
		if (bad) break;
		if (rc & pts_eos) break;
		struct pt_insn in; memset(&in, 0x5a, sizeof in);
		if (m.pos >= p.insns.size()) {
			rc = pt_insn_next(d, &in, sizeof in);
			if (rc == -pte_eos) break;
			fail("extra-insn", strf("%d at the end, ip %llx; ", rc, (unsigned long long) in.ip) + m.want());
			break;
		}
		rc = pt_insn_next(d, &in, sizeof in);
		if (rc < 0) { if (rc == -pte_eos) break; fail(strf("error:%d", -rc), strf("%s ip %llx; ", pt_errstr(pt_errcode(rc)), (unsigned long long) in.ip) + m.want()); break; }
		if (!m.can_insn()) { bad = true; break; }
		const LI &l = p.insns[m.pos]; const SI &s = p.si(l);
		const Region &g = p.reg[(size_t) l.region];
		if (in.ip != s.ip) { fail("ip", strf("ip %llx; ", (unsigned long long) in.ip) + m.want()); break; }
		if (in.size != s.b.size() || memcmp(in.raw, s.b.data(), s.b.size())) { fail("bytes", strf("%s instead of %s", hexs(in.raw, std::min<size_t>(in.size, 15)).c_str(), hexs(s.b.data(), s.b.size()).c_str())); break; }
		if ((int) in.iclass != s.cls) { fail("class", strf("%s is class %d not %d", hexs(s.b.data(), s.b.size()).c_str(), in.iclass, s.cls)); break; }
		if ((int) in.mode != g.mode) { fail("mode", strf("mode %d not %d", in.mode, g.mode)); break; }
		if (in.speculative != l.spec) { fail("speculative", strf("speculative %d not %d", in.speculative, l.spec)); break; }
		if (in.isid != p.isid_of(l)) { fail("isid", strf("isid %d not %d", in.isid, p.isid_of(l))); break; }
		if (in.truncated != p.truncated(l)) { fail("truncated", strf("truncated %d not %d", in.truncated, p.truncated(l))); break; }
		uint64_t off = 0; int oe = pt_insn_get_offset(d, &off);
		if (oe < 0 || off > p.out.size() || off < last) { fail("offset", strf("offset %llu after %llu: %d", (unsigned long long) off, (unsigned long long) last, oe)); break; }
		last = off;
		size_t pr = m.pos ? (size_t) p.si(p.insns[m.pos - 1]).kind : 99;
		M.nontrivial(((pr * 64 + (size_t) s.kind) * 8 + (size_t) g.mode) * 64 + s.b.size() * 4 + p.truncated(l) * 2 + l.spec);
		M.count("insns_compared"); if (l.spec) M.count("speculative"); if (in.truncated) M.count("truncated");
		M.count(strf("class:%d", s.cls)); if (g.mode != ptem_64bit) M.count(strf("mode:%d", g.mode));
		m.pos++;
	}
	if (!bad) m.done();
	if (!m.key.empty()) M.violation(m.key, m.msg);
	else { M.count("programs"); if (start) M.count("resync_programs"); }
	pt_insn_free_decoder(d);
	if (M.samples.size() < 2) M.sample(p.describe().substr(0, 600));
}
