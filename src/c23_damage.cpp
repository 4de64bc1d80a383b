// C23: damage to one trace segment does not affect the segments after it.
#include "hostile.hpp"

static std::vector<uint64_t> psbs(const Bytes &b)
{
	std::vector<uint64_t> v;
	for (size_t i = 0; i + 1 < b.size();) {
		if (b[i] != 0x02 || b[i + 1] != 0x82) { ++i; continue; }
		size_t j = i;
		while (j + 1 < b.size() && b[j] == 0x02 && b[j + 1] == 0x82) j += 2;
		if (j - i >= 16) v.push_back(j - 16);
		i = j;
	}
	return v;
}
struct Line { std::string s; uint64_t off; bool has; };
// Decode until an error or the end of the trace.
static int segment(Dec &d, std::vector<Line> &log, uint64_t base)
{
	std::string s; Rng r(1); uint64_t n0 = d.ninsn; d.strict = false;
	for (;;) {
		s.clear(); int x = d.step(r, s);
		uint64_t o = 0; bool h = d.get_offset(&o) >= 0;
		uint64_t t = 0; uint32_t a, b;
		if (d.kind >= 2) { int e = d.kind == 2 ? pt_qry_time(d.q, &t, &a, &b) : d.kind == 3 ? pt_insn_time(d.i, &t, &a, &b) : pt_blk_time(d.b, &t, &a, &b); s += e < 0 ? strf(" time %d", e) : strf(" time %llx %u %u", (unsigned long long) t, a, b); }
		log.push_back({ s, h ? o - base : 0, h });
		if (x < 0) return x;
		if ((x & pts_eos) && !(x & pts_event_pending)) return -pte_eos;
		if (d.ninsn - n0 > 60000 || log.size() > 20000) return 1;
	}
}

void run_case(Rng &r)
{
	int kind = (int) r.below(5); Bytes t; HImage h; std::string desc; std::vector<size_t> ps;
	if (kind >= 3 || r.chance(50)) { ProgSim p(r); p.simple = r.chance(20); p.generate(); t = p.out; for (auto &x : p.psb) ps.push_back(x.off); if (kind >= 3) h.from(r, p, 0); desc = "program "; }
	else { EvGen g(r, false); g.cyc = r.chance(50); g.generate((int) r.range(20, 120)); t = g.out; ps = g.psb; desc = "scenario "; }
	h.cb_hostile = false;
	// With the address space unknown, code must not depend on it.
	for (size_t i = 0; i < h.reg.size(); ++i) for (size_t j = i + 1; j < h.reg.size();) {
		Region &a = h.reg[i], &b = h.reg[j];
		if (a.cr3 != b.cr3 && a.va < b.end() && b.va < a.end()) h.reg.erase(h.reg.begin() + (long) j); else ++j;
	}
	uint64_t iseed = r.next();
	if (kind >= 3) { h.drop(); h.build(iseed); h.cb_hostile = false; }
	if (ps.size() < 2) { M.count("too_short"); return; }
	size_t i = r.below(ps.size() - 1), j = r.chance(75) ? i + 1 : r.range(i + 1, ps.size() - 1);
	size_t from = ps[i] + (r.chance(70) ? r.range(16, std::max<size_t>(16, ps[i + 1] - ps[i])) : r.below(16)), to = ps[j];
	if (from > to) from = to;
	Bytes pre(t.begin(), t.begin() + (long) from), dam(t.begin() + (long) from, t.begin() + (long) to), post(t.begin() + (long) to, t.end());
	switch (r.below(7)) {
	case 0: dam.clear(); desc += "removed"; break;
	case 1: if (!dam.empty()) dam.resize(r.below(dam.size())); desc += "truncated"; break;
	case 2: dam.clear(); for (size_t n = r.below(100); n; --n) dam.push_back((uint8_t) r.next()); desc += "garbage"; break;
	case 3: for (auto &x : dam) x = (uint8_t) r.next(); desc += "overwritten"; break;
	case 4: { size_t n = dam.size(); dam.clear(); while (dam.size() < n) mencode(gen_packet(r), dam); desc += "packets"; break; }
	case 5: if (!dam.empty()) { size_t a = r.below(dam.size()); size_t n = std::min<size_t>(dam.size() - a, r.range(1, 30)); for (size_t k = 0; k < n; ++k) dam[a + k] = (uint8_t) r.next(); } desc += "patched"; break;
	default: mutate(r, dam, (unsigned) r.range(1, 5)); desc += "mutated"; break;
	}
	if (r.chance(10) && dam.size() > 3) { dam.resize(dam.size() - 1); dam.push_back(0x02); }
	Bytes u = pre; u.insert(u.end(), dam.begin(), dam.end()); int64_t shift = (int64_t) u.size() - (int64_t) to; u.insert(u.end(), post.begin(), post.end());
	std::vector<uint64_t> P = psbs(u);
	GuardBuf good(t.data(), t.size(), true), bad(u.data(), u.size(), r.chance(50));
	struct pt_config c; hostile_config(r, c, bad.begin, bad.end(), kind);
	c.decode.callback = nullptr; memset(&c.errata, 0, sizeof c.errata); memset(&c.addr_filter, 0, sizeof c.addr_filter);
	struct pt_config cg = c; cg.begin = good.begin; cg.end = good.end();
	M.note = strf("%s %s segments %zu..%zu of %zu, bytes %zu..%zu, shift %lld\n", deckind[kind], desc.c_str(), i, j, ps.size(), from, to, (long long) shift) + cfg_str(c) + h.desc + "good " + hexs(t.data(), t.size()) + "\nbad  " + hexs(u.data(), u.size()) + "\n";
	Dec d(kind, c, h.image); if (!d.ok()) { M.violation("alloc", "no decoder"); return; }
	size_t loops = 0; bool seen_err = false; uint64_t prev = 0; bool hp = false; uint64_t poff = 0; bool hoff = false; size_t compared = 0;
	for (;;) {
		if (++loops > P.size() + 3) { M.violation(strf("endless:%s", deckind[kind]), "the decode loop does not end"); break; }
		int rc = d.sync(0, 0); uint64_t at = 0;
		if (rc == -pte_eos) {
			// is there a sync point left behind?
			uint64_t want = 0; bool any = false; for (uint64_t p : P) if ((!hp || p > prev) && (!hoff || p + 15 >= poff)) { want = p; any = true; break; }
			if (any) M.violation(strf("missed-sync:%s", deckind[kind]), strf("no sync point found after %llu, reported offset %llu, but there is one at %llu", (unsigned long long) prev, (unsigned long long) poff, (unsigned long long) want));
			break;
		}
		if (d.get_sync(&at) < 0) { M.violation(strf("no-sync-offset:%s", deckind[kind]), strf("sync %d", rc)); break; }
		if (hp && at <= prev) { M.violation(strf("backwards:%s", deckind[kind]), strf("sync point %llu after %llu", (unsigned long long) at, (unsigned long long) prev)); break; }
		uint64_t want = 0; bool any = false; for (uint64_t p : P) if ((!hp || p > prev) && (!hoff || p + 15 >= poff)) { want = p; any = true; break; }
		// a decoder that stopped right at its sync point may continue its search from there
		if (std::find(P.begin(), P.end(), at) == P.end() || (any && at > want)) { M.violation(strf("wrong-sync:%s", deckind[kind]), strf("sync point %llu after %llu with reported offset %llu, expected %llu (%d)", (unsigned long long) at, (unsigned long long) prev, (unsigned long long) poff, (unsigned long long) want, any)); break; }
		hp = true; prev = at; hoff = false;
		std::vector<Line> log; int e = rc;
		bool intact = (int64_t) at >= (int64_t) to + shift;
		log.push_back({ strf("sync %d", rc), 0, false });
		HImage hc; Dec *cmp = &d; (void) cmp;
		if (rc >= 0) e = segment(d, log, at);
		if (intact) {
			uint64_t g = (uint64_t) ((int64_t) at - shift); std::vector<Line> ref;
			// an own image of the same contents
			HImage hg; if (kind >= 3) { hg.reg = h.reg; hg.cbseed = h.cbseed; hg.file = h.file + "g"; hg.build(iseed); hg.cb_hostile = false; }
			Dec dg(kind, cg, hg.image); int rg = dg.sync(2, g); ref.push_back({ strf("sync %d", rg), 0, false });
			if (rg >= 0) segment(dg, ref, g);
			size_t n = std::min(ref.size(), log.size()), k = 0;
			auto canon = [&](std::string s) { if (kind < 3) return s; for (size_t q; (q = s.find("isid")) != s.npos;) { size_t z = s.find(' ', q + 5); s.erase(q, z == s.npos ? z : z - q); }
				if (kind == 4) { size_t q = s.find(" c"); if (q != s.npos && s.compare(0, 3, "blk") == 0) { size_t z = s.find(' ', q + 1); s.erase(q, z - q); } } return s; };
			if (kind == 4) {
				// compare what was executed, not how it was cut
				std::string a, b; auto flat = [&](std::vector<Line> &l) { std::string o; uint64_t ni = 0; for (auto &x : l) { if (!x.s.compare(0, 3, "blk")) { size_t q = x.s.find(" n"); if (q != x.s.npos) ni += strtoull(x.s.c_str() + q + 2, 0, 10); continue; } o += strf("%llu insns; ", (unsigned long long) ni) + x.s.substr(0, x.s.find(" time ")) + "\n"; ni = 0; } return o + strf("%llu insns", (unsigned long long) ni); };
				if (log.size() < 20000 && ref.size() < 20000 && (a = flat(log)) != (b = flat(ref)) && log.back().s.compare(0, 4, "blk ") == ref.back().s.compare(0, 4, "blk ")) { size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) ++q; M.violation("differs:blk", strf("from sync point %llu (damage before): ", (unsigned long long) at) + a.substr(q > 60 ? q - 60 : 0, 160) + "\n  instead of " + b.substr(q > 60 ? q - 60 : 0, 160)); }
			} else {
				while (k < n && canon(log[k].s) == canon(ref[k].s) && log[k].has == ref[k].has && log[k].off == ref[k].off) ++k;
				if (k < n || log.size() != ref.size()) { M.violation(strf("differs:%s", deckind[kind]), strf("from sync point %llu (damage before), step %zu: ", (unsigned long long) at, k) + (k < log.size() ? log[k].s + strf(" +%llu", (unsigned long long) log[k].off) : "nothing") + "\n  instead of " + (k < ref.size() ? ref[k].s + strf(" +%llu", (unsigned long long) ref[k].off) : "nothing")); break; }
			}
			compared++; M.count("segments_compared"); M.count("lines_compared", n); if (seen_err) M.count(strf("%s_after_error", deckind[kind]));
			uint64_t hh = (uint64_t) kind; for (auto &x : ref) hh = hash64(x.s.data(), std::min<size_t>(x.s.size(), 12), hh); M.nontrivial(hh);
		}
		if (e < 0 && e != -pte_eos) { seen_err = true; M.count(strf("err:%d", e)); }
		hoff = d.get_offset(&poff) >= 0;
		if (e == 1) break;
	}
	M.count("traces"); M.count("resyncs", loops);
	if (M.cur % 4999 == 0) M.sample(M.note.substr(0, 500));
}
