// C01: arbitrary trace bytes are safe to decode into packets, events and queries.
#include "hostile.hpp"

void run_case(Rng &r)
{
	std::string desc; Bytes t = hostile_trace(r, desc);
	GuardBuf buf(t.data(), t.size(), r.chance(50));
	int kind = (int) r.below(3);
	struct pt_config c; hostile_config(r, c, buf.begin, buf.end(), kind);
	M.note = strf("%s\n%s", deckind[kind], desc.c_str()) + cfg_str(c) + hexs(t.data(), t.size()) + "\n";
	Dec d(kind, c, nullptr);
	if (!d.ok()) { M.violation("alloc", "no decoder"); return; }
	bool wild = r.chance(40);
	auto atpsb = [&](uint64_t o) { Bytes q; mencode(MP(K_PSB), q); return o + 16 <= t.size() && !memcmp(&t[o], q.data(), 16); };
	size_t syncs = 0, budget = 8 * t.size() + 64, errs = 0;
	std::string s, last;
	// whatever comes before the first synchronization
	if (r.chance(20)) { d.strict = false; d.query(); d.step(r, s, true); d.strict = true; d.status = 0; }
	int rc = r.chance(25) ? d.sync(2, r.chance(70) ? r.below(t.size() + 1) : r.wide(64)) : d.sync(0, 0);
	for (;;) {
		if (++syncs > t.size() / 16 + 20) { M.violation(strf("endless-sync:%s", deckind[kind]), "synchronizing on errors does not reach the end"); break; }
		if (rc < 0) { if (rc == -pte_eos && syncs > 1) break; errs++; }
		else {
			d.query();
			size_t steps = 0;
			for (;; ++steps) {
				if (steps > budget) { M.violation(strf("endless:%s", deckind[kind]), "decoding does not end: " + s); break; }
				s.clear(); int x = d.step(r, s, wild);
				if (x >= 0 && M.replay > 0) fprintf(stderr, "%s\n", s.c_str());
				if (wild ? r.chance(30) : steps % 8 == 0) d.query();
				M.count(strf("%s_steps", deckind[kind]));
				if (x >= 0) { last = s.substr(0, 24); }
				if (x < 0) {
					M.count(strf("%s_err:%d", deckind[kind], x));
					uint64_t o = 0; d.get_offset(&o);
					uint64_t h = hash64(c.begin + std::min<uint64_t>(o, t.size()), std::min<size_t>(t.size() - std::min<uint64_t>(o, t.size()), 3));
					M.nontrivial(hash64(last.data(), std::min<size_t>(last.size(), 8), h * 31 + (uint64_t) (kind * 100 - x)));
					break;
				}
				// status eos is the end for queries, too
				if (kind == 2 && (x & pts_eos) && !(x & pts_event_pending)) break;
			}
			// calls after the error
			if (wild) { int n = (int) r.below(4); bool st = d.strict; d.strict = false; while (n--) { s.clear(); d.step(r, s, true); d.query(); } d.strict = st; }
		}
		if (wild && r.chance(3)) { d.sync(1, 0); d.query(); s.clear(); d.strict = false; d.step(r, s, true); d.strict = true; syncs = 0; if (r.chance(30)) break; }
		if (wild && r.chance(3)) { d.sync(2, r.chance(80) ? r.below(t.size() + 17) : r.wide(64)); d.query(); if (r.chance(50)) break; syncs = 0; }
		uint64_t before = 0, after = 0; bool hb = d.get_sync(&before) >= 0;
		rc = d.sync(0, 0);
		if (rc >= 0 && hb && atpsb(before) && d.get_sync(&after) >= 0 && after <= before) { M.violation(strf("resync:%s", deckind[kind]), strf("sync point %llu after %llu", (unsigned long long) after, (unsigned long long) before)); break; }
	}
	M.count("traces"); M.count(strf("%s_traces", deckind[kind])); M.count("trace_bytes", t.size()); M.count("resyncs", syncs);
	if (M.cur % 4999 == 0) M.sample(M.note.substr(0, 600));
}
