// C09: the query decoder returns exactly the recorded branch outcomes.
#include "evgen.hpp"

void run_case(Rng &r)
{
	bool ifl = r.chance(50);
	EvGen g(r, ifl); g.cyc = false;
	g.generate((int) r.range(1, 60));
	bool garbage = r.chance(15);
	if (garbage) { g.out.push_back(0x02); g.out.push_back(0xff); g.out.resize(g.out.size() + 24, 0xff); }
	M.note = g.log + "\n";
	GuardBuf buf(g.out.data(), g.out.size(), r.chance(50));
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	c.flags.variant.query.enable_iflags_events = ifl;
	struct pt_query_decoder *q = pt_qry_alloc_decoder(&c);
	auto bad = [&](const char *key, const std::string &s) { M.violation(key, s); };
	const auto &ev = g.ev;
	uint64_t ip = 0x1234567, ip0 = ip;
	// before synchronization
	{ int t; uint64_t a; struct pt_event e;
	if (pt_qry_cond_branch(q, &t) != -pte_nosync || pt_qry_indirect_branch(q, &a) != -pte_nosync || pt_qry_event(q, &e, sizeof e) != -pte_nosync)
		bad("nosync", "query before synchronization is not refused with -pte_nosync"); }
	int st = pt_qry_sync_forward(q, &ip);
	size_t i = 0;		// current item
	std::vector<int> cache; size_t cp = 0;	// cached branch bits
	uint64_t curtsc = 0; bool curhas = false;
	auto left = [&]() { return cache.size() - cp; };
	auto expect = [&]() {
		if (left()) return 0;
		if (i >= ev.size()) return garbage ? -1 : (int) pts_eos;
		return ev[i].type == ptev_tnt || ev[i].type == ptev_tip ? 0 : (int) pts_event_pending;
	};
	auto fill = [&]() {
		const Ev &e = ev[i];
		cache.clear(); cp = 0;
		for (int k = (int) e.f[0] - 1; k >= 0; --k) cache.push_back((int) (e.f[1] >> k & 1));
		++i;
	};
	auto chk_flags = [&](int rc, const char *what, int extra) {
		int x = expect();
		if (x < 0) return;	// the error behind the last item is signalled as pending event
		if (rc != (x | extra)) bad((std::string("flags:") + what).c_str(), strf("%s returned status %#x instead of %#x; next item %s, %zu bits left", what, (unsigned) rc, (unsigned) (x | extra),
			i < ev.size() ? ev[i].str().c_str() : "end", left()));
	};
	if (st < 0) { bad("sync", strf("%d", st)); goto out; }
	if (ev.size() && ev[0].type == ptev_enabled) {
		if (st & pts_ip_suppressed) bad("sync:suppressed", "start IP suppressed although tracing is enabled");
		else if (ip != ev[0].f[0]) bad("sync:ip", strf("start at %llx instead of %llx", (unsigned long long) ip, (unsigned long long) ev[0].f[0]));
		chk_flags(st, "sync", 0);
	} else {
		if (!(st & pts_ip_suppressed)) bad("sync:unsuppressed", strf("start IP %llx reported although tracing is disabled", (unsigned long long) ip));
		if (ip != ip0) bad("sync:ip", "start IP written although suppressed");
		chk_flags(st, "sync", pts_ip_suppressed);
	}
	for (int steps = 0; steps < 100000; ++steps) {
		bool end = !left() && i >= ev.size();
		// the kind of query: mostly the right one
		int kind = left() ? 0 : end ? (int) r.below(3) : ev[i].type == ptev_tnt ? 0 : ev[i].type == ptev_tip ? 1 : 2;
		bool deferred = false;
		if (left() && i < ev.size() && ev[i].type == ptev_tip && r.chance(20)) { kind = 1; deferred = true; }
		else if (!end && r.chance(25)) {
			kind = (kind + 1 + (int) r.below(2)) % 3;
			if (kind == 1 && left() && i < ev.size() && (ev[i].type == ptev_tnt || ev[i].type == ptev_tip)) kind = 2;	// would look further ahead
		}
		struct pt_event e; memset(&e, 0x5a, sizeof e); struct pt_event e0 = e;
		int taken = 77; uint64_t addr = 0x7777; int rc;
		if (kind == 0) {
			bool right = left() || (!end && ev[i].type == ptev_tnt);
			rc = pt_qry_cond_branch(q, &taken);
			if (end) { if (rc >= 0 || (!garbage && rc != -pte_eos)) bad("end:cond", strf("%d", rc)); break; }
			if (!right) {
				if (rc != -pte_bad_query) bad("wrong-accepted:cond", strf("cond query -> %d, next item %s", rc, ev[i].str().c_str()));
				if (taken != 77) bad("wrong-written:cond", "output written by a refused query");
				M.count("refused"); if (rc >= 0) break; continue;
			}
			if (!left()) { curhas = ev[i].has_tsc; curtsc = ev[i].tsc; fill(); }
			int want = cache[cp++];
			if (rc < 0) { bad("error:cond", strf("%d for recorded branch outcome %d", rc, want)); break; }
			if (taken != want) { bad("wrong:cond", strf("branch %d instead of %d", taken, want)); break; }
			chk_flags(rc, "cond", 0);
			M.count("branches");
		} else if (kind == 1) {
			if (!end && !left() && ev[i].type == ptev_tnt) {
				// the packet is cached, a directly following indirect branch may be taken first (deferred TIP)
				if (i + 1 < ev.size() && ev[i + 1].type == ptev_tip) deferred = true;
			}
			bool in = i < ev.size();
			bool right = in && (ev[i].type == ptev_tip || deferred);
			rc = pt_qry_indirect_branch(q, &addr);
			if (end) { if (rc >= 0 || (!garbage && rc != -pte_eos)) bad("end:indirect", strf("%d", rc)); break; }
			if (!right) {
				bool errahead = garbage && i + 1 >= ev.size();
				if (rc != -pte_bad_query && !(rc < 0 && i + 1 >= ev.size())) bad("wrong-accepted:indirect", strf("indirect query -> %d, next item %s", rc, in ? ev[i].str().c_str() : "end"));
				if (addr != 0x7777) bad("wrong-written:indirect", "output written by a refused query");
				(void) errahead;
				if (in && ev[i].type == ptev_tnt) { fill(); curtsc = ~0ull; }	// was cached
				M.count("refused"); if (rc >= 0) break; continue;
			}
			if (ev[i].type == ptev_tnt) fill();
			const Ev &t = ev[i++];
			if (rc < 0) { bad("error:indirect", strf("%d for ", rc) + t.str()); break; }
			if (!!(rc & pts_ip_suppressed) != t.sup) { bad("wrong:indirect-suppressed", strf("status %#x for ", (unsigned) rc) + t.str()); break; }
			if (!t.sup && addr != t.f[0]) { bad("wrong:indirect", strf("%llx for ", (unsigned long long) addr) + t.str()); break; }
			if (t.sup && addr != 0x7777) bad("written:indirect", "suppressed address written");
			chk_flags(rc, "indirect", t.sup ? pts_ip_suppressed : 0);
			curhas = t.has_tsc; curtsc = t.tsc;
			M.count(deferred ? "deferred_indirect" : "indirect");
		} else {
			bool right = !end && !left() && ev[i].type != ptev_tnt && ev[i].type != ptev_tip;
			rc = pt_qry_event(q, &e, sizeof e);
			if (end) { if (rc >= 0 || (!garbage && rc != -pte_eos)) bad("end:event", strf("%d", rc)); break; }
			if (!right) {
				if (rc != -pte_bad_query) bad("wrong-accepted:event", strf("event query -> %d, next %s, %zu bits left", rc, i < ev.size() ? ev[i].str().c_str() : "end", left()));
				if (memcmp(&e, &e0, sizeof e)) bad("wrong-written:event", "output written by a refused query");
				M.count("refused"); if (rc >= 0) break; continue;
			}
			const Ev &t = ev[i++];
			if (rc < 0) { bad("error:event", strf("%d for ", rc) + t.str()); break; }
			Ev got = ev_canon(e);
			if (!got.same(t)) { bad("wrong:event", "got " + got.str() + " instead of " + t.str()); break; }
			chk_flags(rc, "event", 0);
			if (t.type == ptev_overflow) { struct pt_event dummy; (void) dummy; curhas = false; curtsc = ~0ull; }
			else { curhas = t.has_tsc; curtsc = t.tsc; }
			M.count("events");
		}
		// the time at the item just consumed
		if (curtsc != ~0ull && r.chance(30)) {
			uint64_t tm = 0; int te = pt_qry_time(q, &tm, nullptr, nullptr);
			if (curhas ? (te < 0 || tm != curtsc) : te != -pte_no_time)
				bad("time", strf("time query %d %llx instead of %s%llx", te, (unsigned long long) tm, curhas ? "" : "none ", (unsigned long long) curtsc));
			M.count("time_queries");
		}
		uint64_t h = (uint64_t) kind * 31 + (uint64_t) deferred;
		size_t p = i && i - 1 < g.evpkt.size() ? g.evpkt[i - 1] : 0;
		for (size_t k = p >= 2 ? p - 2 : 0; k <= p + 1 && k < g.pkts.size(); ++k) h = h * 1000003 + (uint64_t) g.pkts[k].second.k * 64 + (g.pkts[k].second.k <= K_TNT64 ? g.pkts[k].second.f[1] : 0);
		M.nontrivial(h + left() * 7919 + (uint64_t) rc);
	}
	if (M.samples.size() < 3) M.sample(g.log.substr(0, 300));
out:
	pt_qry_free_decoder(q);
}
