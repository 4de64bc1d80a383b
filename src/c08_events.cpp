// C08: every traced event is reported once, in order, with the right data.
#include "evgen.hpp"

void run_case(Rng &r)
{
	bool ifl = r.chance(50), keep = r.chance(30);
	EvGen g(r, ifl);
	g.cyc = r.chance(30);	// CYC estimates the time, see C10
	g.generate((int) r.range(1, 40));
	bool qry = r.chance(40);
	M.note = strf("iflags=%d query=%d\n", ifl, qry) + g.log + "\n" + hexs(g.out.data(), g.out.size()) + "\n";
	GuardBuf buf(g.out.data(), g.out.size(), r.chance(50));
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	if (qry) { c.flags.variant.query.enable_iflags_events = ifl; c.flags.variant.query.keep_tcal_on_ovf = keep; }
	else { c.flags.variant.event.enable_iflags_events = ifl; c.flags.variant.event.keep_tcal_on_ovf = keep; }
	auto bad = [&](size_t i, const char *key, const std::string &what) {
		size_t p = i < g.evpkt.size() ? g.evpkt[i] : g.pkts.size() - 1;
		std::string ctx;
		for (size_t k = p >= 6 ? p - 6 : 0; k <= p + 2 && k < g.pkts.size(); ++k) ctx += g.pkts[k].second.str() + " ";
		M.violation(std::string(qry ? "query:" : "event:") + key, what + " at packets [.. " + ctx + "..]");
	};
	struct pt_event_decoder *d = nullptr; struct pt_query_decoder *q = nullptr;
	uint64_t ip; int st;
	if (qry) { q = pt_qry_alloc_decoder(&c); st = pt_qry_sync_forward(q, &ip); }
	else { d = pt_evt_alloc_decoder(&c); st = pt_evt_sync_forward(d); }
	if (st < 0) { bad(0, "sync", strf("sync_forward -> %d", st)); goto out; }
	{
	uint64_t lastoff = 0; size_t i = 0;
	for (;;) {
		struct pt_event e; memset(&e, 0xa5, sizeof e);
		const Ev *x = i < g.ev.size() ? &g.ev[i] : nullptr;
		int rc; Ev got;
		if (qry && x && x->type == ptev_tnt) {
			got.type = ptev_tnt; uint64_t bits = 0, n = x->f[0]; rc = 0;
			for (uint64_t k = 0; k < n && rc >= 0; ++k) { int t = -1; rc = pt_qry_cond_branch(q, &t); bits = bits << 1 | (t & 1); }
			got.f = { n, bits }; got.has_tsc = x->has_tsc; got.tsc = x->tsc;
		} else if (qry && x && x->type == ptev_tip) {
			uint64_t a = 0; rc = pt_qry_indirect_branch(q, &a); got.type = ptev_tip; got.sup = rc >= 0 && (rc & pts_ip_suppressed);
			if (!got.sup) got.f = { a };
			got.has_tsc = x->has_tsc; got.tsc = x->tsc;
		} else {
			rc = qry ? pt_qry_event(q, &e, sizeof e) : pt_evt_next(d, &e, sizeof e);
			if (rc >= 0) got = ev_canon(e);
			if (g.cyc && x && got.has_tsc) got.tsc = x->tsc;
		}
		uint64_t off = 0;
		int oe = qry ? pt_qry_get_offset(q, &off) : pt_evt_get_offset(d, &off);
		if (oe < 0 || off > g.out.size() || off < lastoff) bad(i, "offset", strf("offset %llu after %llu: %d", (unsigned long long) off, (unsigned long long) lastoff, oe));
		lastoff = off;
		if (!x) {
			if (rc >= 0) bad(i, strf("extra:%s", evname(got.type)).c_str(), "extra event " + got.str());
			else if (rc != -pte_eos) bad(i, "end", strf("%d instead of eos at the end", rc));
			break;
		}
		if (rc < 0) { bad(i, strf("error:%s", evname(x->type)).c_str(), strf("%d instead of ", rc) + x->str()); break; }
		if (!x->same(got)) { bad(i, strf("wrong:%s", evname(x->type)).c_str(), "got " + got.str() + " instead of " + x->str()); break; }
		M.count(strf("ev:%s%s%s", evname(x->type), x->status ? "/status" : "", x->sup ? "/ipsup" : ""));
		M.count("events_compared");
		{
			// what the event was bound to and follows
			size_t p = g.evpkt[i]; uint64_t h = (uint64_t) x->type * 131 + x->sup * 2 + x->status;
			for (size_t k = p >= 3 ? p - 3 : 0; k <= p; ++k) h = h * 1000003 + (uint64_t) g.pkts[k].second.k * 8 + (g.pkts[k].second.k >= K_TIP && g.pkts[k].second.k <= K_FUP ? g.pkts[k].second.f[0] : 0);
			M.nontrivial(h);
		}
		++i;
	}
	}
	if (M.samples.size() < 3) M.sample(g.log.substr(0, 300));
out:
	pt_evt_free_decoder(d); pt_qry_free_decoder(q);
}
