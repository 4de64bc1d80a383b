// C10: reported times follow the traced clock.
// A simulated machine with an exact clock (TSC ticks), a crystal clock (CTC) at ratio
// cpuid[0x15].eax/ebx and a core cycle counter at ratio cbr/nom_freq emits timing packets;
// times reported for marker events are compared with the true clock.
#include "evgen.hpp"
#include <cmath>

struct Item { int kind; uint64_t id; uint64_t T; uint64_t anchor; double tol_lo, tol_hi; bool exact, loose; bool has; uint32_t cbr; bool lost0; size_t off; };

struct Clock {
	Rng &r; Bytes out; std::string log;
	struct pt_config c;
	std::vector<Item> items;
	// machine
	unsigned __int128 T = 0;	// TSC ticks
	uint64_t eax, ebx, nom, cbr, mtc_freq, ctc0;
	double cyc_acc = 0;		// exact enough: cycles since start, cbr changes piecewise
	uint64_t cyc_sent = 0;		// cycles reported
	bool use_mtc, use_cyc, use_tma, lazy;
	// what the decoder knows
	bool has_tsc = false, tma = false, sync_cyc = false;
	uint64_t anchor = 0, hard = 0; bool exact = false; uint32_t nmtc = 0; uint64_t ncyc = 0;
	uint32_t known_cbr = 0; bool fcr = false; bool conf; bool lost = false, gap = false, rough = false;	// cycles since the last TSC or MTC could not be accounted for (@gap) or only approximately (@rough)
	uint64_t gapmtc = 0; bool mtc_seen = false; uint64_t max_period = 0; uint64_t since_reset_T = 0;
	Clock(Rng &rng) : r(rng) {}
	uint64_t now() const { return (uint64_t) T; }
	uint64_t ctc(uint64_t t) const { return ctc0 + (uint64_t) ((unsigned __int128) t * eax / ebx); }
	uint64_t ctc_time(uint64_t k) const { return (uint64_t) (((unsigned __int128) (k - ctc0) * ebx + eax - 1) / eax); }
	void emit(const MP &p) { mencode(p, out); log += p.str() + strf("@%llx ", (unsigned long long) now()); }
	void run(uint64_t dt) { T += dt; cyc_acc += (double) dt * (double) cbr / (double) nom; }
	// CYC-eligible packet comes next.
	void cyc(bool force = true)
	{
		if (!use_cyc) return;
		if (lazy && !force) return;
		uint64_t c = (uint64_t) floor(cyc_acc);
		uint64_t d = c - cyc_sent;
		if (!d && r.chance(50)) return;
		emit(MP(K_CYC, d)); cyc_sent = c;
		ncyc++; cycpend = cycpend || d; atmtc = true; if (!cal) rough = true;
		if (fcr && !gap) { anchor = now(); exact = false; }
		else { lost = gap = true; exact = false; }
	}
	double cyc_at_tsc = -1e9;
	// What the self-calibration in the absence of CYC before every MTC rests on: cycles were
	// reported up to the MTC the current calibration period started at (@aligned), the last
	// calibration was accurate (@cal), cycles were reported in the current period (@cycpend),
	// and the last CYC came right before the last MTC (@atmtc).
	bool aligned = false, cal = false, cycpend = false, atmtc = false, tight = false, havem = false;
	void tcal_mtc()
	{
		bool full = atmtc;
		if (!havem) { havem = true; aligned = full; cycpend = false; }
		else if (cycpend) { cal = aligned && full; aligned = full; cycpend = false; }
		tight = full;
	}
	void tcal_reset() { havem = aligned = cycpend = false; cal = false; }
	void sleep(uint64_t dt) { T += dt; M.count("sleeps"); }
	// Some packets are lost.  The trace resumes in a header.
	void ovf(bool en, bool mode)
	{
		uint64_t dt = r.wide(13);
		run(dt); cyc_sent = (uint64_t) floor(cyc_acc);
		if (r.chance(40)) sleep(r.wide(14));
		emit(MP(K_OVF)); if (en) emit(MP(K_FUP, 6, 0x1000));
		calmtc = 0; if (!mode) fcr = cal = false;
		bool known = cal; tcal_reset(); if (mode) cal = known;
		cyc_at_tsc = -1e9;
		M.count("overflows");
		psb(en, true, r.chance(80));
	}
	void tsc()
	{
		// The crystal clock may just have ticked.
		if (use_tma && r.chance(15)) {
			uint64_t k = ctc(now()) + 1;
			if (k & ((1ull << mtc_freq) - 1)) { run(ctc_time(k) - now()); M.count("tma_aligned"); }
		}
		cyc(); cyc_at_tsc = cyc_acc; tight = false;
		emit(MP(K_TSC, now() & ((1ull << 56) - 1))); has_tsc = true; tma = false; anchor = hard = now(); exact = true; nmtc = 0; ncyc = 0; lost = gap = rough = false; gapmtc = 0; max_period = 0;
		if (use_tma && !(use_mtc && r.chance(4))) {
			uint64_t k = ctc(now());
			// fast counter: ticks since the crystal clock ticked
			emit(MP(K_TMA, k & 0xffff, now() - ctc_time(k))); tma = true;
		}
	}
	void do_cbr(bool change)
	{
		if (change) { cyc(); cbr = r.range(nom / 4 + 1, nom + nom / 4); }
		emit(MP(K_CBR, cbr)); known_cbr = (uint32_t) cbr;
		if (change) { fcr = false; calmtc = 0; tcal_reset(); }
		if (conf) fcr = cal = true;
		if (change) since_reset_T = now();
	}
	// Let @dt ticks pass, emitting the periodic packets that fall due.
	void advance(uint64_t dt, bool drop)
	{
		uint64_t end = now() + dt;
		uint64_t step = 1ull << mtc_freq;
		while (use_mtc) {
			uint64_t next = (ctc(now()) / step + 1) * step, t = ctc_time(next);
			if (t > end) break;
			run(t - now());
			gapmtc++;
			if (drop && gapmtc < 200 && (mtc_freq <= 8 || nmtc)) { lostm = true; continue; }
			atmtc = false; tight = false;
			if (!lazy || r.chance(70)) cyc(!lazy || r.chance(60));
			// Nothing to report is as good.
			if ((uint64_t) floor(cyc_acc) == cyc_sent) atmtc = true;
			tcal_mtc();
			emit(MP(K_MTC, (next >> mtc_freq) & 0xff));
			// Two MTC periods calibrate in the absence of a nominal frequency.
			if (use_cyc && !lazy && ++calmtc > 2) fcr = true;
			if (has_tsc && tma) {
				if (gapmtc * mtc_period() > max_period) max_period = gapmtc * mtc_period();
				anchor = hard = now(); exact = false; nmtc++; ncyc = 0; gapmtc = 0; gap = rough = false;
			}
			mtc_seen = true;
			if (r.chance(15) && now() < end) { uint64_t x = r.below(end - now() + 1); x %= mtc_period() + 1; if (ctc_time((ctc(now()) / step + 1) * step) > now() + x) { run(x); cyc(false); } }
		}
		run(end - now());
	}
	bool keepq = false; bool lostm = false; unsigned calmtc = 0;
	uint64_t mtc_period() const { return (uint64_t) (((unsigned __int128) ebx << mtc_freq) / eax) + 1; }
	void mark(bool en)
	{
		int kind = en ? (int) r.below(3) : 0;
		if (r.chance(60)) cyc(false);
		Item it; it.kind = kind; it.id = items.size() + 1; it.T = now(); it.anchor = anchor; it.exact = exact; it.has = has_tsc; it.cbr = known_cbr; it.off = out.size();
		// Resolution: the crystal clock rounding of every MTC since the TSC, the rounding
		// of every CYC, and the precision of the core frequency over what CYC extrapolates.
		double ratio = (double) nom / (double) cbr;
		double e = (double) (anchor - hard);
		double tol = 2.0 + nmtc;
		it.tol_lo = it.tol_hi = tol; it.loose = false;
		if (ncyc) {
			if (lazy && fcr && !gap && !rough && cal && tight) { it.tol_lo = it.tol_hi = tol + 3 * (ratio + 1) * (double) (ncyc + 2) + e / 40.0; M.count("self_calibrated"); }
			else if (lazy || !fcr || gap) {
				// Without the nominal frequency the decoder calibrates itself or ignores CYC.
				// A lazy CYC overlapping MTC periods is attributed approximately.  All we
				// know is that time does not fall behind the last MTC or TSC.
				it.anchor = hard; it.tol_hi = lazy ? (cal && !rough && !gap && use_mtc ? (double) (now() - hard) * 1.05 + 1.05 * (double) mtc_period() + tol + 64 : 1e18) : (double) (now() - hard) * 1.25 + tol + 64; it.loose = true;
			} else it.tol_lo = it.tol_hi = tol + 3 * (ratio + 1) * (double) (ncyc + 2) + e / 40.0;
		}
		it.lost0 = conf && !lost && !lostm;
		items.push_back(it);
		if (kind == 0) emit(MP(K_PTW, 1, 0, it.id));
		else if (kind == 1) emit(MP(K_TNT8, it.id & 1, 1));
		else emit(MP(K_TIP, 6, it.id));
	}
	void psb(bool en, bool with_tsc, bool with_cbr)
	{
		cyc();
		emit(MP(K_PSB));
		// A timestamp in the header calibrates: few cycles would calibrate badly.
		if (use_cyc && (cyc_acc - cyc_at_tsc) < 1024) with_tsc = false;
		if (with_tsc && r.chance(50)) { tsc(); with_tsc = false; }
		if (with_cbr) do_cbr(false);
		if (en) emit(MP(K_FUP, 6, 0x1000));
		if (with_tsc) tsc();
		emit(MP(K_PSBEND));
	}
	void gen()
	{
		int k = (int) r.below(8);
		use_mtc = k != 1 && k != 0; use_cyc = k == 1 || k > 4; use_tma = use_mtc ? r.chance(95) : r.chance(30); lazy = use_cyc && r.chance(25);
		nom = r.range(10, 40); cbr = r.range(nom / 4 + 1, nom + nom / 4);
		eax = r.range(1, 4); ebx = eax * r.range(20, 150) + r.below(eax);
		// Ratios are not always given in lowest terms.
		if (r.chance(30)) { uint64_t f = r.chance(50) ? r.range(2, 100) : r.range(2, 6000000); eax *= f; ebx *= f; M.count("scaled_ratios"); }
		mtc_freq = r.chance(80) ? r.below(8) : r.below(14);
		if (use_cyc && use_mtc) while (((ebx / eax) << mtc_freq) < 2048) mtc_freq++;
		ctc0 = r.wide(32); T = r.chance(85) ? r.wide(50) : r.wide(55); if (r.chance(8)) { T = (1ull << 56) - 1 - r.below(40000); M.count("near_wrap"); } cyc_acc = 0;
		if (!use_tma && use_mtc) use_cyc = false;
		conf = r.chance(80);
		if (lazy && !conf) lazy = false;
		pt_config_init(&c);
		c.cpuid_0x15_eax = (uint32_t) eax; c.cpuid_0x15_ebx = (uint32_t) ebx; c.mtc_freq = (uint8_t) mtc_freq;
		c.nom_freq = conf ? (uint8_t) nom : 0;
		bool en = r.chance(60), keep = r.chance(50); keepq = keep;
		bool first_tsc = r.chance(85);
		psb(en, first_tsc, r.chance(90) || use_cyc);
		if (lazy) {}
		int n = (int) r.range(3, 40);
		for (int i = 0; i < n; ++i) {
			uint64_t p = mtc_period();
			uint64_t dt = r.chance(50) ? r.wide(10) : r.below(3 * p) + r.below(p);
			if (dt > 200 * p) dt = p;
			if (!use_mtc && dt > 100000) dt = 100000;
			bool drop = use_mtc && !lazy && r.chance(6);
			if (drop) dt = r.below(60 * p);
			advance(dt, drop);
			switch (r.below(12)) {
			case 0: if (r.chance(60)) tsc(); break;
			case 1: if (r.chance(60)) do_cbr(true); break;
			case 2: if (r.chance(60)) psb(en, has_tsc || first_tsc, r.chance(70)); break;
			case 3: if (r.chance(30)) cyc(); break;
			case 4: if (has_tsc && r.chance(25)) { if (r.chance(50)) ovf(en, keep); else if (!(use_mtc && use_cyc)) { sleep(r.wide(14)); tsc(); } } break;
			default: mark(en); if (r.chance(20)) mark(en); break;
			}
		}
	}
};

void run_case(Rng &r)
{
	Clock k(r); k.gen();
	bool useq = r.chance(50);
	M.note = strf("eax=%llu ebx=%llu nom=%u(%llu) mtc_freq=%llu cyc=%d mtc=%d lazy=%d query=%d\n", (unsigned long long) k.eax, (unsigned long long) k.ebx, k.c.nom_freq, (unsigned long long) k.nom,
		(unsigned long long) k.mtc_freq, k.use_cyc, k.use_mtc, k.lazy, useq) + k.log + "\n";
	GuardBuf buf(k.out.data(), k.out.size(), true);
	k.c.begin = buf.begin; k.c.end = buf.end();
	struct pt_event_decoder *d = nullptr; struct pt_query_decoder *q = nullptr;
	uint64_t ip; int rc;
	if (useq) { k.c.flags.variant.query.keep_tcal_on_ovf = k.keepq; q = pt_qry_alloc_decoder(&k.c); rc = pt_qry_sync_forward(q, &ip); }
	else { k.c.flags.variant.event.keep_tcal_on_ovf = k.keepq; d = pt_evt_alloc_decoder(&k.c); rc = pt_evt_sync_forward(d); }
	std::string mode = strf("%s%s%s", k.use_mtc ? "mtc" : "", k.use_cyc ? "cyc" : "", k.lazy ? "lazy" : "");
	size_t i = 0;
	uint64_t last_cbr_event = 0;
	while (rc >= 0) {
		struct pt_event e; memset(&e, 0, sizeof e);
		uint64_t tm = 0; bool has = false; uint32_t lm = 0, lc = 0; int kind = -1; uint64_t id = 0;
		if (q) {
			if (rc & pts_eos) break;
			int want = rc & pts_event_pending ? 0 : i < k.items.size() ? k.items[i].kind : 0;
			int t = 0; uint64_t a = 0;
			if (want == 1) { rc = pt_qry_cond_branch(q, &t); kind = 1; id = (k.items[i].id & ~1ull) | (unsigned) t; }
			else if (want == 2) { rc = pt_qry_indirect_branch(q, &a); kind = 2; id = a; }
			else {
				rc = pt_qry_event(q, &e, sizeof e);
				if (rc >= 0 && e.type == ptev_ptwrite) { kind = 0; id = e.variant.ptwrite.payload; }
				if (rc >= 0 && e.type == ptev_cbr) last_cbr_event = e.variant.cbr.ratio;
			}
			if (rc < 0) { if (rc != -pte_eos) M.violation("decode", strf("%d", rc)); break; }
			if (kind < 0) continue;
			int te = pt_qry_time(q, &tm, &lm, &lc); has = te >= 0;
			if (te < 0 && te != -pte_no_time) M.violation("time-error", strf("%d", te));
			if (kind == 0 && (has != !!e.has_tsc || (has && e.tsc != tm))) M.violation("event-time", strf("event time %llx, time query %llx (%d)", (unsigned long long) e.tsc, (unsigned long long) tm, te));
			uint32_t cbr = 0; int ce = pt_qry_core_bus_ratio(q, &cbr);
			if (i < k.items.size()) {
				if (k.items[i].cbr ? (ce < 0 || cbr != k.items[i].cbr) : ce != -pte_no_cbr)
					M.violation("cbr", strf("core:bus ratio %d %u instead of %u", ce, cbr, k.items[i].cbr));
				M.count(k.items[i].cbr ? "cbr_queries" : "cbr_queries_none");
			}
		} else {
			rc = pt_evt_next(d, &e, sizeof e);
			if (rc < 0) { if (rc != -pte_eos) M.violation("decode", strf("%d", rc)); break; }
			if (e.type == ptev_cbr) last_cbr_event = e.variant.cbr.ratio;
			if (e.type == ptev_ptwrite) { kind = 0; id = e.variant.ptwrite.payload; }
			else if (e.type == ptev_tnt) { kind = 1; id = i < k.items.size() ? (k.items[i].id & ~1ull) | e.variant.tnt.bits : 0; }
			else if (e.type == ptev_tip) { kind = 2; id = e.variant.tip.ip; }
			else continue;
			has = e.has_tsc; tm = e.tsc; lm = e.lost_mtc; lc = e.lost_cyc;
		}
		if (i >= k.items.size() || k.items[i].kind != kind || k.items[i].id != id) { M.violation("order", "markers out of order"); break; }
		const Item &it = k.items[i++];
		M.count("times_compared");
		if (has != it.has) { M.violation(it.has ? "missing" : "early", strf("marker %llu: has time %d instead of %d", (unsigned long long) it.id, has, it.has)); break; }
		if (!has) { M.count("no_time"); continue; }
		// The traced clock has 56 bits.
		int64_t diff = (int64_t) ((tm - it.anchor) << 8) >> 8;
		std::string s = strf("marker %llu: reported %llx, last timing packet at %llx, now %llx, difference %lld, tolerance -%.0f..+%.0f", (unsigned long long) it.id,
			(unsigned long long) tm, (unsigned long long) it.anchor, (unsigned long long) it.T, (long long) diff, it.tol_lo, it.tol_hi);
		if (it.exact) { if (diff) { M.violation("exact:" + mode, s); break; } M.count("exact:" + mode); }
		else {
			if ((double) diff < -it.tol_lo) { M.violation("behind:" + mode, s); break; }
			if ((double) diff > it.tol_hi) { M.violation("ahead:" + mode, s); break; }
			M.count((it.loose ? "bounded:" : "tracked:") + mode);
			double rel = it.loose ? 0 : diff < 0 ? (double) -diff / (it.tol_lo + 1) : (double) diff / (it.tol_hi + 1);
			M.cnt["max:tolerance_used_pct"] = std::max<uint64_t>(M.cnt["max:tolerance_used_pct"], (uint64_t) (rel * 100));
		}
		if (it.lost0) { if (lm || lc) { M.violation("lost", s + strf(": lost mtc %u cyc %u", lm, lc)); break; } M.count("lost_zero"); }
		M.nontrivial(hashs(mode) + it.anchor * 7919 + tm + k.mtc_freq * 13);
	}
	if (rc >= 0 || rc == -pte_eos) if (i != k.items.size()) M.violation("missing-marker", strf("%zu of %zu", i, k.items.size()));
	(void) last_cbr_event;
	if (M.samples.size() < 3) M.sample(k.log.substr(0, 300));
	pt_evt_free_decoder(d); pt_qry_free_decoder(q);
}
