// C27: address filters and processor errata follow the configuration.
#include "evgen.hpp"
#include <algorithm>
#include <functional>

// ---------------------------------------------------------------- the documented errata
enum { BDM70 = 1, BDM64 = 2, SKD007 = 4, SKD022 = 8, SKD010 = 16, SKL014 = 32, APL12 = 64, APL11 = 128, SKL168 = 256, SKZ84 = 512 };
static const uint32_t ALL = 1023;
static void set_errata(struct pt_errata &e, uint32_t m)
{
	memset(&e, 0, sizeof e);
	e.bdm70 = !!(m & BDM70); e.bdm64 = !!(m & BDM64); e.skd007 = !!(m & SKD007); e.skd022 = !!(m & SKD022); e.skd010 = !!(m & SKD010);
	e.skl014 = !!(m & SKL014); e.apl12 = !!(m & APL12); e.apl11 = !!(m & APL11); e.skl168 = !!(m & SKL168); e.skz84 = !!(m & SKZ84);
}
struct Gens { uint16_t family; std::vector<int> models; uint32_t errata; };
static const Gens gens[] = {
	{ 6, { 0x3d, 0x47, 0x4f, 0x56 }, BDM70 | BDM64 },					// Broadwell
	{ 6, { 0x4e, 0x5e, 0x8e, 0x9e, 0xa5, 0xa6 }, BDM70 | SKD007 | SKD022 | SKD010 | SKL014 | SKL168 },	// Skylake to Comet Lake
	{ 6, { 0x55, 0x6a, 0x6c }, BDM70 | SKL014 | SKD022 | SKZ84 },				// Skylake and Ice Lake servers
	{ 6, { 0x8f, 0xcf, 0xad, 0xae }, BDM70 | SKD022 | SKZ84 },				// Sapphire to Granite Rapids
	{ 6, { 0x66, 0x7d, 0x7e, 0x8c, 0x8d, 0xa7, 0xa8 }, BDM70 | SKL014 | SKD022 },		// Cannon, Ice, Tiger, Rocket Lake
	{ 6, { 0x97, 0x9a, 0xba, 0xb7, 0xbf, 0xc5, 0xc6, 0xb5, 0xaa, 0xac, 0xbd, 0xcc }, BDM70 | SKD022 | APL11 },	// Alder Lake and later
	{ 6, { 0x5c, 0x5f }, APL12 | APL11 },							// Goldmont
	{ 6, { 0x7a, 0x86, 0x96, 0x9c, 0xb6, 0xaf, 0xdd }, APL11 },				// Goldmont Plus and later
	{ 0x13, { 0x01 }, BDM70 | SKD022 | SKZ84 },						// Diamond Rapids
};
static void table(Rng &r)
{
	// all models of a family; the families that are listed come up often
	uint16_t fam = r.chance(40) ? 6 : r.chance(30) ? 0x13 : r.chance(70) ? (uint16_t) r.below(32) : (uint16_t) r.next();
	bool intel = r.chance(85); struct pt_cpu c; memset(&c, 0, sizeof c);
	c.vendor = intel ? pcv_intel : pcv_unknown; c.family = fam;
	for (int m = 0; m < 256; ++m) {
		c.model = (uint8_t) m; c.stepping = (uint8_t) r.below(256);
		struct pt_errata e, w; memset(&e, 0xa5, sizeof e); bool known = false; set_errata(w, 0);
		if (intel) for (auto &g : gens) if (g.family == fam && std::find(g.models.begin(), g.models.end(), m) != g.models.end()) { known = true; set_errata(w, g.errata); }
		int rc = pt_cpu_errata(&e, &c);
		if (rc != (known ? 0 : -pte_bad_cpu)) { M.violation("table:status", strf("%d for vendor %d, %x/%x", rc, c.vendor, fam, m)); return; }
		if (memcmp(&e, &w, sizeof e)) { M.violation("table:errata", strf("%x/%x: %s instead of %s", fam, m, hexs(&e, 8).c_str(), hexs(&w, 8).c_str())); return; }
		if (known) M.nontrivial(0x7000000 + (uint64_t) fam * 256 + (uint64_t) m);
		M.count(known ? "table_known" : "table_unknown");
	}
}

// ---------------------------------------------------------------- event level
struct Log { std::vector<Ev> ev; int rc = 0; std::string str() const { std::string s; for (auto &e : ev) s += e.str() + "; "; return s + strf("-> %d", rc); } };
static Log run_events(const Bytes &b, uint32_t errata, bool qry)
{
	Log l; GuardBuf buf(b.data(), b.size(), true);
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end(); set_errata(c.errata, errata);
	(void) qry;
	struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
	l.rc = pt_evt_sync_forward(d);
	for (int n = 0; l.rc >= 0 && n < 2000; ++n) { struct pt_event e; memset(&e, 0, sizeof e); l.rc = pt_evt_next(d, &e, sizeof e); if (l.rc >= 0) l.ev.push_back(ev_canon(e)); }
	pt_evt_free_decoder(d);
	return l;
}
static Ev mk(int type, bool sup, std::vector<uint64_t> f = {}) { Ev e; e.type = type; e.sup = sup; e.f = f; return e; }
static bool same(const Ev &a, const Ev &b) { return a.type == b.type && a.sup == b.sup && a.status == b.status && a.f == b.f; }

struct Tr {
	Rng &r; Bytes b; IpEnc ip; std::string log; bool timing;
	explicit Tr(Rng &x) : r(x) { timing = r.chance(50); }
	void p(const MP &m) { mencode(m, b); log += m.str() + " "; }
	void ipp(int k, uint64_t a) { p(ip.enc(r, k, a)); }
	uint64_t addr() { return IpEnc::canon(r.wide(48)); }
	void time() { if (!timing) return; switch (r.below(4)) { case 0: p(MP(K_TSC, r.wide(56))); if (r.chance(50)) p(MP(K_TMA, r.below(65536), r.below(512))); break; case 1: p(MP(K_CYC, 1 + r.below(31))); break; case 2: p(MP(K_MTC, r.below(256))); break; default: break; } }
	// enabled at @a by a header
	void psb(bool en, uint64_t a)
	{
		p(MP(K_PSB)); ip.last = 0; if (r.chance(30)) p(MP(K_PAD)); time();
		if (en) { if (r.chance(50)) p(MP(K_EXEC, 1, 0, 0)); ipp(K_FUP, a); }
		p(MP(K_PSBEND));
	}
	void fill() { int n = (int) r.below(4); while (n--) { if (r.chance(50)) p(MP(K_PAD)); else time(); } }
};

// Remove what the scenarios do not predict: execution modes and core frequency in headers.
static std::vector<Ev> strip(const std::vector<Ev> &v)
{
	std::vector<Ev> o; for (auto &e : v) if (!e.status || (o.empty() && (e.type == ptev_enabled || e.type == ptev_disabled))) o.push_back(e);
	return o;
}

static void check(const char *name, bool applies, uint32_t bit, uint32_t others, const Tr &t, const std::vector<Ev> &want, int wantrc, std::function<bool(const Log &)> off_ok)
{
	Log on = run_events(t.b, others | bit, false), off = run_events(t.b, others & ~bit, false);
	M.note += strf("%s applies=%d others=%x\n", name, applies, others) + t.log + "\nconfigured: " + on.str() + "\nnot configured: " + off.str() + "\n";
	if (!applies) {
		bool eq = on.rc == off.rc && on.ev.size() == off.ev.size();
		for (size_t i = 0; eq && i < on.ev.size(); ++i) eq = on.ev[i].same(off.ev[i]);
		if (!eq) M.violation(strf("%s:healthy", name), "the workaround changes a trace that the erratum does not affect: " + on.str() + " instead of " + off.str());
		else { M.count(strf("%s_healthy", name)); M.nontrivial(hashs(t.log)); }
		return;
	}
	std::vector<Ev> g = strip(on.ev); std::string ws; for (auto &e : want) ws += e.str() + "; ";
	bool eq = g.size() == want.size() && on.rc == wantrc;
	for (size_t i = 0; eq && i < g.size(); ++i) eq = same(g[i], want[i]);
	if (!eq) M.violation(strf("%s:workaround", name), on.str() + strf(" instead of %s-> %d", ws.c_str(), wantrc));
	else if (!off_ok(off)) M.violation(strf("%s:unasked", name), "the workaround is applied without being configured: " + off.str());
	else { M.count(strf("%s_applied", name)); M.nontrivial(hashs(t.log)); }
}

static MP skippable(Rng &r, Tr &t, bool disabled_ok)
{
	(void) t; (void) disabled_ok;
	switch (r.below(7)) {
	case 0: return MP(K_PIP, r.wide(52) & ~31ull, 0); case 1: return MP(K_VMCS, r.wide(52) & ~4095ull);
	case 2: return MP(K_MNT, r.next()); case 3: return MP(K_PWRE, 1 + r.below(8), r.below(16), 0);
	case 4: return MP(K_PWRX, 1, 2, 1, 0, 0); case 5: return MP(K_CBR, 1 + r.below(200)); default: return MP(K_PTW, r.below(2), 0, r.wide(32));
	}
}
static Ev ev_of(const MP &m)
{
	const uint64_t *f = m.f;
	switch (m.k) {
	case K_PIP: return mk(ptev_paging, false, { f[0], f[1] }); case K_VMCS: return mk(ptev_vmcs, false, { f[0] }); case K_MNT: return mk(ptev_mnt, false, { f[0] });
	case K_PWRE: return mk(ptev_pwre, false, { f[0], f[1], f[2] }); case K_PWRX: return mk(ptev_pwrx, false, { f[0], f[1], f[2], f[3], f[4] });
	case K_CBR: return mk(ptev_cbr, false, { f[0] });
	}
	abort();
}

// After PGE at a new address.
static void tail(Tr &t, std::vector<Ev> &w, bool en)
{
	Rng &r = t.r; uint64_t a = t.addr();
	if (!en) { t.fill(); t.ipp(K_PGE, a); w.push_back(mk(ptev_enabled, false, { a })); }
	uint64_t n = 1 + r.below(6), v = r.below(1u << n); t.p(MP(K_TNT8, v, n)); w.push_back(mk(ptev_tnt, false, { n, v })); w.back().sup = true;
	a = t.addr(); t.ipp(K_TIP, a); w.push_back(mk(ptev_tip, false, { a }));
	w[w.size() - 2].sup = false;
}

static bool no_ovf_ip(const Log &l) { for (auto &e : l.ev) if (e.type == ptev_overflow && !e.sup) return false; return true; }

static void ev_ovf(Rng &r)
{
	Tr t(r); std::vector<Ev> w; uint64_t ip0 = t.addr(), ip1 = t.addr();
	bool was = r.chance(80); t.psb(was, ip0);
	Ev st = was ? mk(ptev_enabled, false, { ip0 }) : mk(ptev_disabled, true); st.status = true; w.push_back(st);
	if (was && r.chance(50)) { uint64_t n = 1 + r.below(6), v = r.below(1u << n); t.p(MP(K_TNT8, v, n)); w.push_back(mk(ptev_tnt, false, { n, v })); }
	t.fill(); t.p(MP(K_OVF)); t.ip.last = 0; t.fill();
	uint32_t others = (uint32_t) r.next() & (BDM64 | SKD022 | SKL014 | SKZ84 | SKD007);
	const int eos = -pte_eos; int k = (int) r.below(20);
	auto ovf = [&](bool sup, uint64_t a) { w.push_back(sup ? mk(ptev_overflow, true) : mk(ptev_overflow, false, { a })); };
	auto skip = [&](bool must) { int n = (int) r.range(must ? 1 : 0, 4); bool first = true; while (n--) { MP m = skippable(r, t, false); if (must && first) m = MP(K_PIP, r.wide(52) & ~31ull, 0); first = false; t.p(m); t.fill(); } };
	switch (k) {
	case 0: case 1: // APL11 (SKD010 covers it, too): TIP.PGD follows
		if (r.chance(50)) t.p(MP(K_MNT, r.next()));
		if (r.chance(30)) t.p(MP(K_CBR, 1 + r.below(100)));
		if (r.chance(50)) t.p(t.ip.none(K_PGD)); else t.ipp(K_PGD, ip1);
		ovf(true, 0); tail(t, w, false);
		if (r.chance(50)) check("apl11", true, APL11, others | (r.chance(50) ? APL12 : 0), t, w, eos, [](const Log &l) { return l.rc == -pte_bad_context; });
		else check("skd010", true, SKD010, others | (r.chance(50) ? APL12 : 0), t, w, eos, [](const Log &l) { return l.rc == -pte_bad_context; });
		return;
	case 2: // not APL11: other packets follow
		switch (r.below(5)) { case 0: t.ipp(K_FUP, ip1); tail(t, w, true); break; case 1: tail(t, w, false); break; case 2: t.p(MP(K_TNT8, 1, 1)); break; case 3: t.ipp(K_TIP, ip1); break; case 4: skip(true); tail(t, w, false); break; }
		check("apl11", false, APL11, others | (r.chance(50) ? APL12 : 0), t, {}, 0, nullptr); return;
	case 3: case 4: case 5: { // APL12: FUP, yet tracing is disabled
		if (r.chance(30)) t.p(MP(K_MNT, r.next()));
		t.ipp(K_FUP, ip1); ovf(true, 0);
		int n = (int) r.below(4); while (n--) { MP m = skippable(r, t, false); if (m.k == K_PTW) continue; t.p(m); w.push_back(ev_of(m)); t.fill(); }
		switch (r.below(3)) {
		case 0: break;
		case 1: t.p(MP(K_STOP)); w.push_back(mk(ptev_stop, false)); break;
		case 2: t.psb(false, 0); break;
		}
		size_t nw = w.size(); tail(t, w, false);
		for (size_t i = 0; i < nw; ++i) if (w[i].type == ptev_stop) w[i].sup = false;
		check("apl12", true, APL12, others | ((uint32_t) r.next() & (APL11 | SKD010)), t, w, eos, [](const Log &l) { return !no_ovf_ip(l); }); return; }
	case 6: case 7: // not APL12
		t.ipp(K_FUP, ip1);
		if (r.chance(50)) skip(false);
		switch (r.below(6)) { case 0: tail(t, w, true); break; case 1: t.ipp(K_TIP, t.addr()); break; case 2: t.ipp(K_PGD, t.addr()); break; case 3: break; case 4: t.p(MP(K_OVF)); break; case 5: t.psb(true, ip1); tail(t, w, true); break; }
		check("apl12", false, APL12, others | ((uint32_t) r.next() & (APL11 | SKD010)), t, {}, 0, nullptr); return;
	case 8: case 9: { // SKD010: TIP
		if (r.chance(60)) skip(r.chance(50)); 
		if (r.chance(20)) t.p(MP(K_EXEC, 1, 0, 0));
		t.ipp(K_TIP, ip1); ovf(false, ip1); tail(t, w, true);
		check("skd010", true, SKD010, others | (r.chance(50) ? APL12 : 0), t, w, eos, no_ovf_ip); return; }
	case 10: case 11: { // SKD010: FUP, possibly with MODE.TSX
		skip(true); uint64_t a = t.addr(); bool tsx = r.chance(50), ab = r.chance(50), in = !ab && r.chance(50);
		if (tsx) { t.p(MP(K_TSX, in, ab)); if (r.chance(30)) skip(false); }
		t.ipp(K_FUP, ip1); ovf(false, ip1);
		if (tsx) w.push_back(mk(ptev_tsx, false, { (uint64_t) in, (uint64_t) ab, ip1 }));
		if (!tsx || ab) { t.ipp(K_TIP, a); w.push_back(mk(ptev_async_branch, false, { ip1, a })); }
		tail(t, w, true);
		check("skd010", true, SKD010, others | (r.chance(50) ? APL12 : 0) | (r.chance(50) ? APL11 : 0), t, w, eos, no_ovf_ip); return; }
	case 12: { // SKD010: PSB with tracing enabled
		if (r.chance(60)) skip(true);
		t.psb(true, ip1); ovf(false, ip1); tail(t, w, true);
		Log off = run_events(t.b, others & ~SKD010, false);
		Log on = run_events(t.b, others | SKD010, false);
		M.note += "skd010 psb\n" + t.log + "\nconfigured: " + on.str() + "\n";
		std::vector<Ev> g; for (auto &e : on.ev) if (!e.status) g.push_back(e);
		w.erase(w.begin()); bool eq = g.size() == w.size() && on.rc == eos;
		for (size_t i = 0; eq && i < g.size(); ++i) eq = same(g[i], w[i]);
		if (!eq) M.violation("skd010:workaround", on.str()); else if (!no_ovf_ip(off)) M.violation("skd010:unasked", off.str());
		else M.count("skd010_applied");
		return; }
	default: // not SKD010: tracing is or may be disabled
		switch (r.below(8)) {
		case 0: skip(r.chance(50)); tail(t, w, false); break;
		case 1: t.p(MP(K_TSX, 1, 0)); t.fill(); t.p(MP(K_TSX, 0, 0)); if (r.chance(50)) skip(false); t.ipp(K_FUP, ip1); break;
		case 2: skip(r.chance(50)); t.p(MP(K_TNT8, 1, 1)); t.ipp(K_TIP, ip1); break;
		case 3: skip(r.chance(50)); t.p(MP(K_STOP)); tail(t, w, false); break;
		case 4: skip(r.chance(50)); t.psb(false, 0); tail(t, w, false); break;
		case 5: skip(r.chance(50)); break;
		case 6: t.ipp(K_FUP, ip1); tail(t, w, true); break;
		case 7: skip(r.chance(50)); t.p(MP(K_OVF)); t.ip.last = 0; tail(t, w, false); break;
		}
		check("skd010", false, SKD010, others, t, {}, 0, nullptr);
	}
}

static void ev_bdm70(Rng &r)
{
	Tr t(r); std::vector<Ev> w; uint64_t ip0 = t.addr(), ip1 = t.addr();
	bool mid = r.chance(30);	// not the first header
	if (mid) { t.psb(false, 0); t.fill(); }
	t.psb(true, ip0); int n = (int) r.below(5); bool applies = r.chance(60); std::vector<Ev> sk; bool mode = false;
	while (n--) { MP m; switch (r.below(5)) { case 0: m = MP(K_PIP, r.wide(52) & ~31ull, 0); break; case 1: m = MP(K_VMCS, r.wide(52) & ~4095ull); break; case 2: m = MP(K_MNT, r.next()); break; case 3: m = MP(K_CBR, 1 + r.below(200)); break;
		case 4: m = MP(K_EXEC, 1, 0, 0); if (mode) m = MP(K_PAD); else mode = true; break; }
		if (mode && m.k == K_PIP) continue;
		t.p(m); if (m.k == K_PIP || m.k == K_VMCS || m.k == K_MNT || m.k == K_CBR) sk.push_back(ev_of(m)); t.fill(); }
	uint32_t others = (uint32_t) r.next() & (ALL & ~BDM70 & ~SKL168);
	Ev st = mk(ptev_disabled, true); st.status = true; w.push_back(st);
	if (applies) {
		// TIP.PGE follows, so that tracing was not enabled
		uint64_t a = r.chance(60) ? ip0 : ip1; t.ipp(K_PGE, a);
		Log on = run_events(t.b, others | BDM70, false), off = run_events(t.b, others, false);
		M.note += strf("bdm70 others=%x\n", others) + t.log + "\nconfigured: " + on.str() + "\nnot: " + off.str() + "\n";
		std::vector<Ev> g; for (auto &e : strip(on.ev)) if (e.type != ptev_exec_mode) g.push_back(e);
		bool eq = on.rc == -pte_eos && !g.empty() && same(g[0], st); size_t j = 1;
		for (auto &e : sk) { if (eq) eq = j < g.size() && same(g[j], e); ++j; }
		if (eq) eq = j + 1 == g.size() && same(g[j], mk(ptev_enabled, false, { a }));
		if (!eq) M.violation("bdm70:workaround", on.str());
		bool en = off.rc == -pte_bad_status_update; for (auto &e : off.ev) if (e.type == ptev_enabled && e.status && e.f.size() == 1 && e.f[0] == ip0) en = true;
		if (!en && !mid) M.violation("bdm70:unasked", off.str());
		if (eq) { M.count("bdm70_applied"); M.nontrivial(hashs(t.log)); }
		return;
	}
	if (mid) { M.count("bdm70_skipped"); return; }
	switch (r.below(7)) {
	case 0: tail(t, w, true); break; case 1: t.ipp(K_TIP, ip1); break; case 2: t.ipp(K_PGD, ip1); t.ipp(K_PGE, ip0); break; case 3: break;
	case 4: t.ipp(K_FUP, ip0); t.ipp(K_TIP, ip1); break; case 5: t.p(MP(K_PTW, 1, 0, r.next())); t.ipp(K_PGE, ip0); break; case 6: t.p(MP(K_OVF)); t.ip.last = 0; t.ipp(K_PGE, ip0); break;
	}
	check("bdm70", false, BDM70, others, t, {}, 0, nullptr);
}

// Well-formed traces are not affected by any workaround.
static void ev_healthy(Rng &r)
{
	EvGen g(r, false); g.cyc = false; g.generate((int) r.range(1, 30)); uint32_t e = (uint32_t) r.next() & ALL & ~SKL168;
	// A PSB+ that is cut by an OVF tells nothing about tracing being enabled: the look-ahead workarounds may guess.
	bool hdr = false;
	for (size_t at = 0; at < g.out.size();) {
		MD m = mdecode(&g.out[at], g.out.size() - at); if (m.fail) break; at += (size_t) m.size;
		if (m.p.k == K_PSB) hdr = true; else if (m.p.k == K_PSBEND) hdr = false;
		else if (m.p.k == K_OVF && hdr) { hdr = false; e &= ~(uint32_t) (APL12 | SKD010); }
	}
	Log l = run_events(g.out, e, false);
	M.note = strf("errata %x\n", e) + g.log + "\n" + l.str();
	if (l.rc != -pte_eos || l.ev.size() != g.ev.size()) {
		Log o = run_events(g.out, 0, false);
		if (o.ev.size() == g.ev.size()) M.violation("healthy:events", strf("%zu events instead of %zu, %d", l.ev.size(), g.ev.size(), l.rc));
		return;
	}
	for (size_t i = 0; i < l.ev.size(); ++i) if (!l.ev[i].same(g.ev[i])) { M.violation("healthy:event", l.ev[i].str() + " instead of " + g.ev[i].str()); return; }
	M.count("healthy_events", l.ev.size()); M.nontrivial(hashs(g.log) ^ e);
}

// ---------------------------------------------------------------- packet level
static void packets(Rng &r)
{
	bool tma = r.chance(50); Bytes b; MP pre(K_TSC, r.wide(56)); mencode(MP(K_PSB), b); size_t at = b.size();
	uint32_t bit = tma ? SKZ84 : SKD007; bool on = r.chance(60); uint32_t e = ((uint32_t) r.next() & ALL & ~bit) | (on ? bit : 0);
	std::vector<std::pair<int, int>> want; int wantrc = -pte_eos;	// type and size; OVF after skd007 is one byte late
	want.push_back({ ppt_psb, 16 });
	if (tma) {
		unsigned ctc = (unsigned) r.below(65536), fc = (unsigned) r.below(512); unsigned res = r.chance(60) ? 1 + (unsigned) r.below(255) : 0, hi = r.chance(60) ? 1 + (unsigned) r.below(127) : 0;
		put(b, 0x7302, 2); put(b, ctc, 2); put(b, res, 1); put(b, fc | hi << 9, 2); bool badp = res || hi, cut = false;
		int after = (int) r.below(3);
		if (badp && after) { put(b, r.next(), 1); if (after == 2) mencode(MP(K_MNT, r.next()), b); }
		else if (!badp) { mencode(MP(K_MNT, r.next()), b); }
		else cut = true;
		if (!badp) { want.push_back({ ppt_tma, 7 }); want.push_back({ ppt_mnt, 11 }); }
		else if (!on) wantrc = -pte_bad_packet;
		else if (cut) wantrc = -pte_eos;
		else { want.push_back({ ppt_invalid, 8 }); if (after == 2) want.push_back({ ppt_mnt, 11 }); }
		M.count(badp ? on ? "skz84_applied" : "skz84_off" : "skz84_healthy");
	} else {
		// the first byte of a multi-byte CYC, then OVF
		int kind = (int) r.below(5); uint8_t lo = (uint8_t) (r.below(32) << 3 | 3);
		switch (kind) {
		case 0: case 1: b.push_back(lo | 4); b.push_back(0x02); b.push_back(0xf3); mencode(MP(K_MNT, r.next()), b);
			if (on) { want.push_back({ ppt_ovf, 2 }); want.push_back({ ppt_mnt, 11 }); M.count("skd007_applied"); }
			else { want.push_back({ ppt_cyc, 2 }); want.push_back({ -1, 0 }); M.count("skd007_off"); }
			break;
		case 2: { // a different second byte
			uint8_t x = (uint8_t) (r.below(128) << 1); if (x == 2) x = 4; if (x == 0) x = 6;
			b.push_back(lo | 4); b.push_back(x); b.push_back(0xf3); b.push_back(0x02 << 1); mencode(MP(K_MNT, r.next()), b);
			want.push_back({ ppt_cyc, 2 }); want.push_back({ ppt_cyc, 1 }); 
			// f3: a one byte CYC of 30; 04: a TNT of one bit
			want.push_back({ ppt_tnt_8, 1 }); want.push_back({ ppt_mnt, 11 }); M.count("skd007_healthy"); break; }
		case 3: // more bytes of CYC
			b.push_back(lo | 4); b.push_back(0x03); b.push_back(0xf2 & 0xfe); mencode(MP(K_MNT, r.next()), b); want.push_back({ ppt_cyc, 3 }); want.push_back({ ppt_mnt, 11 }); M.count("skd007_healthy"); break;
		case 4: // another packet, or the end, follows
			b.push_back(lo | 4); b.push_back(0x02); want.push_back({ ppt_cyc, 2 }); if (r.chance(50)) { b.push_back(0x04); want.push_back({ ppt_tnt_8, 1 }); if (r.chance(50)) { put(b, 0xf302, 2); want.push_back({ ppt_ovf, 2 }); } } M.count("skd007_healthy"); break;
		}
	}
	GuardBuf buf(b.data(), b.size(), true); struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end(); set_errata(c.errata, e);
	struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c); int rc = pt_pkt_sync_forward(d); std::string log = strf("errata %x %s: ", e, hexs(b.data() + at, b.size() - at).c_str()); M.note = log;
	if (rc < 0) { M.violation("packet:sync", strf("%d", rc)); pt_pkt_free_decoder(d); return; }
	bool stop = false;
	for (size_t i = 0;; ++i) {
		struct pt_packet p; memset(&p, 0, sizeof p); rc = pt_pkt_next(d, &p, sizeof p);
		if (i < want.size() && want[i].first < 0) { stop = true; if (rc >= 0 && p.type == ppt_ovf) M.violation("packet:unasked", log + "OVF"); break; }
		if (rc < 0) { if (i != want.size() || rc != wantrc) M.violation("packet:error", log + strf("%d after %zu of %zu packets, not %d", rc, i, want.size(), wantrc)); break; }
		if (i >= want.size() || (int) p.type != want[i].first || rc != want[i].second || p.size != rc) { M.violation("packet:packet", log + strf("type %d size %d for packet %zu", p.type, rc, i)); break; }
		M.count("packets_compared");
	}
	(void) stop; M.nontrivial(hashs(log)); pt_pkt_free_decoder(d);
}

// ---------------------------------------------------------------- SKZ84 in events
static void ev_skz84(Rng &r)
{
	Tr t(r); uint64_t ip0 = t.addr(); bool inpsb = r.chance(50); uint64_t id = r.next(); std::vector<Ev> w;
	auto bad = [&] { if (r.chance(70)) t.p(MP(K_TSC, r.wide(56))); put(t.b, 0x7302, 2); put(t.b, r.next(), 2); put(t.b, 1 + r.below(255), 1); put(t.b, r.next(), 2); put(t.b, r.next(), 1); t.log += "bad-tma "; };
	t.p(MP(K_PSB)); if (inpsb) bad(); t.ipp(K_FUP, ip0); t.p(MP(K_PSBEND)); if (!inpsb) bad(); t.p(MP(K_MNT, id));
	Ev st = mk(ptev_enabled, false, { ip0 }); st.status = true; w.push_back(st); w.push_back(mk(ptev_mnt, false, { id })); tail(t, w, true);
	check("skz84ev", true, SKZ84, (uint32_t) r.next() & (BDM64 | SKD022 | SKL014 | BDM70 | APL11 | APL12), t, w, -pte_eos, [](const Log &l) { return l.rc == -pte_bad_packet; });
}

// ---------------------------------------------------------------- SKL168
static void time_skl168(Rng &r)
{
	// A steady clock: one MTC period takes P ticks and C cycles.
	struct pt_config c; pt_config_init(&c); c.mtc_freq = (uint8_t) r.range(3, 9);
	// ticks per CTC: ebx/eax
	uint32_t eax = 2, ebx = (uint32_t) (2 * r.range(40, 120)); c.cpuid_0x15_eax = eax; c.cpuid_0x15_ebx = ebx;
	uint64_t P = ((uint64_t) ebx << c.mtc_freq) / eax; double ratio = 0.5 + (double) r.below(150) / 100.0; uint64_t C = (uint64_t) ((double) P * ratio);
	int lose = (int) r.below(5);	// 0: nothing  1: CYC and MTC lost  2: a wrap CYC (4096) lost   3: CYC and MTC lost, second header later  4: MTC lost while the frequency doubles, not next to a header
	if (lose == 2 && C < 4400) lose = 1;
	if (lose == 2) { C = (uint64_t) r.range(4400, 7000); while (P * 4 < C || P > C * 4) C = P; if (C < 4400) lose = 1; }
	Bytes b; uint64_t ctc = r.below(256), T = r.wide(40) + 1000; std::string log;
	auto p = [&](const MP &m) { mencode(m, b); log += m.str() + " "; };
	p(MP(K_PSB)); p(MP(K_TSC, T)); p(MP(K_TMA, (ctc << c.mtc_freq) & 0xffff, 0)); p(MP(K_PSBEND));
	auto period = [&](uint64_t cyc) { T += P; ctc = (ctc + 1) & 255; if (cyc) p(MP(K_CYC, cyc)); p(MP(K_MTC, ctc)); };
	int n = (int) r.range(3, 6); while (n--) period(C);
	p(MP(K_PSB)); p(MP(K_PSBEND));
	std::string what;
	switch (lose) {
	case 0: period(C); break;
	case 4: period(C); T += P; ctc = (ctc + 1) & 255; C *= 2; period(2 * C); break;
	case 3: period(C); p(MP(K_PSB)); p(MP(K_PSBEND)); goto lost;
	case 1: lost: T += P; ctc = (ctc + 1) & 255; period(C); break;	// one period's CYC and MTC are missing
	case 2: T += P; ctc = (ctc + 1) & 255; p(MP(K_CYC, C - 4096)); p(MP(K_MTC, ctc)); break;
	}
	// half a period later
	uint64_t d = C / 2; p(MP(K_CYC, d)); p(MP(K_MNT, 1)); uint64_t Tm = T + (uint64_t) ((double) d * (double) P / (double) C);
	GuardBuf buf(b.data(), b.size(), true); c.begin = buf.begin; c.end = buf.end();
	double err[2]; uint64_t base = T;
	for (int on = 0; on < 2; ++on) {
		c.errata.skl168 = (uint32_t) on; struct pt_event_decoder *dec = pt_evt_alloc_decoder(&c); int rc = pt_evt_sync_forward(dec); uint64_t got = 0; bool have = false;
		while (rc >= 0) { struct pt_event e; rc = pt_evt_next(dec, &e, sizeof e); if (rc >= 0 && e.type == ptev_mnt) { have = e.has_tsc; got = e.tsc; } }
		pt_evt_free_decoder(dec);
		if (rc != -pte_eos || !have) { M.note = log; M.violation("skl168:decode", strf("%d, time %d", rc, have)); return; }
		err[on] = ((double) got - (double) base) / (double) (Tm - base);
	}
	M.note = strf("skl168 lose=%d P=%llu C=%llu: %f without, %f with the workaround\n", lose, (unsigned long long) P, (unsigned long long) C, err[0], err[1]) + log;
	double distort = lose == 1 || lose == 3 ? 2.0 : lose == 2 ? (double) C / (double) (C - 4096) : 1.0;
	if (err[1] < 0.97 || err[1] > 1.03) M.violation("skl168:workaround", strf("the time since the last MTC is off by %f although the workaround is configured", err[1]));
	else if (err[0] < distort * 0.97 || err[0] > distort * 1.03) M.violation("skl168:unasked", strf("off by %f instead of %f without the workaround", err[0], distort));
	else { M.count(lose ? "skl168_applied" : "skl168_healthy"); M.nontrivial(hashs(log)); }
}

// ---------------------------------------------------------------- flow level
struct Code {
	std::map<uint64_t, uint8_t> mem;
	static int read(uint8_t *buf, size_t size, const struct pt_asid *, uint64_t ip, void *ctx)
	{
		Code *c = (Code *) ctx; size_t n = 0;
		for (; n < size; ++n) { auto i = c->mem.find(ip + n); if (i == c->mem.end()) break; buf[n] = i->second; }
		return n ? (int) n : -pte_nomap;
	}
	void put(uint64_t at, const Bytes &b) { for (size_t i = 0; i < b.size(); ++i) mem[at + i] = b[i]; }
	bool free(uint64_t at, uint64_t n) { auto i = mem.lower_bound(at > 32 ? at - 32 : 0); return i == mem.end() || i->first >= at + n + 32; }
	std::map<uint64_t, uint64_t> next;	// instruction sizes by IP, for expanding blocks
};
struct Item { int kind; Ev e; uint64_t ip; std::string str() const { return kind ? e.str() : strf("%llx", (unsigned long long) ip); } };
struct Flow { std::vector<Item> it; int rc = 0; std::string str() const { std::string s; for (auto &i : it) s += i.str() + "; "; return s + strf("-> %d", rc); } };
static Flow run_flow(const Bytes &b, struct pt_config c, Code &code, bool blk, uint32_t eocj, const std::vector<uint64_t> &path)
{
	Flow f; GuardBuf buf(b.data(), b.size(), true); c.begin = buf.begin; c.end = buf.end();
	struct pt_image *img = pt_image_alloc("c27"); pt_image_set_callback(img, Code::read, &code);
	auto ev = [&](const struct pt_event &e) { Item i; i.kind = 1; i.e = ev_canon(e); i.ip = 0; if (!(i.e.status && i.e.type != ptev_enabled)) f.it.push_back(i); };
	if (!blk) {
		struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c); pt_insn_set_image(d, img); int rc = pt_insn_sync_forward(d);
		for (int n = 0; rc >= 0 && n < 4000; ++n) {
			while (rc >= 0 && (rc & pts_event_pending)) { struct pt_event e; memset(&e, 0, sizeof e); rc = pt_insn_event(d, &e, sizeof e); if (rc >= 0) ev(e); }
			if (rc < 0 || (rc & pts_eos)) break;
			struct pt_insn in; rc = pt_insn_next(d, &in, sizeof in);
			if (rc >= 0 || in.iclass != ptic_unknown) { if (rc >= 0) f.it.push_back({ 0, Ev(), in.ip }); }
		}
		f.rc = rc; pt_insn_free_decoder(d);
	} else {
		c.flags.variant.block.end_on_call = eocj & 1; c.flags.variant.block.end_on_jump = eocj >> 1 & 1;
		struct pt_block_decoder *d = pt_blk_alloc_decoder(&c); pt_blk_set_image(d, img); int rc = pt_blk_sync_forward(d);
		for (int n = 0; rc >= 0 && n < 4000; ++n) {
			while (rc >= 0 && (rc & pts_event_pending)) { struct pt_event e; memset(&e, 0, sizeof e); rc = pt_blk_event(d, &e, sizeof e); if (rc >= 0) ev(e); }
			if (rc < 0 || (rc & pts_eos)) break;
			struct pt_block bl; memset(&bl, 0, sizeof bl); rc = pt_blk_next(d, &bl, sizeof bl);
			// the instructions of the block: the path, from the block's start
			size_t k = 0; for (auto &i : f.it) if (!i.kind) ++k;
			uint64_t ip = bl.ip;
			for (unsigned i = 0; i < bl.ninsn; ++i, ++k) { f.it.push_back({ 0, Ev(), ip }); if (i + 1 == bl.ninsn && ip != bl.end_ip) { Item x; x.kind = 0; x.ip = bl.end_ip | 1ull << 63; f.it.push_back(x); } if (k + 1 < path.size()) ip = path[k + 1]; }
		}
		f.rc = rc; pt_blk_free_decoder(d);
	}
	pt_image_free(img);
	return f;
}
static bool flow_eq(const std::vector<Item> &a, const std::vector<Item> &b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (a[i].kind != b[i].kind || (a[i].kind ? !same(a[i].e, b[i].e) : a[i].ip != b[i].ip)) return false;
	return true;
}
static std::string items(const std::vector<Item> &v) { std::string s; for (auto &i : v) s += i.str() + "; "; return s; }

struct FlowCase {
	Rng &r; Code code; Tr t; std::vector<Item> want; std::vector<uint64_t> path; struct pt_config c;
	uint64_t region;
	explicit FlowCase(Rng &x) : r(x), t(x) { pt_config_init(&c); region = IpEnc::canon(r.wide(47)) & ~0xfffffffull; if (!region) region = 0x10000000; t.timing = false; }
	uint64_t place(uint64_t n) { for (;;) { uint64_t a = region + 0x1000 + r.below(r.chance(50) ? 0x2000 : 0x8000000); bool ok = code.free(a, n); for (auto &x : used) if (a < x.first + x.second + 16 && x.first < a + n + 16) ok = false; if (ok) { used.push_back({ a, n }); return a; } } }
	std::vector<std::pair<uint64_t, uint64_t>> used;
	void insn(uint64_t ip) { want.push_back({ 0, Ev(), ip }); path.push_back(ip); }
	void event(Ev e) { want.push_back({ 1, e, 0 }); }
	// straight-line code at @a; returns the end
	uint64_t line(uint64_t a, int n, bool run = true)
	{
		while (n--) { static const Bytes k[] = { { 0x90 }, { 0x48, 0x89, 0xc0 }, { 0x0f, 0x1f, 0x40, 0x00 }, { 0xb8, 1, 2, 3, 4 }, { 0x48, 0x01, 0xd8 } }; const Bytes &b = k[r.below(5)]; code.put(a, b); if (run) insn(a); a += b.size(); }
		return a;
	}
	void rel(uint64_t at, uint8_t op, uint64_t to) { Bytes b; b.push_back(op); ::put(b, to - (at + 5), 4); code.put(at, b); }
	void enter(uint64_t ip) { t.p(MP(K_PSB)); t.p(MP(K_EXEC, 1, 0, 0)); t.ipp(K_FUP, ip); t.p(MP(K_PSBEND)); Ev e = mk(ptev_enabled, false, { ip }); e.status = true; event(e); }
	void reenter() { uint64_t a = place(32); line(a, 1, false); t.ipp(K_PGE, a); event(mk(ptev_enabled, false, { a })); t.ipp(K_FUP, a); uint64_t to = place(8); t.ipp(K_PGD, to); event(mk(ptev_async_disabled, false, { a, to })); }
	void run(const char *name, const char *counter)
	{
		for (int blk = 0; blk < 2; ++blk) {
			Flow f = run_flow(t.b, c, code, blk, (uint32_t) r.below(4), path);
			M.note += strf("%s %s\n", blk ? "blocks" : "insns", name) + t.log + "\nwant " + items(want) + "\ngot " + f.str() + "\n";
			if (!flow_eq(f.it, want) || (f.rc < 0 && f.rc != -pte_eos)) { M.violation(strf("%s:%s", name, blk ? "blocks" : "insns"), f.str() + " instead of " + items(want)); return; }
		}
		M.count(counter); M.nontrivial(hashs(M.note));
	}
};

static bool passes(const std::vector<int> &cfg, const std::vector<uint64_t> &ab, uint64_t a)
{
	bool any = false, in = false;
	for (size_t i = 0; i < 4; ++i) {
		bool hit = ab[2 * i] <= a && a <= ab[2 * i + 1];
		if (cfg[i] == 2 && hit) return false;
		if (cfg[i] == 1) { any = true; in = in || hit; }
	}
	return !any || in;
}

static void flow_skl014(Rng &r)
{
	FlowCase f(r); int n = (int) r.range(2, 9), firstfree = 0; std::vector<uint64_t> at; uint64_t sz = 0;
	for (int i = 0; i <= n; ++i) { uint64_t a = f.place(64); at.push_back(a); f.code.put(a, Bytes(64, 0xcc)); }
	(void) sz;
	// ranges around the blocks
	std::vector<int> cfg; std::vector<uint64_t> ab;
	for (int i = 0; i < 4; ++i) {
		int k = r.chance(45) ? 1 : r.chance(50) ? 2 : 0; if (i && r.chance(40)) k = 0;
		uint64_t lo, hi; uint64_t x = at[r.below(at.size())], y = at[r.below(at.size())]; if (x > y) std::swap(x, y);
		switch (r.below(5)) {
		case 0: lo = x; hi = y; break; case 1: lo = x + 1; hi = y; break; case 2: lo = x; hi = y - 1; break;
		case 3: lo = hi = x; break; default: lo = r.chance(50) ? 0 : x - r.below(64); hi = r.chance(50) ? ~0ull : y + r.below(64); break;
		}
		if (r.chance(4)) std::swap(lo, hi);
		cfg.push_back(k); ab.push_back(lo); ab.push_back(hi);
	}
	bool err = r.chance(80);
	f.c.addr_filter.config.addr_cfg = (uint64_t) (cfg[0] | cfg[1] << 4 | cfg[2] << 8 | cfg[3] << 12);
	uint64_t *q = &f.c.addr_filter.addr0_a; for (size_t i = 0; i < 8; ++i) q[i] = ab[i];
	set_errata(f.c.errata, ((uint32_t) r.next() & ALL & ~SKL014) | (err ? SKL014 : 0));
	f.enter(at[0]);
	// a few conditional branches before the event becomes known
	firstfree = (int) r.below((uint64_t) n); bool usetnt = r.chance(60) && firstfree > 0; int lasttnt = -1; std::vector<std::pair<int, int>> tnt;
	bool done = false; int bound = -1;
	// which blocks end in conditional branches
	std::vector<int> cond((size_t) n + 1, 0);
	if (usetnt) for (int i = 0; i < firstfree; ++i) if (r.chance(50)) { cond[(size_t) i] = r.chance(60) ? 2 : 1; lasttnt = i; }
	uint64_t bits = 0, nb = 0;
	for (int i = 0; i < n && !done; ++i) {
		uint64_t a = f.line(at[(size_t) i], (int) r.below(4)), to = at[(size_t) i + 1];
		if (cond[(size_t) i]) {
			bool taken = cond[(size_t) i] == 2; Bytes b = { 0x0f, 0x84 }; ::put(b, (taken ? to : at[r.below(at.size())]) - (a + 6), 4); f.code.put(a, b); f.insn(a); bits = bits << 1 | taken; ++nb;
			if (taken) continue;
			a = f.line(a + 6, (int) r.below(3));
		}
		f.rel(a, r.chance(60) ? 0xe9 : 0xe8, to); f.insn(a);
		if (i >= lasttnt && err && f.c.addr_filter.config.addr_cfg && !passes(cfg, ab, to)) { done = true; bound = i; }
	}
	if (!done) { uint64_t a = f.line(at[(size_t) n], (int) r.below(4)); f.code.put(a, { 0x0f, 0x22, 0xd8 }); f.insn(a); }
	else { // what follows is not executed
		for (int i = bound + 1; i <= n; ++i) f.line(at[(size_t) i], 3, false); }
	if (nb) f.t.p(MP(nb > 6 ? K_TNT64 : K_TNT8, bits, nb));
	f.t.p(f.t.ip.none(K_PGD)); f.event(mk(ptev_disabled, true)); f.reenter();
	M.note = strf("filter %llx %llx-%llx %llx-%llx %llx-%llx %llx-%llx skl014=%d\n", (unsigned long long) f.c.addr_filter.config.addr_cfg, (unsigned long long) ab[0], (unsigned long long) ab[1], (unsigned long long) ab[2], (unsigned long long) ab[3], (unsigned long long) ab[4], (unsigned long long) ab[5], (unsigned long long) ab[6], (unsigned long long) ab[7], err);
	f.run("skl014", done ? "skl014_applied" : err ? "skl014_cr3" : "skl014_off");
}

static void flow_skd022(Rng &r)
{
	FlowCase f(r); bool err = r.chance(60); set_errata(f.c.errata, ((uint32_t) r.next() & ALL & ~SKD022) | (err ? SKD022 : 0));
	uint64_t a = f.place(128); uint64_t at = a; f.enter(a); a = f.line(a, (int) r.below(5)); int k = (int) r.below(4);
	// VMLAUNCH, VMRESUME, others
	static const Bytes in[] = { { 0x0f, 0x01, 0xc2 }, { 0x0f, 0x01, 0xc3 }, { 0x90 }, { 0x0f, 0x01, 0xc1 } };
	(void) at; f.code.put(a, in[k]); uint64_t to = f.place(8); bool vm = k < 2;
	f.t.ipp(K_FUP, a); bool sup = r.chance(30); if (sup) f.t.p(f.t.ip.none(K_PGD)); else f.t.ipp(K_PGD, to);
	if (err && vm) { f.insn(a); f.event(sup ? mk(ptev_disabled, true) : mk(ptev_disabled, false, { to })); }
	else f.event(sup ? mk(ptev_async_disabled, true, { a }) : mk(ptev_async_disabled, false, { a, to }));
	f.reenter();
	M.note = strf("skd022=%d insn %d\n", err, k);
	f.run("skd022", err && vm ? "skd022_applied" : err ? "skd022_healthy" : "skd022_off");
}

static void flow_bdm64(Rng &r)
{
	FlowCase f(r); bool err = r.chance(70); set_errata(f.c.errata, ((uint32_t) r.next() & ALL & ~BDM64) | (err ? BDM64 : 0));
	uint64_t a = f.place(128), h = f.place(32), wrong = f.place(64), x = f.place(64); bool abrt = r.chance(80), reach = r.chance(40), cond = r.chance(40);
	f.enter(a); a = f.line(a, (int) r.below(4));
	f.line(x, 2, false); f.line(h, 2, false);
	// a branch to @wrong; the abort happened at @x
	if (cond) { Bytes b = { 0x0f, 0x84 }; ::put(b, wrong - (a + 6), 4); f.code.put(a, b); f.t.p(MP(K_TNT8, 1, 1)); }
	else { f.code.put(a, { 0xff, 0xe0 }); f.t.ipp(K_TIP, wrong); }
	f.insn(a);
	int kind = (int) r.below(3);
	uint64_t w = wrong;
	if (reach) { w = f.line(w, (int) r.below(6)); if (r.chance(40) && w != wrong) { f.rel(w, 0xe9, x); f.insn(w); w = x; } x = w; f.line(w, 1, false); }
	else if (kind == 0) { /* not mapped */ }
	else if (kind == 1) { w = f.line(w, (int) r.below(4), false); f.code.put(w, { 0xff, 0xe3 }); }
	else { w = f.line(w, (int) r.below(4), false); f.code.put(w, { 0xc3 }); }
	// The abort, to the handler
	f.t.p(MP(K_TSX, abrt ? 0 : r.below(2), abrt)); uint64_t in = f.t.b[f.t.b.size() - 1] & 1; f.t.ipp(K_FUP, x);
	bool applies = err && abrt && !reach;
	if (!applies && !reach) {
		// cannot be decoded: no event at @x
		for (int blk = 0; blk < 2; ++blk) {
			Flow g = run_flow(f.t.b, f.c, f.code, blk, 0, f.path);
			M.note += strf("bdm64=%d abort=%d blk=%d %s\n", err, abrt, blk, g.str().c_str()) + f.t.log;
			for (auto &i : g.it) if (i.kind && i.e.type == ptev_tsx) { M.violation("bdm64:unasked", g.str()); return; }
		}
		M.count("bdm64_off"); return;
	}
	f.event(mk(ptev_tsx, false, { in, (uint64_t) abrt, x }));
	if (abrt) { f.t.ipp(K_TIP, h); f.event(mk(ptev_async_branch, false, { x, h })); f.t.ipp(K_FUP, h); uint64_t to = f.place(8); f.t.ipp(K_PGD, to); f.event(mk(ptev_async_disabled, false, { h, to })); }
	else { f.t.ipp(K_FUP, x); uint64_t to = f.place(8); f.t.ipp(K_PGD, to); f.event(mk(ptev_async_disabled, false, { x, to })); }
	f.reenter();
	M.note = strf("bdm64=%d abort=%d reach=%d cond=%d kind=%d\n", err, abrt, reach, cond, kind);
	f.run("bdm64", applies ? "bdm64_applied" : "bdm64_healthy");
}

// ---------------------------------------------------------------- processors given as text
extern "C" int pt_cpu_parse(struct pt_cpu *cpu, const char *s);
static std::string number(Rng &r, uint64_t v)
{
	switch (r.below(4)) { case 0: return strf("0x%llx", (unsigned long long) v); case 1: return strf("0%llo", (unsigned long long) v); case 2: return strf("0X%llX", (unsigned long long) v); default: return strf("%llu", (unsigned long long) v); }
}
static void text(Rng &r)
{
	uint64_t v[3] = { r.chance(50) ? 6 : r.wide(16), r.wide(8), r.wide(8) };
	bool step = r.chance(70), good = r.chance(60);
	std::vector<std::string> part; const char *why = "good";
	if (!step) v[2] = 0;
	for (int i = 0; i < 2 + step; ++i) part.push_back(number(r, v[i]));
	std::string tail;
	if (!good) {
		size_t i = r.below(part.size());
		switch (r.below(8)) {
		case 0: { uint64_t max = i ? 256 : 65536; part[i] = number(r, max + (r.chance(50) ? 0 : r.wide(62))); why = "big"; break; }
		case 1: part[i] = "-" + number(r, 1 + r.wide(62)); why = "negative"; break;
		case 2: part[i] = ""; why = "empty"; break;
		case 3: { static const char *const j[] = { "g", "x", "none", "?", "0b1" }; part[i] = j[r.below(4)]; why = "word"; break; }
		case 4: part.resize(1); why = "missing"; break;
		case 5: part.resize(2); part.push_back(number(r, r.wide(8))); tail = "/" + (r.chance(50) ? "" : number(r, r.wide(8))); why = "many"; break;
		case 6: part[i] += r.chance(50) ? "z" : ","; why = "junk"; break;
		case 7: tail = "/"; if (r.chance(50)) part.resize(2); why = "trailing"; break;
		}
	}
	std::string t; for (size_t i = 0; i < part.size(); ++i) t += (i ? "/" : "") + part[i];
	t += tail;
	GuardBuf buf((const uint8_t *) t.c_str(), t.size() + 1, true);
	struct pt_cpu c; memset(&c, 0xa5, sizeof c);
	int rc = pt_cpu_parse(&c, (const char *) buf.begin);
	M.note = strf("\"%s\" (%s): %d\n", t.c_str(), why, rc); M.count(good ? "text_good" : "text_refused");
	M.nontrivial(hashs(t));
	if (good ? rc != 0 : rc != -pte_invalid) { M.violation(std::string("text:status:") + why, M.note); return; }
	if (good && (c.vendor != pcv_intel || c.family != v[0] || c.model != v[1] || c.stepping != v[2])) M.violation("text:value", M.note + strf("read as %d %x/%x/%x", c.vendor, c.family, c.model, c.stepping));
}

void run_case(Rng &r)
{
	M.note.clear();
	switch (r.below(15)) {
	case 14: text(r); break;
	case 0: table(r); break;
	case 1: case 2: case 3: ev_ovf(r); break;
	case 4: ev_bdm70(r); break;
	case 5: ev_healthy(r); break;
	case 6: packets(r); break;
	case 7: ev_skz84(r); break;
	case 8: time_skl168(r); break;
	case 9: case 10: case 11: flow_skl014(r); break;
	case 12: flow_skd022(r); break;
	case 13: flow_bdm64(r); break;
	}
}
