// Hostile inputs and a uniform driver over the five decoders: arbitrary and mutated
// traces, arbitrary code images, arbitrary configurations; everything a decoder reports
// is turned into canonical transcript lines.
#pragma once
#include "progsim.hpp"

#if defined(VG)
# include <valgrind/memcheck.h>
# define VGCHECK(p, n) VALGRIND_CHECK_MEM_IS_DEFINED(p, n)
#else
# define VGCHECK(p, n) 0
#endif

// ------------------------------------------------------------------ traces
inline void mutate(Rng &r, Bytes &b, unsigned n)
{
	static const uint8_t ops[] = { 0x02, 0x82, 0x99, 0x19, 0x59, 0xd9, 0x0d, 0x2d, 0x4d, 0x6d, 0x8d, 0xcd, 0x11, 0x31, 0x51, 0x71, 0xd1,
		0x01, 0x21, 0x41, 0x61, 0x1d, 0x3d, 0x5d, 0x7d, 0xdd, 0x03, 0x07, 0xff, 0x00, 0x23, 0xf3, 0x83, 0xa3, 0x43, 0xc8, 0x73, 0x13, 0x53, 0x62,
		0xe2, 0xc2, 0x22, 0xa2, 0x12, 0x32, 0x92, 0xb2, 0xc3, 0x04, 0x06, 0xfe };
	while (n--) {
		if (b.empty()) { b.push_back((uint8_t) r.next()); continue; }
		size_t i = r.below(b.size()), m = std::min<size_t>(b.size() - i, r.range(1, r.chance(20) ? 64 : 9));
		switch (r.below(11)) {
		case 0: b[i] ^= (uint8_t) (1u << r.below(8)); break;
		case 1: b[i] = (uint8_t) r.next(); break;
		case 2: b[i] = ops[r.below(sizeof ops)]; break;
		case 3: b.erase(b.begin() + (long) i, b.begin() + (long) (i + m)); break;
		case 4: { Bytes c(b.begin() + (long) i, b.begin() + (long) (i + m)); size_t j = r.below(b.size() + 1); b.insert(b.begin() + (long) j, c.begin(), c.end()); break; }
		case 5: { Bytes c(m); for (auto &x : c) x = (uint8_t) r.next(); b.insert(b.begin() + (long) i, c.begin(), c.end()); break; }
		case 6: for (size_t k = 0; k < m; ++k) b[i + k] = 0xff; break;
		case 7: { Bytes c; MP p = gen_packet(r); mencode(p, c); b.insert(b.begin() + (long) i, c.begin(), c.end()); break; }
		case 8: { Bytes c; mencode(gen_packet(r), c); for (size_t k = 0; k < c.size() && i + k < b.size(); ++k) b[i + k] = c[k]; break; }
		case 9: if (r.chance(20)) b.resize(i); break;
		case 10: { Bytes c; mencode(MP(K_PSB), c); b.insert(b.begin() + (long) i, c.begin(), c.end()); break; }
		}
		if (b.size() > 20000) b.resize(20000);
	}
}

// A packet soup around given addresses: syntactically valid, semantically arbitrary.
inline Bytes soup(Rng &r, const std::vector<uint64_t> &ips, int n, std::vector<size_t> *psb = nullptr, bool sane = false)
{
	Bytes b; IpEnc e; bool en = false;
	auto ip = [&]() -> uint64_t { return ips.empty() || r.chance(3) ? r.wide(64) : ips[r.below(ips.size())]; };
	auto emit = [&](const MP &p) { mencode(p, b); };
	auto psbp = [&]() {
		if (psb) psb->push_back(b.size());
		emit(MP(K_PSB)); e.last = 0;
		int k = (int) r.below(5);
		while (k--) { static const int ks[] = { K_TSC, K_TMA, K_CBR, K_MTC, K_CYC, K_PIP, K_VMCS, K_TSX, K_MNT, K_PAD, K_OVF }; emit(gen_packet(r, ks[r.below(sane ? 10 : 11)])); }
		if (r.chance(80)) emit(r.chance(80) ? MP(K_EXEC, 1, 0, r.below(2)) : gen_packet(r, K_EXEC));
		if (r.chance(85)) { emit(e.enc(r, K_FUP, ip())); en = true; } else en = false;
		if (sane || r.chance(97)) emit(MP(K_PSBEND));
	};
	psbp();
	static const int calm[] = { K_PAD, K_TSC, K_TMA, K_CBR, K_MTC, K_CYC, K_MNT, K_PWRE, K_PWRX };
	unsigned wild = (unsigned) r.below(30);
	for (int i = 0; i < n; ++i) {
		if (r.chance(4)) { psbp(); continue; }
		if (r.chance(15)) { emit(gen_packet(r, calm[r.below(9)])); continue; }
		if (r.chance(wild)) {
			switch (r.below(16)) {
			case 0: emit(MP(K_OVF)); if (r.chance(60)) { emit(e.enc(r, K_FUP, ip())); en = true; } else en = false; break;
			case 1: emit(gen_packet(r, K_EXEC)); emit(e.enc(r, r.chance(50) ? K_TIP : r.chance(50) ? K_PGE : K_FUP, ip())); break;
			case 2: emit(gen_packet(r, K_TSX)); emit(e.enc(r, K_FUP, ip())); if (r.chance(30)) emit(e.enc(r, K_TIP, ip())); break;
			case 3: emit(gen_packet(r, K_PIP)); break;
			case 4: emit(gen_packet(r, K_VMCS)); break;
			case 5: emit(gen_packet(r, K_PTW)); if (r.chance(50)) emit(e.enc(r, K_FUP, ip())); break;
			case 6: emit(gen_packet(r, K_MWAIT)); if (r.chance(60)) emit(gen_packet(r, K_EXSTOP)); if (r.chance(60)) emit(e.enc(r, K_FUP, ip())); break;
			case 7: emit(gen_packet(r, K_EXSTOP)); if (r.chance(60)) emit(e.enc(r, K_FUP, ip())); break;
			case 8: if (r.chance(50)) emit(gen_packet(r, K_EVD)); emit(gen_packet(r, K_CFE)); if (r.chance(70)) emit(e.enc(r, K_FUP, ip())); if (r.chance(50)) emit(e.enc(r, K_TIP, ip())); break;
			case 9: emit(gen_packet(r, K_TRIG)); if (r.chance(50)) emit(e.enc(r, K_FUP, ip())); break;
			case 10: emit(MP(K_STOP)); break;
			default: emit(gen_packet(r)); break;
			}
			continue;
		}
		if (!en) { emit(e.enc(r, K_PGE, ip())); en = true; continue; }
		switch (r.below(10)) {
		case 0: emit(e.enc(r, K_FUP, ip())); emit(r.chance(80) ? e.enc(r, K_TIP, ip()) : IpEnc::none(K_TIP)); break;
		case 1: if (r.chance(40)) emit(e.enc(r, K_FUP, ip())); emit(r.chance(60) ? e.enc(r, K_PGD, ip()) : IpEnc::none(K_PGD)); en = false; break;
		case 2: case 3: case 4: emit(r.chance(95) ? e.enc(r, K_TIP, ip()) : IpEnc::none(K_TIP)); break;
		default: emit(gen_packet(r, r.chance(70) ? K_TNT8 : K_TNT64)); break;
		}
	}
	return b;
}

inline Bytes hostile_trace(Rng &r, std::string &desc)
{
	Bytes b;
	auto one = [&]() {
		Bytes x;
		switch (r.below(8)) {
		case 0: { size_t n = r.below(200); while (x.size() < n) x.push_back((uint8_t) r.next()); desc += "random "; break; }
		case 1: { int n = (int) r.below(40); while (n--) mencode(gen_packet(r), x); desc += "packets "; break; }
		case 2: case 3: { EvGen g(r, r.chance(50)); g.cyc = r.chance(50); g.generate((int) r.range(1, 40)); x = g.out; desc += "scenario "; break; }
		case 4: { ProgSim p(r); p.simple = r.chance(20); p.generate(); x = p.out; if (x.size() > 3000) x.resize(3000); desc += "program "; break; }
		default: { std::vector<uint64_t> ips; for (int i = 0; i < 6; ++i) ips.push_back(IpEnc::canon(r.wide(48))); x = soup(r, ips, (int) r.range(1, 60)); desc += "soup "; break; }
		}
		if (r.chance(70)) { unsigned n = (unsigned) (r.chance(70) ? r.range(1, 4) : r.range(5, 40)); mutate(r, x, n); desc += strf("mutated%u ", n); }
		return x;
	};
	if (r.chance(50)) mencode(MP(K_PSB), b);
	int n = (int) r.range(1, 3);
	while (n--) { Bytes x = one(); b.insert(b.end(), x.begin(), x.end()); }
	if (r.chance(25) && !b.empty()) { b.resize(r.below(b.size() + 1)); desc += "cut "; }
	return b;
}

// ----------------------------------------------------------- configuration
inline int unk_cb(struct pt_packet_unknown *u, const struct pt_config *c, const uint8_t *pos, void *ctx)
{
	unsigned m = (unsigned) (uintptr_t) ctx; size_t left = (size_t) (c->end - pos);
	unsigned h = (unsigned) hash64(pos, std::min<size_t>(left, 3)) + m;
	u->packet = pos;
	switch (h % 5) {
	case 0: return -pte_bad_opc;
	case 1: return -pte_eos;
	default: return (int) std::min<size_t>(left, 1 + h % 7);
	}
}
inline void hostile_config(Rng &r, struct pt_config &c, uint8_t *b, uint8_t *e, int kind)
{
	pt_config_init(&c); c.begin = b; c.end = e;
	if (r.chance(30)) { c.decode.callback = unk_cb; c.decode.context = (void *) (uintptr_t) r.below(1000); }
	if (r.chance(60)) { c.mtc_freq = (uint8_t) (r.chance(80) ? r.below(16) : r.wide(8)); c.nom_freq = (uint8_t) r.wide(8); c.cpuid_0x15_eax = (uint32_t) r.wide(32); c.cpuid_0x15_ebx = (uint32_t) r.wide(32); }
	if (r.chance(50)) { uint8_t *q = (uint8_t *) &c.errata; for (size_t i = 0; i < sizeof c.errata; ++i) q[i] = (uint8_t) (r.next() & r.next()); }
	if (r.chance(30)) { c.cpu.vendor = (enum pt_cpu_vendor) r.below(2); c.cpu.family = r.chance(80) ? 6 : (uint16_t) r.wide(16); c.cpu.model = (uint8_t) r.next(); c.cpu.stepping = (uint8_t) r.below(16); }
	if (r.chance(60)) c.flags.variant.reserved[0] = (uint32_t) r.next() & (kind == 4 ? 0x1f : 7);
	if (r.chance(30)) { uint64_t *q = (uint64_t *) &c.addr_filter; size_t n = sizeof c.addr_filter / 8; for (size_t i = 0; i < n; ++i) q[i] = r.wide(64); c.addr_filter.config.addr_cfg = r.next() & 0x3333; }
}
inline std::string cfg_str(const struct pt_config &c)
{
	std::string s = strf("config: size=%zu cb=%d cpu=%d/%x/%x/%x eax=%u ebx=%u mtc=%u nom=%u flags=%x errata=", c.size, c.decode.callback ? (int) (uintptr_t) c.decode.context : -1,
		c.cpu.vendor, c.cpu.family, c.cpu.model, c.cpu.stepping, c.cpuid_0x15_eax, c.cpuid_0x15_ebx, c.mtc_freq, c.nom_freq, c.flags.variant.reserved[0]);
	s += hexs(&c.errata, sizeof c.errata) + " filter=" + hexs(&c.addr_filter, sizeof c.addr_filter) + "\n";
	return s;
}

// ------------------------------------------------------------------ driver
static const char *const deckind[] = { "pkt", "evt", "qry", "insn", "blk" };
struct Dec {
	int kind; const struct pt_config &c; size_t size;
	struct pt_packet_decoder *p = nullptr; struct pt_event_decoder *e = nullptr; struct pt_query_decoder *q = nullptr;
	struct pt_insn_decoder *i = nullptr; struct pt_block_decoder *b = nullptr;
	int status = 0; uint64_t ninsn = 0; int tkind = -1; bool vgbad = false; bool strict = true;
	Dec(int k, const struct pt_config &cfg, struct pt_image *img) : kind(k), c(cfg), size((size_t) (cfg.end - cfg.begin))
	{
		switch (k) {
		case 0: p = pt_pkt_alloc_decoder(&c); break;
		case 1: e = pt_evt_alloc_decoder(&c); break;
		case 2: q = pt_qry_alloc_decoder(&c); break;
		case 3: i = pt_insn_alloc_decoder(&c); if (i && img) pt_insn_set_image(i, img); break;
		case 4: b = pt_blk_alloc_decoder(&c); if (b && img) pt_blk_set_image(b, img); break;
		}
	}
	bool ok() const { return p || e || q || i || b; }
	~Dec() { free_(); }
	void free_() { if (p) pt_pkt_free_decoder(p); if (e) pt_evt_free_decoder(e); if (q) pt_qry_free_decoder(q); if (i) pt_insn_free_decoder(i); if (b) pt_blk_free_decoder(b); p = 0; e = 0; q = 0; i = 0; b = 0; }
	Dec(const Dec &) = delete;
	bool flow() const { return kind >= 3; }
	int chk(const char *fn, int rc)
	{
		// success, status bits, or a documented error code
		bool good = rc >= 0 ? (kind == 0 ? true : !(rc & ~(int) (pts_event_pending | pts_ip_suppressed | pts_eos))) : (rc >= -(int) pte_bad_cpu);
		if (!good) M.violation(strf("return-code:%s:%d", fn, rc), strf("%s returned %d (%s)", fn, rc, rc < 0 ? pt_errstr(pt_errcode(rc)) : "unknown status bits"));
		if (VGCHECK(&rc, sizeof rc)) M.violation(strf("undefined:%s", fn), "return value undefined");
		return rc;
	}
	template <class T> void def(const char *fn, const T &v) { if (VGCHECK(&v, sizeof v)) M.violation(strf("undefined:%s", fn), "reported value undefined"); }
	int get_offset(uint64_t *o) { int rc; switch (kind) {
		case 0: rc = pt_pkt_get_offset(p, o); break; case 1: rc = pt_evt_get_offset(e, o); break; case 2: rc = pt_qry_get_offset(q, o); break;
		case 3: rc = pt_insn_get_offset(i, o); break; default: rc = pt_blk_get_offset(b, o); }
		return chk("get_offset", rc); }
	int get_sync(uint64_t *o) { int rc; switch (kind) {
		case 0: rc = pt_pkt_get_sync_offset(p, o); break; case 1: rc = pt_evt_get_sync_offset(e, o); break; case 2: rc = pt_qry_get_sync_offset(q, o); break;
		case 3: rc = pt_insn_get_sync_offset(i, o); break; default: rc = pt_blk_get_sync_offset(b, o); }
		return chk("get_sync_offset", rc); }
	// mode 0 forward, 1 backward, 2 set
	int sync(int mode, uint64_t off, std::string *log = nullptr)
	{
		uint64_t ip = 0; int rc;
		switch (kind) {
		case 0: rc = mode == 0 ? pt_pkt_sync_forward(p) : mode == 1 ? pt_pkt_sync_backward(p) : pt_pkt_sync_set(p, off); break;
		case 1: rc = mode == 0 ? pt_evt_sync_forward(e) : mode == 1 ? pt_evt_sync_backward(e) : pt_evt_sync_set(e, off); break;
		case 2: rc = mode == 0 ? pt_qry_sync_forward(q, &ip) : mode == 1 ? pt_qry_sync_backward(q, &ip) : pt_qry_sync_set(q, &ip, off); break;
		case 3: rc = mode == 0 ? pt_insn_sync_forward(i) : mode == 1 ? pt_insn_sync_backward(i) : pt_insn_sync_set(i, off); break;
		default: rc = mode == 0 ? pt_blk_sync_forward(b) : mode == 1 ? pt_blk_sync_backward(b) : pt_blk_sync_set(b, off); break;
		}
		chk("sync", rc); status = rc; tkind = -1;
		if (rc >= 0 && kind == 2) def("qry_sync", ip);
		if (log) *log = strf("sync %d %llx", rc, rc >= 0 && kind == 2 && !(rc & pts_ip_suppressed) ? (unsigned long long) ip : 0ull);
		return rc;
	}
	// Everything that can be asked without advancing.
	std::string query()
	{
		std::string s; uint64_t o = 77, so = 77; int a = get_offset(&o), z = get_sync(&so);
		if (a >= 0) { def("offset", o); if (o > size) M.violation(strf("offset:%s", deckind[kind]), strf("offset %llu of %zu", (unsigned long long) o, size)); }
		if (z >= 0) { def("sync_offset", so); if (so > size) M.violation(strf("sync-offset:%s", deckind[kind]), strf("sync offset %llu of %zu", (unsigned long long) so, size)); }
		s = strf(" off %d:%llu sync %d:%llu", a, a >= 0 ? (unsigned long long) o : 0, z, z >= 0 ? (unsigned long long) so : 0);
		if (kind >= 2) {
			uint64_t t = 0; uint32_t lm = 0, lc = 0, cbr = 0; int rc = 0, rb = 0;
			switch (kind) {
			case 2: rc = pt_qry_time(q, &t, &lm, &lc); rb = pt_qry_core_bus_ratio(q, &cbr); break;
			case 3: rc = pt_insn_time(i, &t, &lm, &lc); rb = pt_insn_core_bus_ratio(i, &cbr); break;
			case 4: rc = pt_blk_time(b, &t, &lm, &lc); rb = pt_blk_core_bus_ratio(b, &cbr); break;
			}
			chk("time", rc); chk("core_bus_ratio", rb);
			if (rc >= 0) { def("time", t); def("time", lm); def("time", lc); s += strf(" time %llx %u %u", (unsigned long long) t, lm, lc); } else s += strf(" time %d", rc);
			if (rb >= 0) { def("cbr", cbr); s += strf(" cbr %u", cbr); } else s += strf(" cbr %d", rb);
		}
		if (flow()) {
			struct pt_asid as; memset(&as, 0, sizeof as); int rc = kind == 3 ? pt_insn_asid(i, &as, sizeof as) : pt_blk_asid(b, &as, sizeof as);
			chk("asid", rc); if (rc >= 0) { def("asid", as); s += strf(" cr3 %llx vmcs %llx", (unsigned long long) as.cr3, (unsigned long long) as.vmcs); } else s += strf(" asid %d", rc);
		}
		return s;
	}
	std::string evs(const char *fn, int rc, const struct pt_event &ev)
	{
		if (rc < 0) return strf("%s %d", fn, rc);
		def(fn, ev.type);
		if ((unsigned) ev.type > ptev_trig) { M.violation(strf("event-type:%s", fn), strf("event type %d", ev.type)); return "bad"; }
		Ev x = ev_canon(ev);
		for (auto v : x.f) def(evname(x.type), v);
		def("event.tsc", x.tsc); uint8_t fl = (uint8_t) (x.has_tsc | x.sup << 1 | x.status << 2); def("event.flags", fl);
		std::string s = strf("%s %d ", fn, rc) + x.str();
		if (x.has_tsc) s += strf(" lost %u %u", ev.lost_mtc, ev.lost_cyc);
		if (x.type == ptev_enabled) s += strf(" resumed %d", ev.variant.enabled.resumed);
		return s;
	}
	// One decoding step; @r decides where the caller has a choice.
	int step(Rng &r, std::string &s, bool wild = false)
	{
		switch (kind) {
		case 0: {
			struct pt_packet k; memset(&k, 0x5a, sizeof k); int rc = chk("pkt_next", pt_pkt_next(p, &k, sizeof k));
			s = strf("pkt %d", rc);
			if (rc == 0) M.violation("pkt-size", "packet of size zero");
			if (rc > 0) { MP m; if (k.type == ppt_unknown) s += strf(" unknown %d", k.size); else if (k.type == ppt_invalid && c.errata.skz84 && rc == 8) s += " invalid"; else if (!from_lib(k, m)) M.violation("packet-type", strf("type %d size %d from offset bytes ", k.type, k.size) + [&]{ uint64_t o = 0; pt_pkt_get_offset(p, &o); return hexs(c.begin + o - rc, (size_t) rc); }()); else { for (auto v : m.f) def("packet", v); s += m.str(); }
				if (k.size != rc) M.violation("pkt-size", strf("size %d, returned %d", k.size, rc)); }
			return status = rc; }
		case 1: { struct pt_event ev; memset(&ev, 0x5a, sizeof ev); int rc = chk("evt_next", pt_evt_next(e, &ev, sizeof ev)); s = evs("evt", rc, ev); return status = rc; }
		case 2: {
			int first = (status & pts_event_pending) && !(wild && r.chance(10)) ? 2 : (int) r.below(2), rc = -pte_bad_query;
			if (status >= 0 && (status & pts_event_pending)) {} else if (tkind >= 0 && !wild) first = tkind;
			bool all = true;
			for (int k = 0; k < 3 && rc == -(int) pte_bad_query; ++k) {
				int w = (first + k) % 3;
				if (w == 0) { int t = 55; rc = chk("cond_branch", pt_qry_cond_branch(q, &t)); if (rc >= 0) { def("tnt", t); if (t < 0 || t > 1) M.violation("taken", strf("taken=%d", t)); s += strf("cond %d %d", rc, t); tkind = 0; } else s += strf("cond %d ", rc); }
				else if (w == 1) { uint64_t ip = 0; rc = chk("indirect", pt_qry_indirect_branch(q, &ip)); if (rc >= 0) { bool sup = rc & pts_ip_suppressed; if (!sup) def("indirect", ip); s += strf("ind %d %llx", rc, sup ? 0 : (unsigned long long) ip); tkind = 1; } else s += strf("ind %d ", rc); }
				else { struct pt_event ev; memset(&ev, 0x5a, sizeof ev); rc = chk("qry_event", pt_qry_event(q, &ev, sizeof ev)); s += evs("event", rc, ev) + " "; }
			}
			(void) all;
			if (rc == -(int) pte_bad_query && strict) M.violation("stuck:qry", "every kind of query is refused as the wrong one: " + s);
			return status = rc; }
		case 3: {
			bool evw = status >= 0 && (status & pts_event_pending); if (wild && r.chance(5)) evw = !evw;
			if (evw) { struct pt_event ev; memset(&ev, 0x5a, sizeof ev); int rc = chk("insn_event", pt_insn_event(i, &ev, sizeof ev)); s = evs("event", rc, ev); return status = rc; }
			struct pt_insn in; memset(&in, 0x5a, sizeof in); int rc = chk("insn_next", pt_insn_next(i, &in, sizeof in));
			if (rc < 0) { s = strf("insn %d", rc); return status = rc; }
			def("insn.ip", in.ip); def("insn.size", in.size); def("insn.isid", in.isid); def("insn.class", in.iclass); def("insn.mode", in.mode);
			if (in.size < 1 || in.size > 15) M.violation("insn-size", strf("instruction size %u", in.size));
			else if (VGCHECK(in.raw, in.size)) M.violation("undefined:insn.raw", "instruction bytes undefined");
			ninsn++;
			s = strf("insn %d %llx %s c%d m%d isid %d s%d t%d", rc, (unsigned long long) in.ip, hexs(in.raw, std::min<size_t>(in.size, 15)).c_str(), in.iclass, in.mode, in.isid, in.speculative, in.truncated);
			return status = rc; }
		default: {
			bool evw = status >= 0 && (status & pts_event_pending); if (wild && r.chance(5)) evw = !evw;
			if (evw) { struct pt_event ev; memset(&ev, 0x5a, sizeof ev); int rc = chk("blk_event", pt_blk_event(b, &ev, sizeof ev)); s = evs("event", rc, ev); return status = rc; }
			struct pt_block bl; memset(&bl, 0x5a, sizeof bl); int rc = chk("blk_next", pt_blk_next(b, &bl, sizeof bl));
			s = strf("blk %d", rc);
			if (rc >= 0 || bl.ninsn) {
				def("blk.ninsn", bl.ninsn); def("blk.ip", bl.ip); def("blk.isid", bl.isid); def("blk.mode", bl.mode); def("blk.class", bl.iclass);
				s += strf(" n%u", bl.ninsn);
				if (bl.ninsn) { def("blk.end", bl.end_ip); s += strf(" %llx..%llx c%d m%d isid %d s%d t%d", (unsigned long long) bl.ip, (unsigned long long) bl.end_ip, bl.iclass, bl.mode, bl.isid, bl.speculative, bl.truncated);
					if (bl.truncated) { if (bl.size < 1 || bl.size > 15) M.violation("blk-size", strf("truncated instruction of size %u", bl.size)); else s += hexs(bl.raw, bl.size); } }
				ninsn += bl.ninsn;
			}
			return status = rc; }
		}
	}
};

// -------------------------------------------------------------- code images
struct HImage {
	std::vector<Region> reg; struct pt_image *image = nullptr; struct pt_image_section_cache *isc = nullptr; std::string file, desc; bool forward_only = false; size_t total = 0;
	std::vector<uint64_t> ips; uint64_t cbseed = 0; bool cb_hostile = false;
	static int readmem(uint8_t *buf, size_t size, const struct pt_asid *, uint64_t ip, void *ctx)
	{
		HImage *h = (HImage *) ctx;
		uint64_t x = h->cbseed * 31 + ip; x ^= x >> 17; x *= 0x9e3779b97f4a7c15ull;
		if (h->cb_hostile) switch ((x >> 40) % 6) { case 0: return -pte_nomap; case 1: size = std::min<size_t>(size, 1 + (x >> 50) % 15); break; case 2: return 0; }
		for (auto &g : h->reg) if (ip >= g.va && ip - g.va < g.bytes.size()) {
			size_t n = std::min<size_t>(size, g.bytes.size() - (ip - g.va));
			memcpy(buf, &g.bytes[ip - g.va], n); return (int) n;
		}
		return -pte_nomap;
	}
	static void code(Rng &r, Bytes &b, size_t n, bool forward, int mode)
	{
		while (b.size() < n) {
			auto hx = [&](const char *s) { Bytes x = hexb(s); b.insert(b.end(), x.begin(), x.end()); };
			int8_t d8 = (int8_t) (r.chance(60) ? r.range(0, 20) - 10 : r.next()); int32_t d32 = (int32_t) (r.chance(60) ? r.below(200) - 100 : r.chance(50) ? r.wide(32) : r.below(6) - 5);
			int isz = mode == ptem_16bit ? 2 : 4;
			switch (r.below(forward ? 12 : 17)) {
			case 0: b.push_back((uint8_t) r.next()); break;
			case 1: { int k = (int) r.range(1, 15); while (k--) b.push_back((uint8_t) r.next()); break; }
			case 2: hx(r.chance(50) ? "c3" : "c20800"); break;
			case 3: b.push_back((uint8_t) (0x70 + r.below(16))); b.push_back((uint8_t) d8); break;
			case 4: b.push_back(0x0f); b.push_back((uint8_t) (0x80 + r.below(16))); put(b, (uint32_t) d32, isz); break;
			case 5: hx(r.chance(50) ? "ffd0" : "ffe0"); break;
			case 6: { static const char *const s[] = { "0f05", "480f07", "cd80", "48cf", "0f22d8", "c7f800000000", "0f01d5", "c6f800", "0fc730", "f30faee0", "0f01c2", "0f01c9", "fb", "fa", "cb", "ff28", "f30f01ec", "cc", "f1", "0f34" }; hx(s[r.below(20)]); break; }
			case 7: case 8: hx(other64[r.below(sizeof other64 / sizeof *other64)]); break;
			case 9: hx("90"); break;
			case 10: { static const char *const px[] = { "66", "67", "f2", "f3", "2e", "48", "4f", "c5", "c4", "62", "d5", "0f", "0f38", "0f3a", "8f", "d9" }; hx(px[r.below(16)]); break; }
			case 11: { SI s; hx("0f1f4000"); break; }
			case 12: case 13: b.push_back(0xeb); b.push_back((uint8_t) d8); break;
			case 14: b.push_back(0xe9); put(b, (uint32_t) d32, isz); break;
			default: b.push_back(0xe8); put(b, (uint32_t) (r.chance(20) ? 0 : d32), isz); break;
			}
		}
	}
	// Arbitrary code at arbitrary places.
	void gen(Rng &r)
	{
		int n = (int) r.range(1, 4); forward_only = r.chance(25);
		uint64_t base = IpEnc::canon(r.wide(48));
		for (int k = 0; k < n; ++k) {
			Region g; g.mode = (int) (r.chance(70) ? ptem_64bit : r.range(1, 2));
			size_t len = r.chance(15) ? r.range(1, 16) : r.range(16, 160);
			switch (r.below(8)) {
			case 0: g.va = 0; break;
			case 1: g.va = 0ull - len - r.below(3); break;
			case 2: g.va = (1ull << 32) - r.below(len + 1); break;
			case 3: g.va = 65536 - r.below(len + 1); break;
			case 4: g.va = r.wide(64); break;
			default: g.va = base + r.below(200); break;
			}
			code(r, g.bytes, len, forward_only, g.mode);
			if (r.chance(30)) { g.bytes.clear(); while (g.bytes.size() < len) g.bytes.push_back((uint8_t) r.next()); forward_only = false; }
			if (r.chance(10)) { static const char *const lp[] = { "ebfe", "e9fbffffff", "e8fbffffff", "90ebfd", "eb00ebfc", "e800000000ebf9" }; Bytes x = hexb(lp[r.below(6)]); for (size_t q = 0; q + x.size() <= g.bytes.size(); q += x.size()) { memcpy(&g.bytes[q], x.data(), x.size()); if (r.chance(50)) break; } forward_only = false; }
			if (g.va + g.bytes.size() < g.va) forward_only = false;
			total += g.bytes.size();
			reg.push_back(g);
		}
		finish(r);
	}
	void from(Rng &r, ProgSim &p, unsigned nmut)
	{
		for (auto &g : p.reg) { Region x; x.va = g.va; x.cr3 = g.cr3; x.mode = g.mode; x.bytes = g.bytes; reg.push_back(x); }
		while (nmut--) { Region &g = reg[r.below(reg.size())]; if (g.bytes.empty()) continue; size_t q = r.below(g.bytes.size()); switch (r.below(4)) { case 0: g.bytes[q] ^= (uint8_t) (1u << r.below(8)); break; case 1: g.bytes[q] = (uint8_t) r.next(); break; case 2: g.bytes.resize(q + 1); break; default: { Bytes x; code(r, x, 4, false, 0); for (size_t k = 0; k < x.size() && q + k < g.bytes.size(); ++k) g.bytes[q + k] = x[k]; } } }
		finish(r);
	}
	void finish(Rng &r)
	{
		for (auto &g : reg) { for (int k = 0; k < 4; ++k) ips.push_back(g.va + r.below(g.bytes.size() + 1)); ips.push_back(g.va); ips.push_back(g.va + g.bytes.size() - 1); }
		cbseed = r.next(); file = M.scratch + "/himg"; build(r.next());
		for (auto &g : reg) desc += strf("region va=%llx mode=%d ", (unsigned long long) g.va, g.mode) + hexs(g.bytes.data(), g.bytes.size()) + "\n";
	}
	// (Re-)create the image; the same seed gives the same image.
	void build(uint64_t seed)
	{
		Rng r(seed);
		image = pt_image_alloc("h"); isc = pt_iscache_alloc(nullptr);
		if (r.chance(30)) pt_iscache_set_limit(isc, r.wide(16));
		FILE *f = fopen(file.c_str(), "w"); size_t o = 0; bool cb = r.chance(30); cb_hostile = r.chance(40);
		for (auto &g : reg) fwrite(g.bytes.data(), 1, g.bytes.size(), f);
		fclose(f);
		for (auto &g : reg) {
			size_t n = g.bytes.size(), done = 0;
			while (done < n) {
				size_t k = r.chance(70) ? n - done : r.range(1, n - done);
				struct pt_asid a; pt_asid_init(&a); if (g.cr3) a.cr3 = g.cr3;
				if (!(cb && r.chance(50))) {
					if (r.chance(50)) { int id = pt_iscache_add_file(isc, file.c_str(), o + done, k, g.va + done); if (id > 0) pt_image_add_cached(image, isc, id, g.cr3 ? &a : nullptr); }
					else pt_image_add_file(image, file.c_str(), o + done, k, g.cr3 ? &a : nullptr, g.va + done);
				}
				done += k;
			}
			o += n;
		}
		if (cb) pt_image_set_callback(image, readmem, this);
	}
	void drop() { if (image) pt_image_free(image); if (isc) pt_iscache_free(isc); image = nullptr; isc = nullptr; }
	~HImage() { drop(); if (!file.empty()) unlink(file.c_str()); }
	HImage() {}
	HImage(const HImage &) = delete;
};
