// Code-less scenario generator: well-formed packet sequences together with the
// events they describe (ground truth), written from the architecture's binding rules.
#pragma once
#include "ptmodel.hpp"

struct Ev {
	int type = 0; bool sup = false, status = false, has_tsc = false;
	uint64_t tsc = 0;
	std::vector<uint64_t> f;	// canonical fields, the IP last (absent if suppressed)
	bool same(const Ev &o) const
	{
		return type == o.type && sup == o.sup && status == o.status && has_tsc == o.has_tsc &&
			(!has_tsc || tsc == o.tsc) && f == o.f;
	}
	std::string str() const;
};
static const char *const evnames[] = { "enabled", "disabled", "async_disabled", "async_branch", "paging", "async_paging",
	"overflow", "exec_mode", "tsx", "stop", "vmcs", "async_vmcs", "exstop", "mwait", "pwre", "pwrx", "ptwrite", "tick",
	"cbr", "mnt", "tip", "tnt", "iflags", "interrupt", "iret", "smi", "rsm", "sipi", "init", "vmentry", "vmexit",
	"shutdown", "uintr", "uiret", "trig" };
inline const char *evname(int t) { return t >= 0 && t < (int) (sizeof evnames / sizeof *evnames) ? evnames[t] : "?"; }
inline std::string Ev::str() const
{
	std::string s = evname(type);
	if (status) s += "/status";
	if (sup) s += "/ipsup";
	for (auto x : f) s += strf(" %llx", (unsigned long long) x);
	if (has_tsc) s += strf(" @%llx", (unsigned long long) tsc);
	return s;
}

inline Ev ev_canon(const struct pt_event &e)
{
	Ev r; r.type = (int) e.type; r.sup = e.ip_suppressed; r.status = e.status_update; r.has_tsc = e.has_tsc;
	r.tsc = e.has_tsc ? e.tsc : 0;
	auto F = [&](uint64_t v) { r.f.push_back(v); };
	auto IP = [&](uint64_t v) { if (!r.sup) r.f.push_back(v); };
	switch (e.type) {
	case ptev_enabled: IP(e.variant.enabled.ip); break;
	case ptev_disabled: IP(e.variant.disabled.ip); break;
	case ptev_async_disabled: F(e.variant.async_disabled.at); IP(e.variant.async_disabled.ip); break;
	case ptev_async_branch: F(e.variant.async_branch.from); IP(e.variant.async_branch.to); break;
	case ptev_paging: F(e.variant.paging.cr3); F(e.variant.paging.non_root); break;
	case ptev_async_paging: F(e.variant.async_paging.cr3); F(e.variant.async_paging.non_root); IP(e.variant.async_paging.ip); break;
	case ptev_overflow: IP(e.variant.overflow.ip); break;
	case ptev_exec_mode: F((uint64_t) e.variant.exec_mode.mode); IP(e.variant.exec_mode.ip); break;
	case ptev_tsx: F(e.variant.tsx.speculative); F(e.variant.tsx.aborted); IP(e.variant.tsx.ip); break;
	case ptev_stop: break;
	case ptev_vmcs: F(e.variant.vmcs.base); break;
	case ptev_async_vmcs: F(e.variant.async_vmcs.base); IP(e.variant.async_vmcs.ip); break;
	case ptev_exstop: IP(e.variant.exstop.ip); break;
	case ptev_mwait: F(e.variant.mwait.hints); F(e.variant.mwait.ext); IP(e.variant.mwait.ip); break;
	case ptev_pwre: F(e.variant.pwre.state); F(e.variant.pwre.sub_state); F(e.variant.pwre.hw); break;
	case ptev_pwrx: F(e.variant.pwrx.last); F(e.variant.pwrx.deepest); F(e.variant.pwrx.interrupt); F(e.variant.pwrx.store);
		F(e.variant.pwrx.autonomous); break;
	case ptev_ptwrite: F(e.variant.ptwrite.size); F(e.variant.ptwrite.payload); IP(e.variant.ptwrite.ip); break;
	case ptev_tick: IP(e.variant.tick.ip); break;
	case ptev_cbr: F(e.variant.cbr.ratio); break;
	case ptev_mnt: F(e.variant.mnt.payload); break;
	case ptev_tip: IP(e.variant.tip.ip); break;
	case ptev_tnt: F(e.variant.tnt.size); F(e.variant.tnt.size < 64 ? e.variant.tnt.bits & ((1ull << e.variant.tnt.size) - 1) : e.variant.tnt.bits); break;
	case ptev_iflags: F(e.variant.iflags.iflag); IP(e.variant.iflags.ip); break;
	case ptev_interrupt: F(e.variant.interrupt.vector); F(e.variant.interrupt.has_cr2);
		if (e.variant.interrupt.has_cr2) F(e.variant.interrupt.cr2);
		IP(e.variant.interrupt.ip); break;
	case ptev_iret: IP(e.variant.iret.ip); break;
	case ptev_smi: IP(e.variant.smi.ip); break;
	case ptev_rsm: break;
	case ptev_sipi: F(e.variant.sipi.vector); break;
	case ptev_init: IP(e.variant.init.ip); break;
	case ptev_vmentry: IP(e.variant.vmentry.ip); break;
	case ptev_vmexit:
		F(e.variant.vmexit.has_vector); if (e.variant.vmexit.has_vector) F(e.variant.vmexit.vector);
		F(e.variant.vmexit.has_vmxr); if (e.variant.vmexit.has_vmxr) F(e.variant.vmexit.vmxr);
		F(e.variant.vmexit.has_vmxq); if (e.variant.vmexit.has_vmxq) F(e.variant.vmexit.vmxq);
		IP(e.variant.vmexit.ip); break;
	case ptev_shutdown: IP(e.variant.shutdown.ip); break;
	case ptev_uintr: F(e.variant.uintr.vector); IP(e.variant.uintr.ip); break;
	case ptev_uiret: IP(e.variant.uiret.ip); break;
	case ptev_trig: F(e.variant.trig.trbv); F(e.variant.trig.mult); F(e.variant.trig.icnt); break;
	default: break;
	}
	return r;
}

// The last-IP state and compression.
struct IpEnc {
	uint64_t last = 0;
	static uint64_t canon(uint64_t ip) { return (uint64_t) ((int64_t) (ip << 16) >> 16); }
	// Encode @ip in a random admissible form.
	MP enc(Rng &r, int kind, uint64_t ip)
	{
		unsigned c[8]; int n = 0;
		if ((ip >> 16) == (last >> 16)) { c[n++] = 1; c[n++] = 1; }
		if ((ip >> 32) == (last >> 32)) { c[n++] = 2; c[n++] = 2; }
		if (ip == canon(ip)) { c[n++] = 3; }
		if ((ip >> 48) == (last >> 48)) { c[n++] = 4; }
		c[n++] = 6;
		unsigned ipc = c[r.below((uint64_t) n)];
		last = ip;
		int nb = ipbytes(ipc);
		return MP(kind, ipc, nb == 8 ? ip : ip & ((1ull << (8 * nb)) - 1));
	}
	static MP none(int kind) { return MP(kind, 0, 0); }
};

struct EvGen {
	Rng &r;
	Bytes out;
	std::vector<Ev> ev;
	std::vector<std::pair<size_t, MP>> pkts;	// packet log
	std::vector<size_t> evpkt;	// index of the packet that completed the event
	std::vector<size_t> psb;	// offsets of PSB packets
	bool iflags;
	bool enabled = false, started = false;
	bool has_tsc = false; uint64_t tsc = 0;
	bool mvalid = false; unsigned csl = 0, csd = 0, iflag = 0;
	bool tma_ok = false; bool cyc = true, mtc = true;
	uint64_t ipbase[4];
	IpEnc ip;
	std::string log;

	EvGen(Rng &rng, bool ifl) : r(rng), iflags(ifl)
	{
		for (auto &b : ipbase) b = IpEnc::canon(r.wide(48));
		if (r.chance(20)) ipbase[0] = r.next();	// non-canonical
	}
	void emit(const MP &p)
	{
		pkts.push_back({ out.size(), p }); mencode(p, out); log += p.str() + " ";
	}
	uint64_t any_ip()
	{
		uint64_t b = ipbase[r.below(4)];
		switch (r.below(4)) {
		case 0: return b;
		case 1: return b ^ r.below(0x10000);
		case 2: return b ^ r.below(0x100000000ull);
		default: return r.chance(50) ? ip.last ^ r.below(0x10000) : IpEnc::canon(r.wide(48));
		}
	}
	void truth(int type, std::vector<uint64_t> f, bool sup = false, bool status = false)
	{
		Ev e; e.type = type; e.f = std::move(f); e.sup = sup; e.status = status; e.has_tsc = has_tsc; e.tsc = has_tsc ? tsc : 0;
		ev.push_back(e); evpkt.push_back(pkts.size() - 1);
	}
	void ip_truth(int type, std::vector<uint64_t> f, bool sup, uint64_t a, bool status = false)
	{
		if (!sup) f.push_back(a);
		truth(type, std::move(f), sup, status);
	}
	// Packets that may appear anywhere and carry no event.
	void timing(unsigned pct = 20)
	{
		while (r.chance(pct)) {
			switch (r.below(6)) {
			case 0: case 1: emit(MP(K_PAD)); break;
			case 2: { tsc = r.chance(90) ? tsc + r.wide(20) : r.wide(56); tsc &= (1ull << 56) - 1; has_tsc = true; tma_ok = true; emit(MP(K_TSC, tsc)); break; }
			case 3: if (tma_ok) { tma_ok = false; emit(MP(K_TMA, r.wide(16), r.wide(9))); } break;
			case 4: if (mtc) emit(MP(K_MTC, r.wide(8))); break;
			case 5: if (cyc) emit(MP(K_CYC, r.wide(r.chance(90) ? 12 : 40))); break;
			}
		}
	}
	// Standalone packets that may appear even inside of bound sequences.
	void aside(unsigned pct = 8)
	{
		timing();
		while (r.chance(pct)) {
			switch (r.below(4)) {
			case 0: { uint64_t c = r.range(1, 255); emit(MP(K_CBR, c)); truth(ptev_cbr, { c }); break; }
			case 1: { uint64_t m = r.wide(64); emit(MP(K_MNT, m)); truth(ptev_mnt, { m }); break; }
			case 2: { MP p = gen_packet(r, K_PWRE); emit(p); truth(ptev_pwre, { p.f[0], p.f[1], p.f[2] }); break; }
			case 3: { MP p = gen_packet(r, K_PWRX); emit(p); truth(ptev_pwrx, { p.f[0], p.f[1], p.f[2], p.f[3], p.f[4] }); break; }
			}
			timing();
		}
	}
	static uint64_t mode_of(unsigned l, unsigned d) { return l ? (d ? (uint64_t) ptem_unknown : (uint64_t) ptem_64bit) : d ? (uint64_t) ptem_32bit : (uint64_t) ptem_16bit; }
	struct Bound { int type; std::vector<uint64_t> f; };
	// MODE.EXEC: the events it gives at its binding packet.
	std::vector<Bound> mode_exec()
	{
		unsigned l = csl, d = csd, f = iflag;
		if (r.chance(80)) { switch (r.below(3)) { case 0: l = 1; d = 0; break; case 1: l = 0; d = 1; break; default: l = d = 0; } }
		if (r.chance(50)) f = (unsigned) r.below(2);
		emit(MP(K_EXEC, l, d, f));
		std::vector<Bound> b;
		if (!mvalid || l != csl || d != csd) b.push_back({ ptev_exec_mode, { mode_of(l, d) } });
		if (iflags && (!mvalid || f != iflag)) b.push_back({ ptev_iflags, { f } });
		csl = l; csd = d; mvalid = true; iflag = f;
		return b;
	}
	void psb_plus(bool first)
	{
		psb.push_back(out.size());
		emit(MP(K_PSB));
		ip.last = 0;
		if (first) { enabled = r.chance(70); }
		int items[10], n = 0;
		if (r.chance(60)) items[n++] = 0;			// cbr
		if (r.chance(60)) items[n++] = 1;			// mode.exec
		if (r.chance(50)) items[n++] = 2;			// mode.tsx
		if (r.chance(50)) items[n++] = 3;			// pip
		if (r.chance(40)) items[n++] = 4;			// vmcs
		if (r.chance(20)) items[n++] = 5;			// mnt
		if (enabled) items[n++] = 6;				// fup
		if (r.chance(50)) items[n++] = 7;			// tsc
		for (int i = n - 1; i > 0; --i) std::swap(items[i], items[r.below((uint64_t) i + 1)]);
		std::vector<Bound> b; uint64_t at = 0; std::vector<char> st;
		bool fup = false;
		bool by_ovf = !first && r.chance(8);
		if (by_ovf) { n = (int) r.below((uint64_t) n + 1); }
		for (int i = 0; i < n; ++i) {
			switch (items[i]) {
			case 0: { uint64_t c = r.range(1, 255); emit(MP(K_CBR, c)); b.push_back({ ptev_cbr, { c } }); st.push_back(1); break; }
			case 1:
				if (!mvalid) { switch (r.below(3)) { case 0: csl = 1; csd = 0; break; case 1: csl = 0; csd = 1; break; default: csl = csd = 0; } iflag = (unsigned) r.below(2); }
				mvalid = true;
				{
				// without event tracing, the interrupt flag may have changed unnoticed
				unsigned f = iflags ? iflag : (unsigned) r.below(2);
				emit(MP(K_EXEC, csl, csd, f));
				b.push_back({ ptev_exec_mode, { mode_of(csl, csd) } }); st.push_back(2);
				if (iflags) { b.push_back({ ptev_iflags, { f } }); st.push_back(2); }
				}
				break;
			case 2: { uint64_t x = r.below(2), a = x ? 0 : r.below(2); emit(MP(K_TSX, x, a)); b.push_back({ ptev_tsx, { x, a } }); st.push_back(2); break; }
			case 3: { MP p = gen_packet(r, K_PIP); emit(p); b.push_back({ ptev_async_paging, { p.f[0], p.f[1] } }); st.push_back(2); break; }
			case 4: { MP p = gen_packet(r, K_VMCS); emit(p); b.push_back({ ptev_async_vmcs, { p.f[0] } }); st.push_back(2); break; }
			case 5: { uint64_t m = r.wide(64); emit(MP(K_MNT, m)); b.push_back({ ptev_mnt, { m } }); st.push_back(0); break; }
			case 6: at = any_ip(); emit(ip.enc(r, K_FUP, at)); fup = true; break;
			case 7: tsc = r.chance(90) ? tsc + r.wide(20) : r.wide(56); tsc &= (1ull << 56) - 1; has_tsc = true; tma_ok = true; emit(MP(K_TSC, tsc)); break;
			}
			timing(10);
		}
		if (!enabled && r.chance(15) && !by_ovf) emit(IpEnc::none(K_FUP));	// FUP without IP: tracing is disabled
		timing(10);
		emit(MP(by_ovf ? K_OVF : K_PSBEND));
		if (fup) truth(ptev_enabled, { at }, false, true);
		else if (!by_ovf) truth(ptev_disabled, {}, true, true);
		for (size_t i = 0; i < b.size(); ++i) {
			if (st[i] == 2) ip_truth(b[i].type, b[i].f, !fup, at, true);
			else truth(b[i].type, b[i].f, false, st[i] != 0);
		}
		if (by_ovf) resolve_ovf();
	}
	// After the OVF packet.
	void resolve_ovf()
	{
		mvalid = false; ip.last = 0; tma_ok = false;
		bool at_has = has_tsc; uint64_t at_tsc = tsc;
		size_t opkt = pkts.size() - 1;
		if (r.chance(50)) {
			// timing (and CBR, MNT) packets up to the FUP
			timing(30);
			uint64_t a = any_ip();
			emit(ip.enc(r, K_FUP, a));
			truth(ptev_overflow, { a });
			ev.back().has_tsc = at_has; ev.back().tsc = at_has ? at_tsc : 0;
			enabled = true;
			return;
		}
		truth(ptev_overflow, {}, true); evpkt.back() = opkt;
		enabled = false;
		// something that shows that tracing is disabled follows
		timing(10);
		switch (r.below(5)) {
		case 0: psb_plus(false); break;
		case 1: emit(MP(K_STOP)); truth(ptev_stop, {}); break;
		case 2: { MP p = gen_packet(r, K_PIP); emit(p); truth(ptev_paging, { p.f[0], p.f[1] }); break; }
		default: pge(); break;
		}
	}
	void pge()
	{
		std::vector<Bound> b;
		if (r.chance(50)) { b = mode_exec(); aside(); }
		if (r.chance(6)) {
			emit(IpEnc::none(K_PGE)); enabled = true; truth(ptev_enabled, {}, true);
			for (auto &x : b) truth(x.type, x.f, true);
			return;
		}
		uint64_t a = any_ip();
		emit(ip.enc(r, K_PGE, a)); enabled = true;
		truth(ptev_enabled, { a });
		for (auto &x : b) { auto f = x.f; f.push_back(a); truth(x.type, f); }
	}
	// Packets that bind to a FUP behind them.
	void fup_bound()
	{
		std::vector<Bound> b;
		int n = r.chance(75) ? 1 : (int) r.range(2, 3);
		bool mode = false, tsx = false, cfe = false, ex = false;
		for (int i = 0; i < n; ++i) {
			switch (r.below(7)) {
			case 0: { MP p = gen_packet(r, K_PTW); p.f[1] = 1; emit(p); b.push_back({ ptev_ptwrite, { p.f[0] ? 8ull : 4ull, p.f[2] } }); break; }
			case 1: if (ex) break; ex = true; emit(MP(K_EXSTOP, 1)); b.push_back({ ptev_exstop, {} }); break;
			case 2: { if (ex) break; ex = true; MP p = gen_packet(r, K_MWAIT); emit(p); aside(); emit(MP(K_EXSTOP, 1));
				b.push_back({ ptev_mwait, { p.f[0], p.f[1] } }); b.push_back({ ptev_exstop, {} }); break; }
			case 3: { if (tsx) break; tsx = true; uint64_t x = r.below(2); emit(MP(K_TSX, x, 0)); b.push_back({ ptev_tsx, { x, 0 } }); break; }
			case 4: { if (mode) break; mode = true; auto m = mode_exec(); for (auto &x : m) b.push_back(x); ignored_fup |= m.empty(); break; }
			case 5: { uint64_t t = r.wide(8), m = r.below(2); emit(MP(K_TRIG, t, 1, m, 1, 0)); b.push_back({ ptev_trig, { t, m, 0 } }); break; }
			case 6: { if (cfe) break; cfe = true; auto c = cfe_packets(1); for (auto &x : c) b.push_back(x); break; }
			}
			aside();
			if (out.size() && pkts.empty()) break;
		}
		if (b.empty() && !ignored_fup) return;
		ignored_fup = false;
		uint64_t a = any_ip();
		emit(ip.enc(r, K_FUP, a));
		for (auto &x : b) {
			auto f = x.f;
			if (x.type != ptev_trig) f.push_back(a);
			truth(x.type, f);
		}
	}
	bool ignored_fup = false;
	// [EVD...] CFE with (@ipbit) or without IP; returns the events it describes.
	std::vector<Bound> cfe_packets(int ipbit)
	{
		std::vector<Bound> b;
		static const int with_ip[] = { pt_cfe_intr, pt_cfe_iret, pt_cfe_smi, pt_cfe_init, pt_cfe_vmentry, pt_cfe_vmexit,
			pt_cfe_vmexit_intr, pt_cfe_shutdown, pt_cfe_uintr, pt_cfe_uiret, 31 };
		static const int en_noip[] = { pt_cfe_intr, pt_cfe_smi, pt_cfe_rsm, pt_cfe_sipi, pt_cfe_init, pt_cfe_vmexit, pt_cfe_vmexit_intr, pt_cfe_uintr };
		static const int alone[] = { pt_cfe_iret, pt_cfe_vmentry, pt_cfe_shutdown, pt_cfe_uiret };
		int t;
		if (ipbit == 1) t = with_ip[r.below(sizeof with_ip / sizeof *with_ip)];
		else if (ipbit == 0) t = en_noip[r.below(sizeof en_noip / sizeof *en_noip)];
		else if (ipbit == 2) t = alone[r.below(4)];
		else t = r.chance(50) ? en_noip[r.below(sizeof en_noip / sizeof *en_noip)] : alone[r.below(4)];
		if (t == 31) { static const int unk[] = { 0, 14, 15, 17, 22, 31 }; t = unk[r.below(6)];
			bool known = false; for (int k : with_ip) known |= k == t && k != 31; known |= t == pt_cfe_rsm || t == pt_cfe_sipi;
			if (known) t = 31; }
		uint64_t vec = r.wide(8), cr2 = r.wide(64), q = r.wide(64), rr = r.wide(64);
		bool hcr2 = false, hq = false, hr = false;
		if (r.chance(10)) { emit(MP(K_EVD, 30, r.wide(64))); aside(); }		// unknown type: ignored
		if (t == pt_cfe_intr && r.chance(50)) { emit(MP(K_EVD, pt_evd_cr2, cr2)); hcr2 = true; aside(); }
		if (t == pt_cfe_vmexit || t == pt_cfe_vmexit_intr) {
			bool qf = r.chance(50);
			for (int k = 0; k < 2; ++k) {
				if (r.chance(60)) { if ((k == 0) == qf) { emit(MP(K_EVD, pt_evd_vmxq, q)); hq = true; } else { emit(MP(K_EVD, pt_evd_vmxr, rr)); hr = true; } aside(); }
			}
		}
		emit(MP(K_CFE, (uint64_t) t, ipbit == 1, vec));
		switch (t) {
		case pt_cfe_intr: { Bound x{ ptev_interrupt, { vec, hcr2 } }; if (hcr2) x.f.push_back(cr2); b.push_back(x); break; }
		case pt_cfe_iret: b.push_back({ ptev_iret, {} }); break;
		case pt_cfe_smi: b.push_back({ ptev_smi, {} }); break;
		case pt_cfe_rsm: b.push_back({ ptev_rsm, {} }); break;
		case pt_cfe_sipi: b.push_back({ ptev_sipi, { vec } }); break;
		case pt_cfe_init: b.push_back({ ptev_init, {} }); break;
		case pt_cfe_vmentry: b.push_back({ ptev_vmentry, {} }); break;
		case pt_cfe_vmexit: case pt_cfe_vmexit_intr: {
			Bound x{ ptev_vmexit, {} };
			x.f.push_back(t == pt_cfe_vmexit_intr); if (t == pt_cfe_vmexit_intr) x.f.push_back(vec);
			x.f.push_back(hr); if (hr) x.f.push_back(rr);
			x.f.push_back(hq); if (hq) x.f.push_back(q);
			b.push_back(x); break; }
		case pt_cfe_shutdown: b.push_back({ ptev_shutdown, {} }); break;
		case pt_cfe_uintr: b.push_back({ ptev_uintr, { vec } }); break;
		case pt_cfe_uiret: b.push_back({ ptev_uiret, {} }); break;
		default: ignored_fup = true; break;
		}
		return b;
	}
	void standalone()
	{
		switch (r.below(8)) {
		case 0: { MP p = gen_packet(r, K_PIP); emit(p); truth(ptev_paging, { p.f[0], p.f[1] }); break; }
		case 1: { MP p = gen_packet(r, K_VMCS); emit(p); truth(ptev_vmcs, { p.f[0] }); break; }
		case 2: aside(90); break;
		case 3: { MP p = gen_packet(r, K_PTW); p.f[1] = 0; emit(p); truth(ptev_ptwrite, { p.f[0] ? 8ull : 4ull, p.f[2] }, true); break; }
		case 4: emit(MP(K_EXSTOP, 0)); truth(ptev_exstop, {}, true); break;
		case 5: { MP p = gen_packet(r, K_MWAIT); emit(p); aside(); emit(MP(K_EXSTOP, 0));
			truth(ptev_mwait, { p.f[0], p.f[1] }, true); truth(ptev_exstop, {}, true); break; }
		case 6: { uint64_t t = r.wide(8), m = r.below(2), icv = r.below(2), ic = icv && enabled ? r.wide(16) : 0;
			emit(MP(K_TRIG, t, 0, m, icv, ic)); truth(ptev_trig, { t, m, ic }, !icv); break; }
		case 7: {
			auto b = cfe_packets(enabled ? 2 : 3);
			for (auto &x : b) truth(x.type, x.f, true);
			ignored_fup = false;
			break; }
		}
	}
	void async_branch()
	{
		std::vector<Bound> pre, post; int kind = (int) r.below(10);
		uint64_t from = any_ip(), to = any_ip();
		if (kind == 0) { emit(MP(K_TSX, 0, 1)); pre.push_back({ ptev_tsx, { 0, 1 } }); aside(); }
		else if (kind < 4) { pre = cfe_packets(0); aside(); }
		emit(ip.enc(r, K_FUP, from));
		for (auto &x : pre) {
			if (x.type == ptev_rsm || x.type == ptev_sipi) truth(x.type, x.f, true);
			else { auto f = x.f; f.push_back(from); truth(x.type, f); }
		}
		aside();
		bool pgd = r.chance(25), sup = r.chance(10);
		int order = (int) r.below(5);
		std::vector<Bound> mode;
		auto do_mode = [&]() { if (r.chance(35)) { auto m = mode_exec(); post.insert(post.end(), m.begin(), m.end()); aside(); } };
		if (order == 0) do_mode();
		bool pip = r.chance(40), vm = r.chance(30);
		bool pip_first = r.chance(50);
		MP pp = gen_packet(r, K_PIP), pv = gen_packet(r, K_VMCS);
		Bound bp{ ptev_async_paging, { pp.f[0], pp.f[1] } }, bv{ ptev_async_vmcs, { pv.f[0] } };
		if (pip && pip_first) { emit(pp); aside(); }
		if (vm) { emit(pv); aside(); }
		if (pip && !pip_first) { emit(pp); aside(); }
		if (vm) post.push_back(bv);
		if (pip) post.push_back(bp);
		if (order == 1) do_mode();
		if (pgd) {
			emit(sup ? IpEnc::none(K_PGD) : ip.enc(r, K_PGD, to));
			ip_truth(ptev_async_disabled, { from }, sup, to);
			for (auto &x : post) truth(x.type, x.f, true);
			enabled = false;
			return;
		}
		emit(sup ? IpEnc::none(K_TIP) : ip.enc(r, K_TIP, to));
		ip_truth(ptev_async_branch, { from }, sup, to);
		for (auto &x : post) ip_truth(x.type, x.f, sup, to);
	}
	void step()
	{
		timing(15);
		if (!enabled) {
			switch (r.below(10)) {
			case 0: case 1: case 2: case 3: pge(); break;
			case 4: case 5: standalone(); break;
			case 6: { uint64_t x = r.below(2), a = r.below(2); emit(MP(K_TSX, x, a)); truth(ptev_tsx, { x, a }, true); break; }
			case 7: emit(MP(K_STOP)); truth(ptev_stop, {}); break;
			case 8: psb_plus(false); break;
			case 9: if (r.chance(40)) { emit(MP(K_OVF)); resolve_ovf(); } else pge(); break;
			}
			return;
		}
		switch (r.below(16)) {
		case 0: case 1: case 2: case 3: case 4: {
			uint64_t n = r.chance(70) ? r.range(1, 6) : r.range(1, 47);
			uint64_t bits = r.next() & ((1ull << n) - 1);
			emit(MP(n <= 6 && r.chance(85) ? K_TNT8 : K_TNT64, bits, n)); truth(ptev_tnt, { n, bits }); break; }
		case 5: case 6: case 7: {
			uint64_t a = any_ip(); bool sup = r.chance(10);
			std::vector<Bound> b;
			if (r.chance(20)) { b = mode_exec(); aside(); }
			emit(sup ? IpEnc::none(K_TIP) : ip.enc(r, K_TIP, a));
			ip_truth(ptev_tip, {}, sup, a);
			for (auto &x : b) ip_truth(x.type, x.f, sup, a);
			break; }
		case 8: case 9: async_branch(); break;
		case 10: fup_bound(); break;
		case 11: standalone(); break;
		case 12: psb_plus(false); break;
		case 13: if (r.chance(40)) { emit(MP(K_OVF)); resolve_ovf(); } else fup_bound(); break;
		case 14: {
			std::vector<Bound> b;
			if (r.chance(25)) { b = mode_exec(); aside(); }
			bool sup = r.chance(40); uint64_t a = any_ip();
			emit(sup ? IpEnc::none(K_PGD) : ip.enc(r, K_PGD, a));
			for (auto &x : b) truth(x.type, x.f, true);
			ip_truth(ptev_disabled, {}, sup, a);
			enabled = false;
			break; }
		case 15: async_branch(); break;
		}
	}
	void generate(int steps)
	{
		if (r.chance(30)) { int n = (int) r.below(5); while (n--) { emit(MP(K_PAD)); } }
		psb_plus(true);
		for (int i = 0; i < steps; ++i) step();
		timing(20);
	}
};
