// An independent model of the Intel PT packet format, written from the
// architecture manual's packet tables: encoder, decoder, canonical form.
#pragma once
#include "mon.hpp"
#include "intel-pt.h"

enum Kind { K_PAD, K_PSB, K_PSBEND, K_OVF, K_STOP, K_TNT8, K_TNT64, K_TIP, K_PGE, K_PGD, K_FUP,
	K_EXEC, K_TSX, K_PIP, K_VMCS, K_CBR, K_TSC, K_TMA, K_MTC, K_CYC, K_MNT, K_EXSTOP, K_MWAIT,
	K_PWRE, K_PWRX, K_PTW, K_CFE, K_EVD, K_TRIG, K_NUM };
static const char *const kind_name[] = { "pad", "psb", "psbend", "ovf", "stop", "tnt8", "tnt64", "tip",
	"tip.pge", "tip.pgd", "fup", "mode.exec", "mode.tsx", "pip", "vmcs", "cbr", "tsc", "tma", "mtc",
	"cyc", "mnt", "exstop", "mwait", "pwre", "pwrx", "ptw", "cfe", "evd", "trig" };

struct MP {		// model packet
	int k = K_PAD;
	uint64_t f[6] = {0, 0, 0, 0, 0, 0};
	MP() {}
	MP(int kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0)
	: k(kind) { f[0] = a; f[1] = b; f[2] = c; f[3] = d; f[4] = e; }
	bool operator==(const MP &o) const { return k == o.k && !memcmp(f, o.f, sizeof f); }
	std::string str() const
	{
		std::string s = kind_name[k]; s += "(";
		for (int i = 0; i < 5; ++i) s += strf("%s%llx", i ? "," : "", (unsigned long long) f[i]);
		return s + ")";
	}
};

typedef std::vector<uint8_t> Bytes;

inline void put(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; ++i) { b.push_back((uint8_t) v); v >>= 8; } }

// IP compression field: payload bytes, or -1 if reserved.
inline int ipbytes(unsigned ipc)
{
	static const int n[8] = { 0, 2, 4, 6, 6, -1, 8, -1 };
	return n[ipc & 7];
}

// Field conventions:
//  tnt: a=bits (oldest in the most significant bit), b=count
//  ip packets: a=ipc b=ip (payload bits)      exec: a=cs.l b=cs.d c=if    tsx: a=intx b=abrt
//  pip: a=cr3 b=nr    vmcs: a=base   cbr: a=ratio   tma: a=ctc b=fc   exstop: a=ip
//  mwait: a=hints b=ext   pwre: a=state b=sub c=hw   pwrx: a=last b=deepest c=int d=store e=hw
//  ptw: a=plc b=ip c=payload   cfe: a=type b=ip c=vector   evd: a=type b=payload
//  trig: a=trbv b=ip c=mult d=icntv e=icnt
inline void mencode(const MP &p, Bytes &b)
{
	const uint64_t *f = p.f;
	switch (p.k) {
	case K_PAD: b.push_back(0); break;
	case K_PSB: for (int i = 0; i < 8; ++i) { b.push_back(0x02); b.push_back(0x82); } break;
	case K_PSBEND: put(b, 0x2302, 2); break;
	case K_OVF: put(b, 0xf302, 2); break;
	case K_STOP: put(b, 0x8302, 2); break;
	case K_TNT8: b.push_back((uint8_t) (((1u << f[1]) | (f[0] & ((1u << f[1]) - 1))) << 1)); break;
	case K_TNT64: put(b, 0xa302, 2); put(b, (1ull << f[1]) | (f[0] & ((1ull << f[1]) - 1)), 6); break;
	case K_TIP: case K_PGE: case K_PGD: case K_FUP: {
		unsigned op = p.k == K_TIP ? 0x0d : p.k == K_PGE ? 0x11 : p.k == K_PGD ? 0x01 : 0x1d;
		b.push_back((uint8_t) (op | f[0] << 5)); put(b, f[1], ipbytes((unsigned) f[0]));
		break; }
	case K_EXEC: b.push_back(0x99); b.push_back((uint8_t) (f[0] | f[1] << 1 | f[2] << 2)); break;
	case K_TSX: b.push_back(0x99); b.push_back((uint8_t) (0x20 | f[0] | f[1] << 1)); break;
	case K_PIP: put(b, 0x4302, 2); put(b, ((f[0] >> 5) << 1) | f[1], 6); break;
	case K_VMCS: put(b, 0xc802, 2); put(b, f[0] >> 12, 5); break;
	case K_CBR: put(b, 0x0302, 2); put(b, f[0], 1); put(b, 0, 1); break;
	case K_TSC: b.push_back(0x19); put(b, f[0], 7); break;
	case K_TMA: put(b, 0x7302, 2); put(b, f[0], 2); put(b, 0, 1); put(b, f[1], 2); break;
	case K_MTC: b.push_back(0x59); put(b, f[0], 1); break;
	case K_CYC: {
		uint64_t v = f[0];
		uint64_t rest = v >> 5;
		b.push_back((uint8_t) (0x03 | (v & 31) << 3 | (rest ? 4 : 0)));
		while (rest) { b.push_back((uint8_t) ((rest & 127) << 1 | (rest >> 7 ? 1 : 0))); rest >>= 7; }
		break; }
	case K_MNT: put(b, 0x88c302, 3); put(b, f[0], 8); break;
	case K_EXSTOP: put(b, f[0] ? 0xe202 : 0x6202, 2); break;
	case K_MWAIT: put(b, 0xc202, 2); put(b, f[0], 4); put(b, f[1], 4); break;
	case K_PWRE: put(b, 0x2202, 2); put(b, f[2] << 3, 1); put(b, f[1] | f[0] << 4, 1); break;
	case K_PWRX: put(b, 0xa202, 2); put(b, f[1] | f[0] << 4, 1);
		put(b, f[2] | f[3] << 2 | f[4] << 3, 1); put(b, 0, 3); break;
	case K_PTW: b.push_back(2); b.push_back((uint8_t) (0x12 | f[0] << 5 | f[1] << 7));
		put(b, f[2], f[0] ? 8 : 4); break;
	case K_CFE: put(b, 0x1302, 2); put(b, f[0] | f[1] << 7, 1); put(b, f[2], 1); break;
	case K_EVD: put(b, 0x5302, 2); put(b, f[0], 1); put(b, f[1], 8); break;
	case K_TRIG: b.push_back(0xd9); b.push_back((uint8_t) (f[1] << 7 | f[3] << 6 | f[2] << 5));
		b.push_back((uint8_t) f[0]); if (f[3]) put(b, f[4], 2); break;
	default: abort();
	}
}
inline Bytes mencode(const MP &p) { Bytes b; mencode(p, b); return b; }

// Result of the model decoder: a packet and its size, or the set of acceptable failures.
enum { F_GOOD = 0, F_END = 1, F_OPC = 2, F_PKT = 4 };
struct MD { int fail = F_GOOD; MP p; int size = 0; };

inline uint64_t rd(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t) p[i] << (8 * i); return v; }

inline MD mdecode(const uint8_t *p, size_t n)
{
	MD r;
	auto fail = [&](int f) { r.fail = f; return r; };
	auto need = [&](size_t k) { return n >= k; };
	if (!n) return fail(F_END);
	uint8_t o = p[0];
	auto ok = [&](MP q, int sz) { r.p = q; r.size = sz; return r; };
	auto tnt = [&](uint64_t v, int kind, int sz) {
		int top = 63 - __builtin_clzll(v);
		return ok(MP(kind, v & ~(1ull << top), (uint64_t) top), sz);
	};
	if (o == 0) return ok(MP(K_PAD), 1);
	if ((o & 3) == 3) {		// CYC
		uint64_t v = o >> 3; int sh = 5; size_t i = 1; bool ext = o & 4, over = false;
		while (ext) {
			if (i >= n) return fail(over ? F_END | F_PKT : F_END);
			uint64_t c = p[i] >> 1;
			ext = p[i] & 1; ++i;
			if (sh >= 64 || (sh + 7 > 64 && (c >> (64 - sh)))) over = true;
			else v |= c << sh;
			sh += 7;
			// Payloads that do not fit the 64 bits of the API are errors;
			// whether all-zero excess bits count is not specified.
			if (sh > 64 && !over && i > 10) over = true;
			if (over && i > 16) break;
		}
		if (over) return fail(F_PKT);
		r.p = MP(K_CYC, v); r.size = (int) i;
		if (sh > 64) r.fail = F_PKT | 0x100;	// either is acceptable
		return r;
	}
	if (!(o & 1) && o != 2) return tnt(o >> 1, K_TNT8, 1);
	unsigned low = o & 0x1f;
	if (low == 0x0d || low == 0x11 || low == 0x01 || low == 0x1d) {
		unsigned ipc = o >> 5; int nb = ipbytes(ipc);
		if (nb < 0) return fail(F_PKT);
		if (!need(1 + (size_t) nb)) return fail(F_END);
		int k = low == 0x0d ? K_TIP : low == 0x11 ? K_PGE : low == 0x01 ? K_PGD : K_FUP;
		return ok(MP(k, ipc, rd(p + 1, nb)), 1 + nb);
	}
	switch (o) {
	case 0x99:
		if (!need(2)) return fail(F_END);
		if ((p[1] >> 5) == 0) return ok(MP(K_EXEC, p[1] & 1, p[1] >> 1 & 1, p[1] >> 2 & 1), 2);
		if ((p[1] >> 5) == 1) return ok(MP(K_TSX, p[1] & 1, p[1] >> 1 & 1), 2);
		return fail(F_PKT);
	case 0x19: if (!need(8)) return fail(F_END); return ok(MP(K_TSC, rd(p + 1, 7)), 8);
	case 0x59: if (!need(2)) return fail(F_END); return ok(MP(K_MTC, p[1]), 2);
	case 0xd9: {
		if (!need(3)) return fail(F_END);
		bool ic = p[1] & 0x40;
		if (ic && !need(5)) return fail(F_END);
		return ok(MP(K_TRIG, p[2], p[1] >> 7, p[1] >> 5 & 1, ic, ic ? rd(p + 3, 2) : 0), ic ? 5 : 3); }
	case 0x02: break;
	default: return fail(F_OPC);
	}
	if (!need(2)) return fail(F_END);
	uint8_t e = p[1];
	if ((e & 0x1f) == 0x12) {
		unsigned plc = e >> 5 & 3;
		if (plc > 1) return fail(F_PKT);
		size_t nb = plc ? 8 : 4;
		if (!need(2 + nb)) return fail(F_END);
		return ok(MP(K_PTW, plc, e >> 7, rd(p + 2, (int) nb)), (int) (2 + nb));
	}
	switch (e) {
	case 0x82: {
		bool bad = false;
		for (size_t i = 0; i < 16 && i < n; ++i) if (p[i] != (i & 1 ? 0x82 : 0x02)) bad = true;
		if (!need(16)) return fail(bad ? F_END | F_PKT : F_END);
		return bad ? fail(F_PKT) : ok(MP(K_PSB), 16); }
	case 0x23: return ok(MP(K_PSBEND), 2);
	case 0xf3: return ok(MP(K_OVF), 2);
	case 0x83: return ok(MP(K_STOP), 2);
	case 0xa3: {
		if (!need(8)) return fail(F_END);
		uint64_t v = rd(p + 2, 6);
		if (v < 2) return fail(F_PKT);
		return tnt(v, K_TNT64, 8); }
	case 0x43: { if (!need(8)) return fail(F_END); uint64_t v = rd(p + 2, 6); return ok(MP(K_PIP, (v >> 1) << 5, v & 1), 8); }
	case 0xc8: if (!need(7)) return fail(F_END); return ok(MP(K_VMCS, rd(p + 2, 5) << 12), 7);
	case 0x03: if (!need(4)) return fail(F_END); return ok(MP(K_CBR, p[2]), 4);
	case 0x73: {
		bool bad = (n >= 5 && p[4]) || (n >= 7 && (p[6] & 0xfe));
		if (!need(7)) return fail(bad ? F_END | F_PKT : F_END);
		if (bad) return fail(F_PKT);
		return ok(MP(K_TMA, rd(p + 2, 2), rd(p + 5, 2)), 7); }
	case 0x62: return ok(MP(K_EXSTOP, 0), 2);
	case 0xe2: return ok(MP(K_EXSTOP, 1), 2);
	case 0xc2: if (!need(10)) return fail(F_END); return ok(MP(K_MWAIT, rd(p + 2, 4), rd(p + 6, 4)), 10);
	case 0x22: if (!need(4)) return fail(F_END); return ok(MP(K_PWRE, p[3] >> 4, p[3] & 15, p[2] >> 3 & 1), 4);
	case 0xa2: if (!need(7)) return fail(F_END);
		return ok(MP(K_PWRX, p[2] >> 4, p[2] & 15, p[3] & 1, p[3] >> 2 & 1, p[3] >> 3 & 1), 7);
	case 0x13: if (!need(4)) return fail(F_END); return ok(MP(K_CFE, p[2] & 31, p[2] >> 7, p[3]), 4);
	case 0x53: if (!need(11)) return fail(F_END); return ok(MP(K_EVD, p[2] & 31, rd(p + 3, 8)), 11);
	case 0xc3:
		if (!need(3)) return fail(F_END);
		if (p[2] != 0x88) return fail(F_OPC);
		if (!need(11)) return fail(F_END);
		return ok(MP(K_MNT, rd(p + 3, 8)), 11);
	}
	return fail(F_OPC);
}

// Model packet from/to the library's packet.
inline bool from_lib(const struct pt_packet &q, MP &m)
{
	m = MP();
	switch (q.type) {
	case ppt_pad: m.k = K_PAD; return true;
	case ppt_psb: m.k = K_PSB; return true;
	case ppt_psbend: m.k = K_PSBEND; return true;
	case ppt_ovf: m.k = K_OVF; return true;
	case ppt_stop: m.k = K_STOP; return true;
	case ppt_tnt_8: m = MP(K_TNT8, q.payload.tnt.payload, q.payload.tnt.bit_size); return true;
	case ppt_tnt_64: m = MP(K_TNT64, q.payload.tnt.payload, q.payload.tnt.bit_size); return true;
	case ppt_tip: m = MP(K_TIP, q.payload.ip.ipc, q.payload.ip.ip); return true;
	case ppt_tip_pge: m = MP(K_PGE, q.payload.ip.ipc, q.payload.ip.ip); return true;
	case ppt_tip_pgd: m = MP(K_PGD, q.payload.ip.ipc, q.payload.ip.ip); return true;
	case ppt_fup: m = MP(K_FUP, q.payload.ip.ipc, q.payload.ip.ip); return true;
	case ppt_mode:
		if (q.payload.mode.leaf == pt_mol_exec)
			m = MP(K_EXEC, q.payload.mode.bits.exec.csl, q.payload.mode.bits.exec.csd, q.payload.mode.bits.exec.iflag);
		else if (q.payload.mode.leaf == pt_mol_tsx)
			m = MP(K_TSX, q.payload.mode.bits.tsx.intx, q.payload.mode.bits.tsx.abrt);
		else return false;
		return true;
	case ppt_pip: m = MP(K_PIP, q.payload.pip.cr3, q.payload.pip.nr); return true;
	case ppt_vmcs: m = MP(K_VMCS, q.payload.vmcs.base); return true;
	case ppt_cbr: m = MP(K_CBR, q.payload.cbr.ratio); return true;
	case ppt_tsc: m = MP(K_TSC, q.payload.tsc.tsc); return true;
	case ppt_tma: m = MP(K_TMA, q.payload.tma.ctc, q.payload.tma.fc); return true;
	case ppt_mtc: m = MP(K_MTC, q.payload.mtc.ctc); return true;
	case ppt_cyc: m = MP(K_CYC, q.payload.cyc.value); return true;
	case ppt_mnt: m = MP(K_MNT, q.payload.mnt.payload); return true;
	case ppt_exstop: m = MP(K_EXSTOP, q.payload.exstop.ip); return true;
	case ppt_mwait: m = MP(K_MWAIT, q.payload.mwait.hints, q.payload.mwait.ext); return true;
	case ppt_pwre: m = MP(K_PWRE, q.payload.pwre.state, q.payload.pwre.sub_state, q.payload.pwre.hw); return true;
	case ppt_pwrx: m = MP(K_PWRX, q.payload.pwrx.last, q.payload.pwrx.deepest, q.payload.pwrx.interrupt,
		q.payload.pwrx.store, q.payload.pwrx.autonomous); return true;
	case ppt_ptw: m = MP(K_PTW, q.payload.ptw.plc, q.payload.ptw.ip, q.payload.ptw.payload); return true;
	case ppt_cfe: m = MP(K_CFE, q.payload.cfe.type, q.payload.cfe.ip, q.payload.cfe.vector); return true;
	case ppt_evd: m = MP(K_EVD, q.payload.evd.type, q.payload.evd.payload); return true;
	case ppt_trig: m = MP(K_TRIG, q.payload.trig.trbv, q.payload.trig.ip, q.payload.trig.mult,
		q.payload.trig.icntv, q.payload.trig.icntv ? q.payload.trig.icnt : 0); return true;
	default: return false;
	}
}
inline void to_lib(const MP &m, struct pt_packet &q)
{
	memset(&q, 0, sizeof q);
	const uint64_t *f = m.f;
	switch (m.k) {
	case K_PAD: q.type = ppt_pad; break;
	case K_PSB: q.type = ppt_psb; break;
	case K_PSBEND: q.type = ppt_psbend; break;
	case K_OVF: q.type = ppt_ovf; break;
	case K_STOP: q.type = ppt_stop; break;
	case K_TNT8: case K_TNT64: q.type = m.k == K_TNT8 ? ppt_tnt_8 : ppt_tnt_64;
		q.payload.tnt.payload = f[0]; q.payload.tnt.bit_size = (uint8_t) f[1]; break;
	case K_TIP: case K_PGE: case K_PGD: case K_FUP:
		q.type = m.k == K_TIP ? ppt_tip : m.k == K_PGE ? ppt_tip_pge : m.k == K_PGD ? ppt_tip_pgd : ppt_fup;
		q.payload.ip.ipc = (enum pt_ip_compression) f[0]; q.payload.ip.ip = f[1]; break;
	case K_EXEC: q.type = ppt_mode; q.payload.mode.leaf = pt_mol_exec;
		q.payload.mode.bits.exec.csl = f[0] & 1; q.payload.mode.bits.exec.csd = f[1] & 1;
		q.payload.mode.bits.exec.iflag = f[2] & 1; break;
	case K_TSX: q.type = ppt_mode; q.payload.mode.leaf = pt_mol_tsx;
		q.payload.mode.bits.tsx.intx = f[0] & 1; q.payload.mode.bits.tsx.abrt = f[1] & 1; break;
	case K_PIP: q.type = ppt_pip; q.payload.pip.cr3 = f[0]; q.payload.pip.nr = f[1] & 1; break;
	case K_VMCS: q.type = ppt_vmcs; q.payload.vmcs.base = f[0]; break;
	case K_CBR: q.type = ppt_cbr; q.payload.cbr.ratio = (uint8_t) f[0]; break;
	case K_TSC: q.type = ppt_tsc; q.payload.tsc.tsc = f[0]; break;
	case K_TMA: q.type = ppt_tma; q.payload.tma.ctc = (uint16_t) f[0]; q.payload.tma.fc = (uint16_t) f[1]; break;
	case K_MTC: q.type = ppt_mtc; q.payload.mtc.ctc = (uint8_t) f[0]; break;
	case K_CYC: q.type = ppt_cyc; q.payload.cyc.value = f[0]; break;
	case K_MNT: q.type = ppt_mnt; q.payload.mnt.payload = f[0]; break;
	case K_EXSTOP: q.type = ppt_exstop; q.payload.exstop.ip = f[0] & 1; break;
	case K_MWAIT: q.type = ppt_mwait; q.payload.mwait.hints = (uint32_t) f[0]; q.payload.mwait.ext = (uint32_t) f[1]; break;
	case K_PWRE: q.type = ppt_pwre; q.payload.pwre.state = (uint8_t) f[0]; q.payload.pwre.sub_state = (uint8_t) f[1];
		q.payload.pwre.hw = f[2] & 1; break;
	case K_PWRX: q.type = ppt_pwrx; q.payload.pwrx.last = (uint8_t) f[0]; q.payload.pwrx.deepest = (uint8_t) f[1];
		q.payload.pwrx.interrupt = f[2] & 1; q.payload.pwrx.store = f[3] & 1; q.payload.pwrx.autonomous = f[4] & 1; break;
	case K_PTW: q.type = ppt_ptw; q.payload.ptw.plc = (uint8_t) f[0]; q.payload.ptw.ip = f[1] & 1;
		q.payload.ptw.payload = f[2]; break;
	case K_CFE: q.type = ppt_cfe; q.payload.cfe.type = (decltype(q.payload.cfe.type)) f[0]; q.payload.cfe.ip = f[1] & 1;
		q.payload.cfe.vector = (uint8_t) f[2]; break;
	case K_EVD: q.type = ppt_evd; q.payload.evd.type = (decltype(q.payload.evd.type)) f[0]; q.payload.evd.payload = f[1]; break;
	case K_TRIG: q.type = ppt_trig; q.payload.trig.trbv = (uint8_t) f[0]; q.payload.trig.ip = f[1] & 1;
		q.payload.trig.mult = f[2] & 1; q.payload.trig.icntv = f[3] & 1; q.payload.trig.icnt = (uint16_t) f[4]; break;
	}
}

// A random valid packet with a representable payload.
inline MP gen_packet(Rng &r, int k = -1)
{
	if (k < 0) k = (int) r.below(K_NUM);
	auto bit = [&]() { return r.below(2); };
	switch (k) {
	case K_TNT8: { uint64_t n = r.range(1, 6); return MP(k, r.next() & ((1ull << n) - 1), n); }
	case K_TNT64: { uint64_t n = r.range(1, 47); return MP(k, r.wide(64) & ((1ull << n) - 1), n); }
	case K_TIP: case K_PGE: case K_PGD: case K_FUP: {
		static const unsigned v[6] = { 0, 1, 2, 3, 4, 6 };
		unsigned ipc = v[r.below(6)]; int nb = ipbytes(ipc);
		return MP(k, ipc, nb ? r.wide(64) & (nb == 8 ? ~0ull : (1ull << (8 * nb)) - 1) : 0); }
	case K_EXEC: return MP(k, bit(), bit(), bit());
	case K_TSX: return MP(k, bit(), bit());
	case K_PIP: return MP(k, (r.wide(47)) << 5, bit());
	case K_VMCS: return MP(k, r.wide(40) << 12);
	case K_CBR: return MP(k, r.wide(8));
	case K_TSC: return MP(k, r.wide(56));
	case K_TMA: return MP(k, r.wide(16), r.wide(9));
	case K_MTC: return MP(k, r.wide(8));
	case K_CYC: return MP(k, r.wide(64));
	case K_MNT: return MP(k, r.wide(64));
	case K_EXSTOP: return MP(k, bit());
	case K_MWAIT: return MP(k, r.wide(32), r.wide(32));
	case K_PWRE: return MP(k, r.below(16), r.below(16), bit());
	case K_PWRX: return MP(k, r.below(16), r.below(16), bit(), bit(), bit());
	case K_PTW: { uint64_t plc = bit(); return MP(k, plc, bit(), r.wide(plc ? 64 : 32)); }
	case K_CFE: return MP(k, r.below(32), bit(), r.wide(8));
	case K_EVD: return MP(k, r.below(32), r.wide(64));
	case K_TRIG: { uint64_t ic = bit(); return MP(k, r.wide(8), bit(), bit(), ic, ic ? r.wide(16) : 0); }
	default: return MP(k);
	}
}

// A buffer whose end coincides with an inaccessible page: reads (and writes)
// beyond it fault in any build.  The bytes before it carry ASan redzones if
// the copy is on the heap; we use both placements.
struct GuardBuf {
	uint8_t *map = nullptr; size_t len = 0; uint8_t *begin = nullptr; size_t size = 0; bool heap = false;
	GuardBuf(const uint8_t *p, size_t n, bool use_heap) : size(n), heap(use_heap)
	{
		if (heap) { begin = (uint8_t *) malloc(n ? n : 1); if (n) memcpy(begin, p, n); return; }
		size_t pg = 4096; len = (n + pg - 1) / pg * pg + 2 * pg;
		map = (uint8_t *) mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (map == MAP_FAILED) abort();
		begin = map + len - pg - n;
		if (n) memcpy(begin, p, n);
		memset(map, 0xc5, (size_t) (begin - map));
		mprotect(map + len - pg, pg, PROT_NONE);
	}
	~GuardBuf() { if (heap) free(begin); else munmap(map, len); }
	uint8_t *end() const { return begin + size; }
	GuardBuf(const GuardBuf &) = delete;
};

inline std::string errname(int e)
{
	if (e >= 0) return strf("%d", e);
	return strf("-pte(%d)", -e);
}
