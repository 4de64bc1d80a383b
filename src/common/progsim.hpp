// A simulated machine: generated programs, their execution, and the trace an
// Intel PT implementation writes about it, together with the ground truth
// (instructions and events with their places).  Written from the architecture.
#pragma once
#include "evgen.hpp"
#include <algorithm>
#include <deque>

enum XK { X_OTHER, X_PTW, X_JCC, X_JMP, X_CALL, X_IJMP, X_ICALL, X_RET, X_FAR, X_CPL, X_IRET, X_VMENTRY, X_UIRET,
	X_MOVCR3, X_VMPTRLD, X_XBEGIN, X_XEND, X_XABORT, X_MWAIT, X_STI, X_CLI, X_JMPABS };

struct SI {		// a static instruction
	Bytes b; int cls = ptic_other, kind = X_OTHER; uint64_t ip = 0, target = 0; bool disp0 = false;
	size_t tidx = 0; int treg = -1; bool rec = false;	// part of the recursive function
	uint64_t next() const { return ip + b.size(); }
};
struct Region {
	uint64_t va = 0, cr3 = 0; int mode = ptem_64bit; std::vector<SI> in; Bytes bytes;
	std::vector<int> piece;		// piece number per byte
	std::map<uint64_t, size_t> at;
	uint64_t end() const { return va + bytes.size(); }
};
struct Piece { int region; size_t from, to; int how; int isid = 0; };	// how: 0 file, 1 cached, 2 callback
struct LI { int region; size_t idx; bool spec; uint64_t cr3; };	// an executed instruction
struct LE { Ev e; size_t lo, hi; bool cut = false; int resumed = -1; size_t pkt = 0; };
struct PsbRec { size_t off, pos, ev; bool enabled; };

static inline Bytes hexb(const char *s)
{
	Bytes b; for (; *s; s += 2) { char t[3] = { s[0], s[1], 0 }; b.push_back((uint8_t) strtoul(t, 0, 16)); } return b;
}
static const char *const other64[] = { "90", "6690", "0f1f00", "0f1f4000", "0f1f440000", "660f1f440000", "0f1f8000000000",
	"0f1f840000000000", "660f1f840000000000", "4889c3", "48b80102030405060708", "b801020304", "4883c001", "8b0501020304",
	"488b842401020304", "c5f877", "48c784240000000001020304", "31c0", "0fa2", "f3a4", "0f31", "6801020304", "6a01", "f4",
	"6666666666662e0f1f840000000000", "a10102030405060708", "660f3a0fc108", "c4e2710000", "62f17c48100500000000", "66b80102",
	"0f0102", "f20f38f0c1", "67488b0424", "f7c001020304", "f6c001", "c8010200", "0f0b" };
static const char *const other32[] = { "90", "6690", "8d742600", "40", "48", "b801020304", "a101020304", "0501020304", "83c001",
	"c8010200", "60", "27", "c500", "6200", "66b80102", "8b0501020304", "0f1f840000000000", "67a10102", "678b060102", "d40a", "f4" };
static const char *const other16[] = { "90", "40", "b80102", "050102", "66b801020304", "a10102", "67a101020304", "8b060102", "81c00102",
	"8b4601", "8b800102", "678b0424", "c8010200", "60", "66050a0b0c0d", "6a01", "680102", "f4" };

struct ProgSim {
	Rng &r;
	std::vector<Region> reg;
	std::vector<Piece> pieces;
	std::vector<uint64_t> cr3s;
	// trace
	Bytes out; std::vector<std::pair<size_t, MP>> pkts; std::string log; IpEnc ipe;
	std::vector<LI> insns; std::vector<LE> evs; std::vector<PsbRec> psb; size_t endlo = 0; bool abrupt = false;
	// options
	bool iflags = false, events = true, retc = true, multi = false, ptwfup = false, simple = false, timing_only_tsc = true;
	unsigned exotic = 10;	// percent of rare things
	// machine state
	int cr = 0; size_t ci = 0; uint64_t cr3 = 0; bool en = false, spec = false, has_tsc = false; uint64_t tsc = 0;
	std::vector<std::pair<int, size_t>> stk; std::deque<uint64_t> hws;
	uint64_t tnt = 0; unsigned ntnt = 0, maxtnt = 6; size_t lo = 0, q_lo = 0;
	bool mvalid = false; unsigned csl = 0, csd = 0, iflag = 0; int hwmode = -1;
	bool anchor_ok = false; size_t anchor = 0;
	int64_t dis_ip = -1; bool dis_known = false; uint64_t dis_at = 0;
	size_t movcr3_at = 0;	// a suppressed disable could be taken for one at this mov cr3
	int plan_off = 0;
	// deep recursion
	bool deep = false; int drec = -1; size_t reci = 0, reclimit = 100, maxdepth = 0;

	ProgSim(Rng &rng) : r(rng) {}
	const SI &si(const LI &l) const { return reg[(size_t) l.region].in[l.idx]; }
	const SI &cur() const { return reg[(size_t) cr].in[ci]; }
	uint64_t ip() const { return cur().ip; }

	// ------------------------------------------------------------ program
	static void imm(Bytes &b, uint64_t v, int n) { put(b, v, n); }
	SI mk(const Bytes &b, int cls, int kind) { SI s; s.b = b; s.cls = cls; s.kind = kind; return s; }
	SI mkx(const char *h, int cls, int kind) { return mk(hexb(h), cls, kind); }
	SI other(int mode)
	{
		if (mode == ptem_64bit) return mkx(other64[r.below(sizeof other64 / sizeof *other64)], ptic_other, X_OTHER);
		if (mode == ptem_32bit) return mkx(other32[r.below(sizeof other32 / sizeof *other32)], ptic_other, X_OTHER);
		return mkx(other16[r.below(sizeof other16 / sizeof *other16)], ptic_other, X_OTHER);
	}
	SI far(int mode)
	{
		if (mode == ptem_64bit) switch (r.below(14)) {
		case 0: case 1: return mkx("0f05", ptic_far_call, X_CPL);
		case 2: return mkx("480f07", ptic_far_return, X_IRET);
		case 3: return mkx("cd80", ptic_far_call, X_CPL);
		case 4: return mkx("cc", ptic_far_call, X_CPL);
		case 5: return mkx("48cf", ptic_far_return, X_IRET);
		case 6: return mkx("cb", ptic_far_return, X_FAR);
		case 7: return mkx("ff28", ptic_far_jump, X_FAR);
		case 8: return mkx("ff18", ptic_far_call, X_FAR);
		case 9: return mkx("0f01c2", ptic_far_return, X_VMENTRY);
		case 10: return mkx("0f01c3", ptic_far_return, X_VMENTRY);
		case 11: return mkx("0f01c1", ptic_far_call, X_FAR);
		case 12: return mkx("f30f01ec", ptic_far_return, X_UIRET);
		default: return r.chance(50) ? mkx("f20f01ca", ptic_far_return, X_IRET) : mkx("f30f01ca", ptic_far_return, X_IRET);
		}
		if (mode == ptem_32bit) switch (r.below(7)) {
		case 0: return mkx("9a010203040500", ptic_far_call, X_FAR);
		case 1: return mkx("ea010203040500", ptic_far_jump, X_FAR);
		case 2: return mkx("cd80", ptic_far_call, X_CPL);
		case 3: return mkx("0f34", ptic_far_call, X_CPL);
		case 4: return mkx("cf", ptic_far_return, X_IRET);
		case 5: return mkx("ca0400", ptic_far_return, X_FAR);
		default: return mkx("ff2b", ptic_far_jump, X_FAR);
		}
		switch (r.below(4)) {
		case 0: return mkx("9a01020304", ptic_far_call, X_FAR);
		case 1: return mkx("ea01020304", ptic_far_jump, X_FAR);
		case 2: return mkx("cd21", ptic_far_call, X_CPL);
		default: return mkx("cf", ptic_far_return, X_IRET);
		}
	}
	SI indirect(int mode, bool call)
	{
		if (call) return mkx(mode == ptem_64bit && r.chance(40) ? "ff1501020304" : r.chance(50) ? "ffd0" : "ff10", ptic_call, X_ICALL);
		if (mode == ptem_64bit && r.chance(8)) { Bytes b = hexb("d500a1"); imm(b, r.next(), 8); return mk(b, ptic_jump, X_JMPABS); }
		return mkx(mode == ptem_64bit && r.chance(40) ? "ff2501020304" : r.chance(50) ? "ffe0" : "ff20", ptic_jump, X_IJMP);
	}
	SI ret(int mode) { return r.chance(80) ? mkx("c3", ptic_return, X_RET) : mkx("c20800", ptic_return, X_RET); (void) mode; }
	// Direct branches get their displacement once everything is laid out.
	void gen_region(Region &g, bool kernel)
	{
		int n = (int) (simple ? r.range(10, 60) : r.range(8, 120));
		int mode = g.mode;
		unsigned wbr = (unsigned) r.range(20, 60);
		for (int i = 0; i < n; ++i) {
			SI s;
			if (i == n - 1) s = r.chance(60) ? ret(mode) : indirect(mode, false);
			else if (!r.chance(wbr)) s = other(mode);
			else switch (r.below(20)) {
			case 0: case 1: case 2: case 3: case 4: case 5: {	// jcc
				int d = mode == ptem_16bit ? 2 : 4;
				if (r.chance(60)) { Bytes b; b.push_back((uint8_t) (0x70 + r.below(16))); if (r.chance(15)) b[0] = (uint8_t) (0xe0 + r.below(4)); b.push_back(0); s = mk(b, ptic_cond_jump, X_JCC); }
				else { Bytes b = { 0x0f, (uint8_t) (0x80 + r.below(16)) }; imm(b, 0, d); s = mk(b, ptic_cond_jump, X_JCC); }
				break; }
			case 6: case 7: { int d = mode == ptem_16bit ? 2 : 4; Bytes b; if (r.chance(50)) b = { 0xeb, 0 }; else { b = { 0xe9 }; imm(b, 0, d); } s = mk(b, ptic_jump, X_JMP); break; }
			case 8: case 9: case 10: { int d = mode == ptem_16bit ? 2 : 4; Bytes b = { 0xe8 }; imm(b, 0, d); s = mk(b, ptic_call, X_CALL); break; }
			case 11: case 12: s = ret(mode); break;
			case 13: s = indirect(mode, false); break;
			case 14: s = indirect(mode, true); break;
			case 15: if (!simple || r.chance(50)) { s = far(mode); break; } s = other(mode); break;
			case 16: if (mode == ptem_64bit && events) { s = r.chance(50) ? mkx("f30faee0", ptic_ptwrite, X_PTW) : mkx("f3480faee0", ptic_ptwrite, X_PTW); break; } s = other(mode); break;
			case 17:
				if (kernel && mode == ptem_64bit) switch (r.below(4)) {
				case 0: case 1: s = mkx("0f22d8", ptic_other, X_MOVCR3); break;
				case 2: s = mkx("0fc730", ptic_other, X_VMPTRLD); break;
				default: s = mkx(r.chance(50) ? "fb" : "fa", ptic_other, 0); s.kind = s.b[0] == 0xfb ? X_STI : X_CLI; break;
				} else s = other(mode);
				break;
			case 18:
				if (mode == ptem_64bit) switch (r.below(4)) {
				case 0: case 1: { Bytes b = hexb("c7f8"); imm(b, r.next(), 4); s = mk(b, ptic_other, X_XBEGIN); break; }
				case 2: s = mkx("0f01d5", ptic_other, X_XEND); break;
				default: s = mkx("c6f801", ptic_other, X_XABORT); break;
				} else s = other(mode);
				break;
			default: if (mode == ptem_64bit && kernel && events) s = mkx("0f01c9", ptic_other, X_MWAIT); else s = other(mode); break;
			}
			g.in.push_back(s);
		}
	}
	void layout(Region &g)
	{
		uint64_t a = g.va;
		for (size_t i = 0; i < g.in.size(); ++i) { g.in[i].ip = a; g.at[a] = i; a += g.in[i].b.size(); }
	}
	void link(int gi)
	{
		Region &g = reg[(size_t) gi];
		for (size_t i = 0; i < g.in.size(); ++i) {
			SI &s = g.in[i];
			if (s.kind != X_JCC && s.kind != X_JMP && s.kind != X_CALL) continue;
			bool rel8 = s.b.size() == 2 && s.b[0] != 0xe8;
			if (s.rec) {
				s.treg = gi; s.tidx = s.kind == X_CALL ? i - 1 : i + 2; s.target = g.in[s.tidx].ip;
			} else if (s.kind == X_CALL && r.chance(12)) {		// call to the next instruction
				s.treg = gi; s.tidx = i + 1; s.target = s.next(); s.disp0 = true;
			} else for (int tries = 0; ; ++tries) {
				int tg = gi; size_t ti;
				if (!rel8 && g.mode != ptem_16bit && tries < 4 && r.chance(35)) {
					tg = (int) r.below(reg.size());
					Region &t = reg[(size_t) tg];
					bool high = s.kind == X_JCC || t.va > g.va;
					if (t.mode != g.mode || !high || (t.cr3 && t.cr3 != g.cr3)) continue;
					int64_t d = (int64_t) (t.va - s.next()); if (d > 0x70000000ll || d < -0x70000000ll) continue;
					ti = r.below(t.in.size());
				} else if (s.kind == X_JCC && r.chance(50)) {
					ti = r.below(g.in.size());
				} else {	// forward
					if (i + 1 >= g.in.size()) { ti = g.in.size() - 1; }
					ti = i + 1 + r.below(std::min<size_t>(g.in.size() - i - 1, rel8 ? 12 : g.in.size()));
					if (ti >= g.in.size()) ti = g.in.size() - 1;
				}
				uint64_t t = reg[(size_t) tg].in[ti].ip;
				int64_t d = (int64_t) (t - s.next());
				if (rel8 && (d > 127 || d < -128)) { if (tries > 20) { ti = i + 1; d = 0; t = s.next(); tg = gi; } else continue; }
				s.treg = tg; s.tidx = ti; s.target = t; s.disp0 = d == 0;
				break;
			}
			int64_t d = (int64_t) (s.target - s.next());
			size_t n = rel8 ? 1 : g.mode == ptem_16bit ? 2 : 4;
			for (size_t k = 0; k < n; ++k) s.b[s.b.size() - n + k] = (uint8_t) ((uint64_t) d >> (8 * k));
		}
		g.bytes.clear();
		for (auto &s : g.in) g.bytes.insert(g.bytes.end(), s.b.begin(), s.b.end());
	}
	// Make some direct jumps and calls go backwards, avoiding loops that need no trace.
	void backward(int gi)
	{
		Region &g = reg[(size_t) gi];
		for (size_t i = 1; i < g.in.size(); ++i) {
			SI &s = g.in[i];
			if ((s.kind != X_JMP && s.kind != X_CALL) || s.rec || !r.chance(40)) continue;
			size_t ti = r.below(i); bool rel8 = s.b[0] == 0xeb;
			int64_t d = (int64_t) (g.in[ti].ip - s.next());
			if (rel8 && d < -128) continue;
			int a = gi; size_t b = ti; bool ok = false;
			for (int k = 0; k < 20000; ++k) {
				if (a == gi && b == i) break;
				const SI &x = reg[(size_t) a].in[b];
				if (x.kind == X_JMP || x.kind == X_CALL) { a = x.treg; b = x.tidx; continue; }
				if (x.cls == ptic_other || x.cls == ptic_ptwrite) { b++; continue; }
				ok = true; break;
			}
			if (!ok) continue;
			s.treg = gi; s.tidx = ti; s.target = g.in[ti].ip; s.disp0 = false;
			size_t n = rel8 ? 1 : g.mode == ptem_16bit ? 2 : 4;
			for (size_t k = 0; k < n; ++k) s.b[s.b.size() - n + k] = (uint8_t) ((uint64_t) d >> (8 * k));
		}
		g.bytes.clear();
		for (auto &s : g.in) g.bytes.insert(g.bytes.end(), s.b.begin(), s.b.end());
	}
	void gen_program()
	{
		int np = multi ? (int) r.range(2, 3) : 1;
		for (int i = 0; i < np; ++i) cr3s.push_back((r.range(1, 1000) * 16 + (uint64_t) i) << 12);
		uint64_t kbase = r.chance(70) ? 0xffffffff80000000ull + r.below(1 << 20) : 0x7f0000000000ull + r.below(1 << 20);
		int nk = (int) r.range(1, 2);
		for (int i = 0; i < nk; ++i) { Region g; g.va = kbase + (uint64_t) i * 0x10000 + r.below(0x100); g.mode = ptem_64bit; reg.push_back(g); gen_region(reg.back(), true); }
		uint64_t ubase = r.chance(50) ? 0x400000 + r.below(0x1000) : r.chance(50) ? 0x555555550000ull + r.below(0x1000) : (r.wide(30) & ~0xffull) + 0x1000;
		int nu = (int) r.range(1, 2);
		for (int p = 0; p < np; ++p)
			for (int i = 0; i < nu; ++i) {
				Region g; g.cr3 = multi ? cr3s[(size_t) p] : 0; g.va = ubase + (uint64_t) i * 0x8000 + (multi ? r.below(4) : 0);
				g.mode = ptem_64bit;
				reg.push_back(g); gen_region(reg.back(), false);
			}
		if (r.chance(35)) { Region g; g.va = 0x8049000 + 0x40000000 + r.below(64); g.mode = ptem_32bit; reg.push_back(g); gen_region(reg.back(), false); }
		if (r.chance(20)) { Region g; g.va = 0x4000 + r.below(64); g.mode = ptem_16bit; reg.push_back(g); gen_region(reg.back(), false);
			for (auto &x : reg) if (&x != &reg.back() && x.va < 0x20000) x.va += 0x20000; }
		if (deep) {	// a function that calls itself
			do drec = (int) r.below(reg.size()); while (reg[(size_t) drec].mode == ptem_16bit);
			Region &g = reg[(size_t) drec]; reci = r.below(g.in.size());
			SI j = mkx("7400", ptic_cond_jump, X_JCC), c = mkx("e800000000", ptic_call, X_CALL), t = mkx("c3", ptic_return, X_RET); j.rec = c.rec = true;
			const SI q[] = { j, c, t }; g.in.insert(g.in.begin() + (long) reci, q, q + 3);
		}
		for (auto &g : reg) layout(g);
		for (size_t i = 0; i < reg.size(); ++i) link((int) i);
		for (size_t i = 0; i < reg.size(); ++i) backward((int) i);
	}
	// How the code is put into the image.
	void gen_pieces()
	{
		int style = (int) r.below(6);
		for (size_t i = 0; i < reg.size(); ++i) {
			Region &g = reg[i];
			std::vector<size_t> cut = { 0 };
			if (style >= 2) { int n = (int) r.below(style == 5 ? 12 : 4); while (n--) { size_t c = 1 + r.below(g.bytes.size() - 1); cut.push_back(c); } }
			cut.push_back(g.bytes.size());
			std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
			g.piece.assign(g.bytes.size(), 0);
			for (size_t k = 0; k + 1 < cut.size(); ++k) {
				Piece p; p.region = (int) i; p.from = cut[k]; p.to = cut[k + 1];
				p.how = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? 2 : (int) r.below(g.cr3 ? 2 : 3);
				if (p.how == 2 && g.cr3) p.how = 1;
				for (size_t b = p.from; b < p.to; ++b) g.piece[b] = (int) pieces.size();
				pieces.push_back(p);
			}
		}
	}
	int isid_of(const LI &l) const { const Region &g = reg[(size_t) l.region]; return pieces[(size_t) g.piece[si(l).ip - g.va]].isid; }
	// The instruction starts in one section but does not end there.
	bool truncated(const LI &l) const
	{
		const Region &g = reg[(size_t) l.region]; const SI &s = si(l);
		if (g.piece.empty()) return false;
		int a = g.piece[s.ip - g.va], b = g.piece[s.next() - 1 - g.va];
		return a != b && pieces[(size_t) a].how != 2;
	}

	// ------------------------------------------------------------ tracing
	void emit(const MP &p) { pkts.push_back({ out.size(), p }); mencode(p, out); log += p.str() + " "; }
	void flush()
	{
		if (!ntnt) { lo = std::max(lo, q_lo); return; }
		if (ntnt <= 6 && r.chance(90)) emit(MP(K_TNT8, tnt, ntnt)); else emit(MP(K_TNT64, tnt, ntnt));
		tnt = 0; ntnt = 0; lo = q_lo;
		maxtnt = r.chance(85) ? 6 : (unsigned) r.range(1, 47);
	}
	void ev(int type, std::vector<uint64_t> f, bool exact, bool sup = false, bool status = false)
	{
		LE x; x.e.type = type; x.e.f = std::move(f); x.e.sup = sup; x.e.status = status; x.e.has_tsc = has_tsc; x.e.tsc = has_tsc ? tsc : 0;
		x.hi = insns.size(); x.lo = exact ? x.hi : std::min(lo, x.hi); x.pkt = pkts.size() - 1;
		if (!en) x.lo = x.hi;
		if (exact) lo = x.hi;
		evs.push_back(x);
	}
	void evip(int type, std::vector<uint64_t> f, uint64_t a, bool sup = false, bool status = false) { if (!sup) f.push_back(a); ev(type, std::move(f), true, sup, status); }
	void bit(bool t)
	{
		tnt = tnt << 1 | t; ntnt++; q_lo = insns.size(); anchor = q_lo; anchor_ok = true;
		if (ntnt >= maxtnt) flush();
	}
	// The IP that was reached by a TIP.
	void tip(uint64_t a) { flush(); emit(ipe.enc(r, K_TIP, a)); lo = q_lo = insns.size(); anchor = lo; anchor_ok = true; }
	void maybe_tsc(unsigned pct = 5)
	{
		if (r.chance(pct)) { if (r.chance(70)) flush(); tsc = (tsc + r.wide(16)) & ((1ull << 56) - 1); has_tsc = true; emit(MP(K_TSC, tsc)); }
		if (r.chance(pct)) emit(MP(K_PAD));
	}
	static unsigned model(int m) { return m == ptem_64bit; }
	static unsigned moded(int m) { return m == ptem_32bit; }
	struct Bound { int type; std::vector<uint64_t> f; };
	std::vector<Bound> mode_exec(int m)
	{
		unsigned l = model(m), d = moded(m);
		if (!iflags) iflag = (unsigned) r.below(2);
		emit(MP(K_EXEC, l, d, iflag));
		std::vector<Bound> b;
		if (!mvalid || l != csl || d != csd) b.push_back({ ptev_exec_mode, { (uint64_t) m } });
		if (iflags && (!mvalid || iflag != sent_if)) b.push_back({ ptev_iflags, { iflag } });
		csl = l; csd = d; mvalid = true; sent_if = iflag; hwmode = m;
		return b;
	}
	unsigned sent_if = 2;
	uint64_t vmcs = 0;
	void float_events()
	{
		flush();
		switch (r.below(events ? 4 : 2)) {
		case 0: { uint64_t c = r.range(1, 255); emit(MP(K_CBR, c)); ev(ptev_cbr, { c }, false); break; }
		case 1: { uint64_t m = r.wide(64); emit(MP(K_MNT, m)); ev(ptev_mnt, { m }, false); break; }
		case 2: { MP p = gen_packet(r, K_PWRE); emit(p); ev(ptev_pwre, { p.f[0], p.f[1], p.f[2] }, false); break; }
		case 3: { MP p = gen_packet(r, K_PWRX); emit(p); ev(ptev_pwrx, { p.f[0], p.f[1], p.f[2], p.f[3], p.f[4] }, false); break; }
		}
	}
	void psb_plus()
	{
		flush(); hws.clear();
		psb.push_back({ out.size(), insns.size(), evs.size(), en });
		emit(MP(K_PSB)); ipe.last = 0; anchor_ok = false;
		bool use_pip = multi || r.chance(30);
		int items[8], n = 0;
		items[n++] = 1;
		if (use_pip) items[n++] = 3;
		if (spec || r.chance(30)) items[n++] = 2;
		if (r.chance(40)) items[n++] = 0;
		if (vmcs || r.chance(20)) items[n++] = 4;
		if (r.chance(10)) items[n++] = 5;
		if (en) items[n++] = 6;
		// once there is time, every PSB+ has it
		if (has_tsc || psb.size() == 1 && r.chance(60)) items[n++] = 7;
		for (int i = n - 1; i > 0; --i) std::swap(items[i], items[r.below((uint64_t) i + 1)]);
		uint64_t at = en ? ip() : 0; struct B2 { int type; std::vector<uint64_t> f; int st; }; std::vector<B2> b;
		for (int i = 0; i < n; ++i) switch (items[i]) {
		case 0: { uint64_t c = r.range(1, 255); emit(MP(K_CBR, c)); b.push_back({ ptev_cbr, { c }, 1 }); break; }
		case 1: {
			int m = hwmode; if (en || m < 0) { m = reg[(size_t) cr].mode; }
			if (!iflags) iflag = (unsigned) r.below(2);
			emit(MP(K_EXEC, model(m), moded(m), iflag)); csl = model(m); csd = moded(m); mvalid = true; sent_if = iflag; hwmode = m;
			b.push_back({ ptev_exec_mode, { (uint64_t) m }, 2 }); if (iflags) b.push_back({ ptev_iflags, { iflag }, 2 });
			break; }
		case 2: emit(MP(K_TSX, spec, 0)); b.push_back({ ptev_tsx, { spec, 0 }, 2 }); break;
		case 3: { uint64_t nr = r.below(2); emit(MP(K_PIP, cr3, nr)); b.push_back({ ptev_async_paging, { cr3, nr }, 2 }); break; }
		case 4: if (!vmcs) vmcs = r.wide(30) << 12; emit(MP(K_VMCS, vmcs)); b.push_back({ ptev_async_vmcs, { vmcs }, 2 }); break;
		case 5: { uint64_t m = r.wide(64); emit(MP(K_MNT, m)); b.push_back({ ptev_mnt, { m }, 0 }); break; }
		case 6: emit(ipe.enc(r, K_FUP, at)); break;
		case 7: tsc = (tsc + r.wide(16)) & ((1ull << 56) - 1); has_tsc = true; emit(MP(K_TSC, tsc)); break;
		}
		emit(MP(K_PSBEND));
		if (en) { ev(ptev_enabled, { at }, false, false, true); } else ev(ptev_disabled, {}, false, true, true);
		for (auto &x : b) {
			if (x.st == 2) { auto f = x.f; if (en) f.push_back(at); ev(x.type, f, en, !en, true); }
			else ev(x.type, x.f, false, false, x.st != 0);
		}
	}
	// ------------------------------------------------------------ machine
	void go(int g, size_t i) { cr = g; ci = i; }
	// A random place that is mapped now.
	void pick(int mode, int &g, size_t &i)
	{
		if (deep && r.chance(60) && visible(drec) && (mode < 0 || reg[(size_t) drec].mode == mode)) { g = drec; i = reci; return; }
		for (;;) {
			g = (int) r.below(reg.size()); Region &t = reg[(size_t) g];
			if (mode >= 0 && t.mode != mode) continue;
			if (t.cr3 && t.cr3 != cr3) continue;
			i = r.below(t.in.size()); return;
		}
	}
	uint64_t addr(int g, size_t i) { return reg[(size_t) g].in[i].ip; }
	void step_over() { ci++; }
	bool visible(int g) { return !reg[(size_t) g].cr3 || reg[(size_t) g].cr3 == cr3; }

	void disabled_now(bool known, uint64_t at) { en = false; hws.clear(); anchor_ok = false; dis_known = known; dis_at = at; spec = false; }
	// The packets between disable and enable.
	void untraced()
	{
		int n = (int) r.below(4);
		while (n--) switch (r.below(8)) {
		case 0: emit(MP(K_STOP)); ev(ptev_stop, {}, false); break;
		case 1: if (multi) break; { uint64_t nr = r.below(2); emit(MP(K_PIP, cr3, nr)); ev(ptev_paging, { cr3, nr }, false); break; }
		case 2: float_events(); break;
		case 3: psb_plus(); break;
		case 4: if (events) { emit(MP(K_EXSTOP, 0)); ev(ptev_exstop, {}, false, true); } break;
		case 5: maybe_tsc(90); break;
		case 6: if (events && r.chance(50)) { uint64_t t = r.wide(8), m = r.below(2), a = r.chance(50) ? r.wide(47) | 1 : 0x400000; emit(MP(K_TRIG, t, 1, m, 1, 0)); emit(ipe.enc(r, K_FUP, a)); ev(ptev_trig, { t, m, 0 }, false); }
			else if (events) { uint64_t t = r.wide(8), m = r.below(2); emit(MP(K_TRIG, t, 0, m, 0, 0)); ev(ptev_trig, { t, m, 0 }, false, true); } break;
		case 7: if (r.chance(20)) { emit(MP(K_OVF)); mvalid = false; ipe.last = 0; ev(ptev_overflow, {}, false, true); dis_known = false; if (r.chance(50)) { psb_plus(); } else { emit(MP(K_STOP)); ev(ptev_stop, {}, false); } } break;
		}
	}
	void enable()
	{
		// where tracing resumes
		if (multi && r.chance(40)) {
			cr3 = cr3s[r.below(cr3s.size())]; uint64_t nr = r.below(2);
			emit(MP(K_PIP, cr3, nr)); ev(ptev_paging, { cr3, nr }, false);
		}
		int g = -1; size_t i = 0; bool resume = false;
		if (dis_known && r.chance(50)) for (size_t k = 0; k < reg.size(); ++k) if (visible((int) k) && reg[k].mode == hwmode && reg[k].at.count(dis_at)) { g = (int) k; i = reg[k].at[dis_at]; resume = true; break; }
		if (g < 0) pick(-1, g, i);
		int m = reg[(size_t) g].mode; uint64_t a = addr(g, i);
		std::vector<Bound> b;
		if (m != hwmode || !mvalid || r.chance(20)) b = mode_exec(m);
		emit(ipe.enc(r, K_PGE, a)); go(g, i);
		ev(ptev_enabled, { a }, true); evs.back().resumed = dis_known ? (a == dis_at) : -1; (void) resume;
		en = true; lo = q_lo = insns.size(); anchor = lo; anchor_ok = true; stk.clear();
		for (auto &x : b) evip(x.type, x.f, a);
	}
	void off_and_on() { untraced(); enable(); }
	// Disable tracing at the instruction just executed.
	void disable_sync(bool sup, uint64_t target, bool known, uint64_t resume)
	{
		flush();
		emit(sup ? IpEnc::none(K_PGD) : ipe.enc(r, K_PGD, target));
		std::vector<uint64_t> f; if (!sup) f.push_back(target);
		ev(ptev_disabled, f, true, sup);
		disabled_now(known, resume); off_and_on();
	}
	// Asynchronous transfer from the current instruction.
	void async_transfer(bool abort_tx)
	{
		flush();
		uint64_t from = ip(); std::vector<Bound> post;
		if (abort_tx) { emit(MP(K_TSX, 0, 1)); }
		int cfe = -1; uint64_t vec = r.wide(8);
		if (!abort_tx && events && r.chance(40)) {
			static const int k[] = { pt_cfe_intr, pt_cfe_smi, pt_cfe_init, pt_cfe_vmexit, pt_cfe_uintr };
			cfe = k[r.below(5)]; emit(MP(K_CFE, (uint64_t) cfe, 0, vec));
		}
		emit(ipe.enc(r, K_FUP, from));
		if (abort_tx) { evip(ptev_tsx, { 0, 1 }, from); spec = false; }
		switch (cfe) {
		case pt_cfe_intr: evip(ptev_interrupt, { vec, 0 }, from); break;
		case pt_cfe_smi: evip(ptev_smi, {}, from); break;
		case pt_cfe_init: evip(ptev_init, {}, from); break;
		case pt_cfe_vmexit: evip(ptev_vmexit, { 0, 0, 0 }, from); break;
		case pt_cfe_uintr: evip(ptev_uintr, { vec }, from); break;
		}
		bool pgd = !abort_tx && r.chance(20);
		if (pgd) {
			bool sup = r.chance(60); uint64_t t = r.chance(50) ? from + 0x100000 : 0x1000;
			emit(sup ? IpEnc::none(K_PGD) : ipe.enc(r, K_PGD, t));
			evip(ptev_async_disabled, { from }, t, sup);
			disabled_now(true, from); off_and_on();
			return;
		}
		uint64_t ocr3 = cr3;
		if (multi && !abort_tx && r.chance(30)) {
			cr3 = cr3s[r.below(cr3s.size())]; uint64_t nr = r.below(2);
			emit(MP(K_PIP, cr3, nr)); post.push_back({ ptev_async_paging, { cr3, nr } });
		}
		(void) ocr3;
		if (!abort_tx && r.chance(8)) { vmcs = r.wide(30) << 12; emit(MP(K_VMCS, vmcs)); Bound b{ ptev_async_vmcs, { vmcs } };
			// VMCS events come first
			post.insert(post.begin(), b); }
		int g; size_t i; pick(abort_tx ? reg[(size_t) cr].mode : -1, g, i);
		int m = reg[(size_t) g].mode;
		if (!visible(g)) abort();
		if (m != reg[(size_t) cr].mode || (!abort_tx && r.chance(10))) { auto b = mode_exec(m); post.insert(post.end(), b.begin(), b.end()); }
		uint64_t to = addr(g, i);
		emit(ipe.enc(r, K_TIP, to));
		ev(ptev_async_branch, { from, to }, true);
		lo = q_lo = insns.size(); anchor = lo; anchor_ok = true;
		go(g, i);
		for (auto &x : post) { evip(x.type, x.f, to); if (x.type == ptev_async_vmcs || x.type == ptev_exec_mode) {} }
		if (r.chance(50)) stk.clear();
	}
	void lost(int n) { while (n--) { int g; size_t i; if (r.chance(30)) { pick(reg[(size_t) cr].mode, g, i); go(g, i); } } }
	void overflow()
	{
		// what was not written yet is lost
		tnt = 0; ntnt = 0; q_lo = lo;
		hws.clear(); mvalid = false; ipe.last = 0; spec = false;
		emit(MP(K_OVF));
		if (r.chance(60)) {
			int g; size_t i; pick(reg[(size_t) cr].mode, g, i); go(g, i);
			uint64_t a = ip();
			emit(ipe.enc(r, K_FUP, a));
			ev(ptev_overflow, { a }, false);
			evs.back().cut = true; evs.back().pkt--;
			lo = q_lo = insns.size(); anchor = lo; anchor_ok = true; stk.clear();
			if (r.chance(30)) psb_plus();
			return;
		}
		ev(ptev_overflow, {}, false, true); evs.back().cut = true;
		disabled_now(false, 0); lo = q_lo = insns.size();
		if (r.chance(50)) { emit(MP(K_STOP)); ev(ptev_stop, {}, false); }
		else psb_plus();
		off_and_on();
	}
	// Events that carry the IP of the current instruction.
	void fup_bound()
	{
		flush(); uint64_t a = ip();
		switch (r.below(5)) {
		case 0: emit(MP(K_EXSTOP, 1)); emit(ipe.enc(r, K_FUP, a)); evip(ptev_exstop, {}, a); anchor = insns.size(); anchor_ok = true; break;
		case 1: { uint64_t t = r.wide(8), m = r.below(2); emit(MP(K_TRIG, t, 1, m, 1, 0)); emit(ipe.enc(r, K_FUP, a)); ev(ptev_trig, { t, m, 0 }, true); anchor = insns.size(); anchor_ok = true; break; }
		case 2: case 3: {
			if (!anchor_ok || insns.size() < anchor || insns.size() - anchor > 0xffff) break;
			uint64_t t = r.wide(8), m = r.below(2);
			emit(MP(K_TRIG, t, 0, m, 1, insns.size() - anchor)); ev(ptev_trig, { t, m, 0 }, true); anchor = insns.size(); break; }
		case 4: { emit(MP(K_CFE, pt_cfe_shutdown, 1, 0)); emit(ipe.enc(r, K_FUP, a)); evip(ptev_shutdown, {}, a); anchor = insns.size(); anchor_ok = true; break; }
		}
	}
	// Between two instructions.
	void between()
	{
		maybe_tsc(2);
		if (!r.chance(exotic)) return;
		switch (r.below(10)) {
		case 0: case 1: if (spec) async_transfer(true); else async_transfer(false); break;
		case 2: case 3: psb_plus(); break;
		case 4: if (r.chance(40)) overflow(); break;
		case 5: case 6: float_events(); break;
		default: if (events) fup_bound(); break;
		}
	}
	void far_transfer(const SI &s)
	{
		bool off = r.chance(12);
		std::vector<Bound> b;
		flush();
		if (movcr3_at && lo <= movcr3_at) off = false;
		if (s.kind == X_VMENTRY && r.chance(60)) {
			uint64_t nr = 1; uint64_t nv = r.wide(30) << 12;
			if (events && r.chance(60)) {
				if (r.chance(50)) { emit(MP(K_CFE, pt_cfe_vmentry, 0, 0)); ev(ptev_vmentry, {}, true, true); }
				else { emit(MP(K_CFE, pt_cfe_vmentry, 1, 0)); emit(ipe.enc(r, K_FUP, s.ip)); ev(ptev_vmentry, { s.ip }, true); }
			}
			if (r.chance(50)) { emit(MP(K_PIP, cr3, nr)); ev(ptev_paging, { cr3, nr }, true); }
			if (r.chance(50)) { vmcs = nv; emit(MP(K_VMCS, nv)); ev(ptev_vmcs, { nv }, true); }
		} else {
			if ((s.kind == X_IRET || s.kind == X_UIRET) && events && r.chance(50)) {
				int t = s.kind == X_IRET ? (int) ptev_iret : (int) ptev_uiret, c = s.kind == X_IRET ? (int) pt_cfe_iret : (int) pt_cfe_uiret;
				if (r.chance(50)) { emit(MP(K_CFE, (uint64_t) c, 0, 0)); ev(t, {}, true, true); }
				else { emit(MP(K_CFE, (uint64_t) c, 1, 0)); emit(ipe.enc(r, K_FUP, s.ip)); ev(t, { s.ip }, true); }
			}
			if ((multi || r.chance(10)) && r.chance(30)) {
				cr3 = cr3s[r.below(cr3s.size())]; uint64_t nr = r.below(2);
				emit(MP(K_PIP, cr3, nr)); ev(ptev_paging, { cr3, nr }, true);
			}
		}
		if (off) {
			bool call = s.cls == ptic_far_call;
			disable_sync(true, 0, call, s.next());
			return;
		}
		int g; size_t i; pick(-1, g, i);
		int m = reg[(size_t) g].mode; uint64_t a = addr(g, i);
		if (m != reg[(size_t) cr].mode || r.chance(10)) b = mode_exec(m);
		tip(a); go(g, i);
		for (auto &x : b) evip(x.type, x.f, a);
		if (r.chance(60)) stk.clear();
	}
	void hw_push(uint64_t a) { hws.push_back(a); maxdepth = std::max(maxdepth, hws.size()); if (hws.size() > 64) hws.pop_front(); }
	unsigned bias = 50;
	void exec()
	{
		const SI s = cur();
		if (spec && (s.kind == X_XABORT || s.kind == X_FAR || s.kind == X_CPL || s.kind == X_IRET || s.kind == X_VMENTRY || s.kind == X_UIRET ||
			s.kind == X_MOVCR3 || s.kind == X_VMPTRLD || s.kind == X_MWAIT || s.kind == X_STI || s.kind == X_CLI || s.kind == X_PTW)) { async_transfer(true); return; }
		insns.push_back({ cr, ci, spec, cr3 });
		bool off = !spec && r.below(1000) < 8;
		auto ambig = [&](uint64_t t) {	// an earlier direct branch could be taken for the one that left
			for (size_t k = std::min(lo, q_lo); k < insns.size(); ++k) { const SI &x = si(insns[k]); if (k + 1 < insns.size() && (x.kind == X_JMP || x.kind == X_CALL) && x.target == t) return true;
				// nor is the target a place that is traced: the disable is the address filter's
				if (x.ip == t) return true; }
			return false;
		};
		switch (s.kind) {
		case X_OTHER: case X_XABORT: step_over(); break;
		case X_PTW: {
			flush(); uint64_t v = s.b.size() == 5 ? r.wide(64) : r.wide(32); uint64_t plc = s.b.size() == 5;
			emit(MP(K_PTW, plc, ptwfup, v));
			if (ptwfup) { emit(ipe.enc(r, K_FUP, s.ip)); ev(ptev_ptwrite, { plc ? 8ull : 4ull, v, s.ip }, true); anchor_ok = false; }
			else ev(ptev_ptwrite, { plc ? 8ull : 4ull, v }, true, true);
			step_over();
			break; }
		case X_JCC: {
			bool t = r.chance(bias);
			if (s.rec) { t = stk.size() >= reclimit; if (t) reclimit = (size_t) (r.chance(50) ? r.range(60, 70) : r.range(1, 150)); }
			if (off && t && !ambig(s.target)) { disable_sync(false, s.target, false, 0); return; }
			bit(t); if (t) go(s.treg, s.tidx); else step_over();
			break; }
		case X_JMP:
			if (off && !ambig(s.target)) { disable_sync(false, s.target, true, s.target); return; }
			go(s.treg, s.tidx); break;
		case X_CALL:
			if (off && !s.disp0 && !ambig(s.target)) { disable_sync(false, s.target, false, 0); return; }
			if (!s.disp0) { hw_push(s.next()); stk.push_back({ cr, ci + 1 }); if (stk.size() > 200) stk.erase(stk.begin()); }
			go(s.treg, s.tidx); break;
		case X_ICALL: {
			int g; size_t i; pick(reg[(size_t) cr].mode, g, i);
			if (off && !ambig(addr(g, i))) { disable_sync(false, addr(g, i), true, s.next()); return; }
			hw_push(s.next()); stk.push_back({ cr, ci + 1 }); if (stk.size() > 200) stk.erase(stk.begin());
			tip(addr(g, i)); go(g, i); break; }
		case X_IJMP: case X_JMPABS: {
			int g; size_t i; pick(reg[(size_t) cr].mode, g, i);
			if (off && !ambig(addr(g, i))) { disable_sync(false, addr(g, i), false, 0); return; }
			tip(addr(g, i)); go(g, i); break; }
		case X_RET: {
			int g; size_t i; bool top = false;
			if (!stk.empty() && (deep || r.chance(90)) && visible(stk.back().first) && reg[(size_t) stk.back().first].mode == reg[(size_t) cr].mode &&
				stk.back().second < reg[(size_t) stk.back().first].in.size()) { g = stk.back().first; i = stk.back().second; stk.pop_back(); top = true; }
			else pick(reg[(size_t) cr].mode, g, i);
			uint64_t a = addr(g, i); (void) top;
			if (off && !ambig(a)) { disable_sync(false, a, false, 0); return; }
			if (retc && !hws.empty() && hws.back() == a) { hws.pop_back(); bit(true); }
			else { hws.clear(); tip(a); }
			go(g, i); break; }
		case X_FAR: case X_CPL: case X_IRET: case X_VMENTRY: case X_UIRET: far_transfer(s); break;
		case X_MOVCR3: {
			flush();
			if (!(movcr3_at && lo <= movcr3_at) && r.chance(5)) { uint64_t nx = s.next(); disable_sync(true, 0, true, nx); return; }
			cr3 = cr3s[r.below(cr3s.size())]; uint64_t nr = r.below(2);
			emit(MP(K_PIP, cr3, nr)); ev(ptev_paging, { cr3, nr }, true);
			if (r.chance(10)) { uint64_t nx = s.next(); disable_sync(true, 0, true, nx); return; }
			movcr3_at = insns.size(); step_over(); break; }
		case X_VMPTRLD: flush(); vmcs = r.wide(30) << 12; emit(MP(K_VMCS, vmcs)); ev(ptev_vmcs, { vmcs }, true); anchor_ok = false; step_over(); break;
		case X_XBEGIN: step_over(); if (!spec && r.chance(70)) { flush(); spec = true; emit(MP(K_TSX, 1, 0)); emit(ipe.enc(r, K_FUP, ip())); evip(ptev_tsx, { 1, 0 }, ip()); anchor = insns.size(); anchor_ok = true; } break;
		case X_XEND: step_over(); if (spec) { flush(); spec = false; emit(MP(K_TSX, 0, 0)); emit(ipe.enc(r, K_FUP, ip())); evip(ptev_tsx, { 0, 0 }, ip()); anchor = insns.size(); anchor_ok = true; } break;
		case X_MWAIT: {
			step_over(); flush(); MP p = gen_packet(r, K_MWAIT); emit(p); emit(MP(K_EXSTOP, 1)); emit(ipe.enc(r, K_FUP, ip()));
			evip(ptev_mwait, { p.f[0], p.f[1] }, ip()); evip(ptev_exstop, {}, ip()); anchor = insns.size(); anchor_ok = true;
			if (r.chance(50)) { MP q = gen_packet(r, K_PWRX); emit(q); ev(ptev_pwrx, { q.f[0], q.f[1], q.f[2], q.f[3], q.f[4] }, false); }
			break; }
		case X_STI: case X_CLI:
			step_over();
			if (iflags) {
				unsigned f = s.kind == X_STI;
				if (f != iflag || r.chance(20)) { flush(); iflag = f; auto b = mode_exec(reg[(size_t) cr].mode); emit(ipe.enc(r, K_FUP, ip())); for (auto &x : b) evip(x.type, x.f, ip()); anchor = insns.size(); anchor_ok = !b.empty(); }
			}
			break;
		}
	}
	void run(size_t steps)
	{
		if (r.chance(20)) { int n = (int) r.below(4); while (n--) emit(MP(K_PAD)); }
		cr3 = cr3s[r.below(cr3s.size())];
		int g; size_t i; pick(-1, g, i); go(g, i); hwmode = reg[(size_t) cr].mode;
		en = r.chance(75); tsc = r.wide(40); bias = (unsigned) r.range(10, 90);
		psb_plus();
		if (!en) { dis_known = false; off_and_on(); }
		while (insns.size() < steps) { between(); exec(); }
		abrupt = r.chance(40);
		if (!abrupt) { flush(); emit(ipe.enc(r, K_FUP, ip())); emit(IpEnc::none(K_PGD)); evip(ptev_async_disabled, { ip() }, 0, true); lo = insns.size(); if (r.chance(30)) { emit(MP(K_STOP)); en = false; ev(ptev_stop, {}, false); } en = false; endlo = insns.size(); }
		else {
			if (r.chance(50)) flush();
			endlo = lo;
			size_t keep = insns.size();
			if (ntnt) { /* the decoder stops at the first branch whose bit was lost */ }
			// it may walk on as far as no trace is needed
			for (int k = 0; k < 5000; ++k) {
				const SI s = cur(); insns.push_back({ cr, ci, spec, cr3 });
				if (s.kind == X_JMP || s.kind == X_CALL) go(s.treg, s.tidx);
				else if (s.cls == ptic_other || s.cls == ptic_ptwrite) step_over();
				else { insns.pop_back(); break; }
			}
			(void) keep;
		}
	}
	void generate()
	{
		iflags = r.chance(40); events = !simple && r.chance(70); retc = r.chance(80); multi = r.chance(40); ptwfup = r.chance(50);
		exotic = simple ? 3 : (unsigned) r.range(2, 25);
		deep = r.chance(4); if (deep) exotic = (unsigned) r.below(3);
		gen_program(); gen_pieces();
		run(deep ? r.range(600, 2500) : r.chance(80) ? r.range(20, 300) : r.range(300, 1200));
		if (maxdepth > 64) M.count("deep_recursions");
	}
	std::string describe() const
	{
		std::string s;
		for (size_t i = 0; i < reg.size(); ++i) {
			const Region &g = reg[i];
			s += strf("region %zu va=%llx cr3=%llx mode=%d size=%zu\n", i, (unsigned long long) g.va, (unsigned long long) g.cr3, g.mode, g.bytes.size());
		}
		for (auto &p : pieces) s += strf("piece region %d %zx..%zx how=%d isid=%d\n", p.region, p.from, p.to, p.how, p.isid);
		s += log + "\n";
		size_t e = 0;
		for (size_t i = 0; i <= insns.size(); ++i) {
			while (e < evs.size() && evs[e].hi <= i) { s += strf("  [%zu] ", e) + evs[e].e.str() + strf("  (%zu..%zu)\n", evs[e].lo, evs[e].hi); ++e; }
			if (i < insns.size()) { const SI &x = si(insns[i]); s += strf("%zu: %llx %s %s%s\n", i, (unsigned long long) x.ip, hexs(x.b.data(), x.b.size()).c_str(), insns[i].spec ? "S" : "", truncated(insns[i]) ? "T" : ""); }
		}
		return s;
	}
};

// The memory image of a generated program.
struct SimImage {
	ProgSim &p; struct pt_image *image = nullptr; struct pt_image_section_cache *isc = nullptr; std::string file; bool ok = true;
	std::string err;
	static int readmem(uint8_t *buf, size_t size, const struct pt_asid *asid, uint64_t ip, void *ctx)
	{
		ProgSim *p = (ProgSim *) ctx;
		for (auto &g : p->reg) {
			if (g.cr3 || ip < g.va || ip >= g.end()) continue;
			size_t n = std::min<size_t>(size, g.end() - ip);
			memcpy(buf, &g.bytes[ip - g.va], n);
			return (int) n;
		}
		return -pte_nomap;
	}
	SimImage(ProgSim &s, Rng &r, const std::string &fn) : p(s), file(fn)
	{
		image = pt_image_alloc("sim"); isc = pt_iscache_alloc(nullptr);
		FILE *f = fopen(fn.c_str(), "w"); std::vector<size_t> off; size_t o = 0;
		Bytes junk; for (int i = 0; i < 64; ++i) junk.push_back((uint8_t) r.next());
		fwrite(junk.data(), 1, 64, f); o = 64;
		for (auto &g : s.reg) { off.push_back(o); fwrite(g.bytes.data(), 1, g.bytes.size(), f); o += g.bytes.size(); Bytes j(r.below(40)); for (auto &x : j) x = (uint8_t) r.next(); fwrite(j.data(), 1, j.size(), f); o += j.size(); }
		Bytes big(4096); for (auto &x : big) x = (uint8_t) r.next();
		size_t boff = o; fwrite(big.data(), 1, big.size(), f); fclose(f);
		auto add = [&](size_t fo, size_t n, uint64_t va, uint64_t cr3, bool cached, int *isid) {
			struct pt_asid a; pt_asid_init(&a); if (cr3) a.cr3 = cr3;
			int rc;
			if (cached) { rc = pt_iscache_add_file(isc, fn.c_str(), fo, n, va); if (rc > 0) { *isid = rc; rc = pt_image_add_cached(image, isc, rc, cr3 ? &a : nullptr); } }
			else { *isid = 0; rc = pt_image_add_file(image, fn.c_str(), fo, n, cr3 ? &a : nullptr, va); }
			if (rc < 0) { ok = false; err += strf("adding %zx+%zx at %llx: %d; ", fo, n, (unsigned long long) va, rc); }
		};
		bool cb = false; int dummy;
		std::vector<size_t> order;
		for (size_t i = 0; i < s.pieces.size(); ++i) { order.push_back(i); cb |= s.pieces[i].how == 2; }
		for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
		// decoys that are replaced or belong to another address space
		for (size_t i = 0; i < s.reg.size(); ++i) {
			Region &g = s.reg[i]; bool hascb = false;
			for (auto &q : s.pieces) if (q.region == (int) i && q.how == 2) hascb = true;
			size_t n = std::min<size_t>(4096, g.bytes.size() + 40);
			if (!hascb && r.chance(30)) add(boff, n, g.va - r.below(20), g.cr3, r.chance(50), &dummy);
			if (!hascb && g.cr3 == 0 && r.chance(30)) add(boff + 1, std::min<size_t>(4095, g.bytes.size()), g.va, 0xabc000, r.chance(50), &dummy);
		}
		for (size_t k : order) {
			Piece &q = s.pieces[k]; Region &g = s.reg[(size_t) q.region];
			if (q.how == 2) { q.isid = 0; continue; }
			add(off[(size_t) q.region] + q.from, q.to - q.from, g.va + q.from, g.cr3, q.how == 1, &q.isid);
		}
		if (cb) pt_image_set_callback(image, readmem, &s);
	}
	~SimImage() { pt_image_free(image); pt_iscache_free(isc); unlink(file.c_str()); }
};

// Online monitor: follows a decoder's output through the ground truth.
struct FlowMon {
	ProgSim &p; size_t pos, ek; std::string key, msg; const char *name; bool skip_insn_isid = false; bool flush_time = true; bool noresume = false;
	FlowMon(ProgSim &s, const char *n, size_t at = 0, size_t e = 0) : p(s), pos(at), ek(e), name(n) {}
	bool fail(const std::string &k, const std::string &m) { if (key.empty()) { key = std::string(name) + ":" + k; msg = strf("at instruction %zu, event %zu: ", pos, ek) + m; } return false; }
	std::string want() const
	{
		std::string s = pos < p.insns.size() ? strf("next insn %llx", (unsigned long long) p.si(p.insns[pos]).ip) : "no next insn";
		if (ek < p.evs.size()) s += ", next event " + p.evs[ek].e.str() + strf(" in %zu..%zu", p.evs[ek].lo, p.evs[ek].hi);
		return s;
	}
	bool can_insn()
	{
		if (pos >= p.insns.size()) return fail("extra-insn", "instruction after the end; " + want());
		if (ek < p.evs.size() && pos >= p.evs[ek].hi) return fail(strf("missed-event:%s", evname(p.evs[ek].e.type)), "instruction instead of event; " + want());
		return true;
	}
	bool event(const struct pt_event &e)
	{
		Ev g = ev_canon(e);
		if (ek >= p.evs.size()) return fail(strf("extra-event:%s", evname(g.type)), "extra event " + g.str());
		LE &x = p.evs[ek];
		if (!x.e.same(g)) return fail(strf("wrong-event:%s", evname(x.e.type)), "got " + g.str() + "; " + want());
		if (pos < x.lo || pos > x.hi) return fail(strf("misplaced:%s", evname(g.type)), "got " + g.str() + "; " + want());
		if (x.e.type == ptev_enabled && !x.e.status && noresume) { noresume = false; if (x.resumed > 0) { if (e.variant.enabled.resumed) return fail("resumed", "resumed without having been disabled"); x.resumed = -2; } }
		if (x.resumed >= 0 && (int) e.variant.enabled.resumed != x.resumed) return fail("resumed", strf("resumed %d instead of %d", e.variant.enabled.resumed, x.resumed));
		if (x.cut) pos = x.hi;
		ek++;
		return true;
	}
	bool done()
	{
		if (ek < p.evs.size()) return fail(strf("missing-event:%s", evname(p.evs[ek].e.type)), "trace ended; " + want());
		if (pos < p.endlo) return fail("missing-insn", strf("trace ended, %zu instructions expected; ", p.endlo) + want());
		return true;
	}
};
