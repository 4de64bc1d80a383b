// C29: the flow dumper prints exactly the instructions, events, errors and statistics of the trace it was given, from the code it was given.
// The tool is built against a stand-in for Intel XED whose output tells mode, address and bytes of what it was asked to disassemble.
#include "tool.hpp"
#include "progsim.hpp"
#include "perfenc.hpp"
#include "libipt-sb.h"
#include "xed/xed-interface.h"
#include "elfgen.hpp"

typedef unsigned long long ull;
static std::string X16(uint64_t v) { return strf("%016llx", (ull) v); }

struct Opts {
	bool insn = false, quiet = false, noinst = false, raw = false, offset = false, time = false, att = false, check = false, evtime = false, evip = false, tick = false, iflags = false;
	bool blocks = false, endcall = false, endjump = false, keep = false, sbswitch = false, sbwarn = false, verbose = false; int stat = 0, lie = 0; uint32_t sbflags = 0;
	struct pt_config c; bool special = false, badcpu = false;	// configured so that the trace may be understood differently
};

// ------------------------------------------------------------ what is printed about an event
static const char *modename(int m) { switch (m) { case ptem_unknown: return "<unknown>"; case ptem_16bit: return "16-bit"; case ptem_32bit: return "32-bit"; case ptem_64bit: return "64-bit"; } return "<invalid>"; }
static std::string event_text(const struct pt_event &e, const Opts &o, uint64_t off)
{
	std::string s = "["; auto &v = e.variant; std::string t; uint64_t ip = 0; bool has = true; std::string tail;
	if (o.offset) s += X16(off) + "  ";
	if (o.evtime && e.has_tsc) s += X16(e.tsc) + "  ";
	switch (e.type) {
	case ptev_enabled: t = v.enabled.resumed ? "resumed" : "enabled"; if (o.evip) t += ", ip: " + X16(v.enabled.ip); has = false; break;
	case ptev_disabled: t = "disabled"; ip = v.disabled.ip; break;
	case ptev_async_disabled: t = "disabled"; has = false; if (o.evip) { t += ", at: " + X16(v.async_disabled.at); if (!e.ip_suppressed) t += ", ip: " + X16(v.async_disabled.ip); } break;
	case ptev_async_branch: t = "interrupt"; has = false; if (o.evip) { t += ", from: " + X16(v.async_branch.from); if (!e.ip_suppressed) t += ", to: " + X16(v.async_branch.to); } break;
	case ptev_paging: t = "paging, cr3: " + X16(v.paging.cr3) + (v.paging.non_root ? ", nr" : ""); has = false; break;
	case ptev_async_paging: t = "paging, cr3: " + X16(v.async_paging.cr3) + (v.async_paging.non_root ? ", nr" : ""); has = false; if (o.evip) t += ", ip: " + X16(v.async_paging.ip); break;
	case ptev_overflow: t = "overflow"; ip = v.overflow.ip; break;
	case ptev_exec_mode: t = std::string("exec mode: ") + modename(v.exec_mode.mode); ip = v.exec_mode.ip; break;
	case ptev_tsx: t = v.tsx.aborted ? "aborted" : v.tsx.speculative ? "begin transaction" : "committed"; ip = v.tsx.ip; break;
	case ptev_stop: t = "stopped"; has = false; break;
	case ptev_vmcs: t = "vmcs, base: " + X16(v.vmcs.base); has = false; break;
	case ptev_async_vmcs: t = "vmcs, base: " + X16(v.async_vmcs.base); has = false; if (o.evip) t += ", ip: " + X16(v.async_vmcs.ip); break;
	case ptev_exstop: t = "exstop"; ip = v.exstop.ip; break;
	case ptev_mwait: t = strf("mwait %x %x", v.mwait.hints, v.mwait.ext); ip = v.mwait.ip; break;
	case ptev_pwre: t = strf("pwre c%u.%u", (v.pwre.state + 1) & 0xf, (v.pwre.sub_state + 1) & 0xf); if (v.pwre.hw) t += " hw"; has = false; break;
	case ptev_pwrx: t = "pwrx "; if (v.pwrx.interrupt) t += "int: "; if (v.pwrx.store) t += "st: "; if (v.pwrx.autonomous) t += "hw: "; t += strf("c%u (c%u)", (v.pwrx.last + 1) & 0xf, (v.pwrx.deepest + 1) & 0xf); has = false; break;
	case ptev_ptwrite: t = strf("ptwrite: %llx", (ull) v.ptwrite.payload); ip = v.ptwrite.ip; break;
	case ptev_tick: t = "tick"; ip = v.tick.ip; break;
	case ptev_cbr: t = strf("cbr: %x", v.cbr.ratio); has = false; break;
	case ptev_mnt: t = strf("mnt: %llx", (ull) v.mnt.payload); has = false; break;
	case ptev_tip: t = strf("tip: %llx", (ull) v.tip.ip); has = false; break;
	case ptev_tnt: t = "tnt: "; has = false; for (uint64_t b = v.tnt.size; b; b >>= 1) t += v.tnt.bits & b ? "!" : "."; break;
	case ptev_iflags: t = v.iflags.iflag ? "interrupts enabled" : "interrupts disabled"; ip = v.iflags.ip; break;
	case ptev_interrupt: t = strf("interrupt %u", v.interrupt.vector); if (v.interrupt.has_cr2) t += ", cr2: " + X16(v.interrupt.cr2); ip = v.interrupt.ip; break;
	case ptev_iret: t = "iret"; ip = v.iret.ip; break;
	case ptev_smi: t = "smi"; ip = v.smi.ip; break;
	case ptev_rsm: t = "rsm"; ip = v.rsm.ip; break;
	case ptev_sipi: t = strf("sipi: %x", v.sipi.vector); has = false; break;
	case ptev_init: t = "init"; ip = v.init.ip; break;
	case ptev_vmentry: t = "vmentry"; ip = v.vmentry.ip; break;
	case ptev_vmexit: t = "vmexit"; if (v.vmexit.has_vector) t += strf(", intr: %u", v.vmexit.vector); if (v.vmexit.has_vmxr) t += ", vmxr: " + X16(v.vmexit.vmxr);
		if (v.vmexit.has_vmxq) t += ", vmxq: " + X16(v.vmexit.vmxq); ip = v.vmexit.ip; break;
	case ptev_shutdown: t = "shutdown"; ip = v.shutdown.ip; break;
	case ptev_uintr: t = strf("uintr %u", v.uintr.vector); ip = v.uintr.ip; break;
	case ptev_uiret: t = "uiret"; ip = v.uiret.ip; break;
	case ptev_trig: t = strf("trig %02x", v.trig.trbv); if (v.trig.mult) t += ", mult"; ip = v.trig.ip; if (v.trig.icnt) tail = strf(", icnt: %u", v.trig.icnt); break;
	default: t = "?"; has = false; break;
	}
	s += t;
	if (has && o.evip && !e.ip_suppressed) s += ", ip: " + X16(ip);
	M.count(strf("ev:%s", evname((int) e.type)));
	return s + tail + "]\n";
}

// ------------------------------------------------------------ instructions
static xed_machine_mode_enum_t xmode(int m) { return m == ptem_64bit ? XED_MACHINE_MODE_LONG_64 : m == ptem_32bit ? XED_MACHINE_MODE_LEGACY_32 : m == ptem_16bit ? XED_MACHINE_MODE_LEGACY_16 : XED_MACHINE_MODE_INVALID; }
static std::string rawbytes(const uint8_t *p, size_t n) { std::string s; for (size_t i = 0; i < 15; ++i) s += i < n ? strf(" %02x", p[i]) : "   "; return s; }
static std::string insn_text(const uint8_t *p, size_t n, int mode, uint64_t ip, const Opts &o)	// behind the address
{
	std::string s;
	if (o.raw) s += rawbytes(p, n);
	return s + "  " + strf("%s%d %llx ", o.att ? "att" : "intel", xmode(mode), (ull) ip) + hexs(p, n);
}
static xed_decoded_inst_t xdec(const uint8_t *p, size_t n, int mode, xed_error_enum_t &e)
{
	xed_decoded_inst_t x; xed_decoded_inst_zero(&x); xed_decoded_inst_set_mode(&x, xmode(mode), XED_ADDRESS_WIDTH_INVALID);
	e = xed_decode(&x, p, (unsigned) n); return x;
}
static const char *clsname(int c)
{
	switch (c) {
	case ptic_unknown: return "unknown"; case ptic_other: return "other"; case ptic_call: return "near call"; case ptic_return: return "near return"; case ptic_jump: return "near jump"; case ptic_cond_jump: return "cond jump";
	case ptic_far_call: return "far call"; case ptic_far_return: return "far return"; case ptic_far_jump: return "far jump"; case ptic_ptwrite: return "ptwrite"; case ptic_indirect: return "indirect";
	}
	return "undefined";
}
static int xclass(xed_iclass_enum_t c)
{
	switch (c) {
	case XED_ICLASS_CALL_NEAR: return ptic_call; case XED_ICLASS_RET_NEAR: return ptic_return; case XED_ICLASS_JMP: case XED_ICLASS_JMPABS: return ptic_jump;
	case XED_ICLASS_CALL_FAR: case XED_ICLASS_INT: case XED_ICLASS_INT1: case XED_ICLASS_INT3: case XED_ICLASS_INTO: case XED_ICLASS_SYSCALL: case XED_ICLASS_SYSENTER: case XED_ICLASS_VMCALL: return ptic_far_call;
	case XED_ICLASS_ERETS: case XED_ICLASS_ERETU: case XED_ICLASS_IRET: case XED_ICLASS_IRETD: case XED_ICLASS_IRETQ: case XED_ICLASS_RET_FAR: case XED_ICLASS_SYSEXIT: case XED_ICLASS_SYSRET:
	case XED_ICLASS_SYSRET64: case XED_ICLASS_UIRET: case XED_ICLASS_VMLAUNCH: case XED_ICLASS_VMRESUME: return ptic_far_return;
	case XED_ICLASS_JMP_FAR: return ptic_far_jump; case XED_ICLASS_PTWRITE: return ptic_ptwrite;
	default: return c >= XED_ICLASS_JB && c <= XED_ICLASS_LOOPNE ? ptic_cond_jump : ptic_other;
	}
}
static std::string class_text(const xed_decoded_inst_t &x, int iclass, uint64_t ip, uint64_t off)
{
	int c = xclass(x.iclass);
	if (iclass == c || (iclass == ptic_indirect && c != ptic_other && c != ptic_cond_jump && c != ptic_ptwrite)) return "";
	return strf("[%llx, %llx: iclass error: iclass: %s, xed iclass: %s]\n", (ull) off, (ull) ip, clsname(iclass), xed_iclass_enum_t2str(x.iclass));
}

// ------------------------------------------------------------ what the tool is expected to print
struct Expect {
	Opts o; ProgSim *p = nullptr; bool truth = false; struct pt_image_section_cache *isc = nullptr; struct pt_image *image = nullptr; struct pt_sb_session *sb = nullptr;
	std::string out; uint64_t ninsn = 0, nblk = 0, time = 0; FlowMon *m = nullptr; struct pt_insn_decoder *id = nullptr; struct pt_block_decoder *bd = nullptr;
	FILE *mem = nullptr; bool endless = false; std::string lies; uint64_t errors = 0;
	int offs(uint64_t &v) { return id ? pt_insn_get_offset(id, &v) : pt_blk_get_offset(bd, &v); }
	void diag(uint64_t ip, const char *what, int rc)
	{
		uint64_t pos = 0; int e = offs(pos); errors++;
		if (e < 0) out += strf("could not determine offset: %s\n[?, %llx: %s: %s]\n", pt_errstr(pt_errcode(e)), (ull) ip, what, pt_errstr(pt_errcode(rc)));
		else out += strf("[%llx, %llx: %s: %s]\n", (ull) pos, (ull) ip, what, pt_errstr(pt_errcode(rc)));
	}
	int drain(int rc)
	{
		while (rc >= 0 && (rc & pts_event_pending)) {
			struct pt_event e; uint64_t off = 0;
			offs(off);
			rc = id ? pt_insn_event(id, &e, sizeof e) : pt_blk_event(bd, &e, sizeof e);
			if (rc < 0) return rc;
			time = e.tsc;
			if (truth && e.type != ptev_tick) m->event(e);
			if (!o.quiet && !e.status_update) out += event_text(e, o, off);
			if (sb) {
				struct pt_image *img = nullptr; char *t = nullptr; size_t n = 0; FILE *f = open_memstream(&t, &n);
				self = this; int s = pt_sb_event(sb, &img, &e, sizeof e, f, o.sbflags); self = nullptr;
				// notifications come between the printed records
				fflush(f); fclose(f); out += merge(std::string(t, n)); free(t);
				if (s < 0) return s;
				if (img) { s = id ? pt_insn_set_image(id, img) : pt_blk_set_image(bd, img); if (s < 0) return s; }
			}
		}
		return rc;
	}
	static Expect *self; std::string said;
	std::string merge(const std::string &t) { std::string s = t + said; said.clear(); return s; }
	std::string prefix(uint64_t off, bool spec) { std::string s; if (o.offset) s += X16(off) + "  "; if (o.time) s += X16(time) + "  "; if (spec) s += "? "; return s; }
	void truth_insn(const uint8_t *raw, size_t n, uint64_t ip, bool spec, int mode)
	{
		if (!truth || !m->key.empty()) return;
		if (!m->can_insn()) return;
		const LI &l = p->insns[m->pos]; const SI &s = p->si(l);
		if (s.ip != ip || n != s.b.size() || memcmp(raw, s.b.data(), n) || spec != l.spec || mode != p->reg[(size_t) l.region].mode) { m->fail("insn", strf("%llx %s; ", (ull) ip, hexs(raw, n).c_str()) + m->want()); return; }
		m->pos++; M.count("insns_compared");
	}
	void print_insn(const struct pt_insn &in, uint64_t off)
	{
		ninsn++;
		truth_insn(in.raw, in.size, in.ip, in.speculative, in.mode);
		xed_error_enum_t e; xed_decoded_inst_t x = xdec(in.raw, in.size, in.mode, e);
		if (!o.quiet) {
			out += prefix(off, in.speculative) + X16(in.ip);
			if (!o.noinst) out += e == XED_ERROR_NONE ? insn_text(x.raw, x.length, in.mode, in.ip, o) : rawbytes(in.raw, in.size) + strf(" [xed decode error: (%u) %s]", e, xed_error_enum_t2str(e));
			out += "\n";
		}
		if (o.check) {
			if (in.isid <= 0) out += strf("[%llx, %llx: check error: bad isid]\n", (ull) off, (ull) in.ip);
			if (e != XED_ERROR_NONE) out += strf("[%llx, %llx: xed error: (%u) %s]\n", (ull) off, (ull) in.ip, e, xed_error_enum_t2str(e));
			else { std::string t = class_text(x, in.iclass, in.ip, off); out += t; }
		}
	}
	int fetch(const struct pt_block &b, uint64_t ip, uint8_t *raw, int &n)
	{
		if (ip == b.end_ip && b.truncated) { if (!b.size || b.size > 15) return -pte_bad_insn; n = b.size; memcpy(raw, b.raw, (size_t) n); return 0; }
		n = pt_iscache_read(isc, raw, 15, b.isid, ip);
		return n < 0 ? n : 0;
	}
	void print_block(const struct pt_block &b, uint64_t off)
	{
		ninsn += b.ninsn; nblk++;
		if (truth && b.ninsn) {	// the instructions, from what was executed
			for (unsigned i = 0; i < b.ninsn && m->key.empty(); ++i) {
				if (!m->can_insn()) break;
				const LI &l = p->insns[m->pos]; const SI &s = p->si(l);
				if ((!i && s.ip != b.ip) || (i + 1 == b.ninsn && s.ip != b.end_ip) || b.speculative != l.spec || (int) b.mode != p->reg[(size_t) l.region].mode) m->fail("block", strf("block %llx..%llx; ", (ull) b.ip, (ull) b.end_ip) + m->want());
				else { m->pos++; M.count("insns_compared"); }
			}
		}
		if (!o.quiet) {
			if (o.blocks) out += o.stat ? strf("[block %llx]\n", (ull) nblk) : "[block]\n";
			uint64_t ip = b.ip; unsigned n = b.ninsn;
			while (n) {
				out += prefix(off, b.speculative) + X16(ip);
				uint8_t raw[16]; int k; int rc = fetch(b, ip, raw, k);
				if (rc < 0) { out += strf(" [fetch error: %s]\n", pt_errstr(pt_errcode(rc))); errors++; break; }
				xed_error_enum_t e; xed_decoded_inst_t x = xdec(raw, (size_t) k, b.mode, e);
				if (e != XED_ERROR_NONE) { out += rawbytes(raw, (size_t) k) + strf(" [xed decode error: (%u) %s]\n", e, xed_error_enum_t2str(e)); errors++; break; }
				if (!o.noinst) out += insn_text(x.raw, x.length, b.mode, ip, o);
				out += "\n";
				if (!--n) break;
				ip += x.length + (x.direct ? (uint64_t) x.disp : 0);
			}
			if (b.ninsn && ip != b.end_ip) diag(ip, "reconstruct error", -pte_nosync);
		}
		if (o.check && b.ninsn) {
			if (b.isid <= 0) out += strf("[%llx, %llx: check error: bad isid]\n", (ull) off, (ull) b.ip);
			uint64_t ip = b.ip, last = ip; xed_decoded_inst_t x;
			for (unsigned n = b.ninsn; n; --n) {
				uint8_t raw[16]; int k; int rc = fetch(b, ip, raw, k); last = ip;
				if (rc < 0) { out += strf("[%llx, %llx: fetch error: %s]\n", (ull) off, (ull) ip, pt_errstr(pt_errcode(rc))); return; }
				xed_error_enum_t e; x = xdec(raw, (size_t) k, b.mode, e);
				if (e != XED_ERROR_NONE) { out += strf("[%llx, %llx: xed error: (%u) %s]\n", (ull) off, (ull) ip, e, xed_error_enum_t2str(e)); return; }
				ip += x.length + (x.direct ? (uint64_t) x.disp : 0);
			}
			if (last != b.end_ip) out += strf("[%llx, %llx: error: did not reach end: %llx]\n", (ull) off, (ull) last, (ull) b.end_ip);
			if (b.iclass) { std::string t = class_text(x, b.iclass, last, off); out += t; if (!t.empty() && b.truncated) M.count("truncated_lies"); }
		}
	}
	uint64_t block_ip(const struct pt_block &b, int rc)
	{
		if (!b.ninsn) return b.ip;
		if (rc != -pte_nomap && rc != -pte_bad_insn) return b.end_ip;
		uint8_t raw[16]; int k; if (fetch(b, b.end_ip, raw, k) < 0) return b.end_ip;
		xed_error_enum_t e; xed_decoded_inst_t x = xdec(raw, (size_t) k, b.mode, e); if (e != XED_ERROR_NONE) return b.end_ip;
		return b.end_ip + x.length + (x.direct ? (uint64_t) x.disp : 0);
	}
	void decode()
	{
		uint64_t sync = 0, steps = 0;
		for (;;) {
			struct pt_insn in; struct pt_block b; in.ip = 0; b.ip = 0; b.ninsn = 0;
			int rc = id ? pt_insn_sync_forward(id) : pt_blk_sync_forward(bd);
			if (rc < 0) {
				if (rc == -pte_eos) break;
				diag(0, "sync error", rc);
				uint64_t ns; int e = offs(ns); if (e < 0 || ns <= sync) break;
				sync = ns; continue;
			}
			for (;;) {
				if (++steps > 200000 || out.size() > 8000000) { endless = true; return; }
				rc = drain(rc); if (rc < 0) break;
				if (rc & pts_eos) { if (!(rc & pts_ip_suppressed) && !o.quiet) out += "[end of trace]\n"; rc = -pte_eos; break; }
				uint64_t off = 0; offs(off);
				if (id) {
					in.iclass = ptic_unknown;	// it may fail without providing an instruction
					rc = pt_insn_next(id, &in, sizeof in);
					if (rc >= 0 || in.iclass != ptic_unknown) print_insn(in, off);
				} else {
					rc = pt_blk_next(bd, &b, sizeof b);
					steps += b.ninsn;	// endless loops may come in big blocks
					if (rc >= 0 || b.ninsn) print_block(b, off);
				}
				if (rc < 0) break;
			}
			if (rc == -pte_eos) break;
			if (truth) m->fail(strf("error:%d", -rc), "healthy trace; " + m->want());
			diag(id ? in.ip : block_ip(b, rc), "error", rc);
		}
	}
	static int sb_error(int errcode, const char *fn, uint64_t off, void *)
	{
		if (!self) return 0;
		if (errcode >= 0 && !self->o.sbwarn) return 0;
		const char *t = errcode < 0 ? pt_errstr(pt_errcode(errcode)) : pt_sb_errstr((enum pt_sb_error_code) errcode);
		self->said += strf("[%s:%016llx sideband %s: %s]\n", fn ? fn : "<unknown>", (ull) off, errcode < 0 ? "error" : "warning", t ? t : "<unknown error>");
		return 0;
	}
	static int sb_switch(const struct pt_sb_context *c, void *)
	{
		if (!self || !self->o.sbswitch) return 0;
		struct pt_image *i = pt_sb_ctx_image(c); const char *n = i ? pt_image_name(i) : nullptr;
		self->said += strf("[context: %s]\n", n ? n : "<unknown>"); return 0;
	}
};
Expect *Expect::self;

// ------------------------------------------------------------ code
// A file with code that is given to the tool, and where its parts belong.
struct Load { uint64_t off, size, va; };
struct Given { std::string arg, opt, file; std::vector<Load> loads; std::string verbose, verbose_alt; };
static std::string num(Rng &r, uint64_t v) { static const char *const f[] = { "%llu", "0x%llx", "0%llo", "0X%llX" }; return strf(f[r.below(4)], (ull) v); }

static Given give_raw(Rng &r, int &nf, const Bytes &code, uint64_t va, const char *opt = "--raw")
{
	Given g; g.opt = opt; g.file = M.scratch + strf("/%s%d", r.chance(10) ? "r:x" : "r", nf++);
	int style = (int) r.below(3); Bytes f;	// the whole file, from an offset, a range
	if (style) { size_t n = 1 + r.below(60); while (n--) f.push_back((uint8_t) r.next()); }
	size_t off = f.size(); f.insert(f.end(), code.begin(), code.end());
	if (style == 2) { size_t n = r.below(60); while (n--) f.push_back((uint8_t) r.next()); }
	write_file(g.file, f.data(), f.size());
	g.arg = g.file; if (style == 1) g.arg += ":" + num(r, off); else if (style == 2 || r.chance(20)) g.arg += ":" + num(r, off) + "-" + num(r, off + code.size());
	g.arg += ":" + num(r, va);
	g.loads.push_back({ off, code.size(), va });
	M.count(strf("raw_style:%d", style));
	return g;
}
// Returns false if the pieces do not fit an ELF file.
static bool give_elf(Rng &r, int &nf, std::vector<std::pair<uint64_t, Bytes>> parts, Given &g, const char *opt = "--elf")
{
	uint64_t lo = ~0ull, hi = 0; for (auto &q : parts) { lo = std::min(lo, q.first); hi = std::max(hi, q.first + q.second.size()); }
	bool w64 = true, base = r.chance(50); uint64_t delta = 0;
	if (hi - lo < 0x70000000ull && r.chance(50) && (hi < 0x100000000ull || base)) w64 = false;
	if (base) {
		if (r.chance(20) && (w64 || hi < 0x100000000ull)) delta = 0;	// where it is linked
		else if (w64) delta = lo - r.wide(48); else delta = lo - r.below(0x80000000ull);
	}
	std::vector<Seg> segs;
	for (auto &q : parts) { Seg s; s.type = PT_LOAD; s.vaddr = q.first - delta; s.memsz = q.second.size() + (r.chance(30) ? r.below(5000) : 0); s.data = q.second; segs.push_back(s); }
	uint64_t min = lo - delta;
	uint64_t lim = w64 ? ~0ull : 0xffffffffull;
	int extra = (int) r.below(5);
	while (extra--) {
		Seg s; s.memsz = r.below(4096);
		switch (r.below(4)) {
		case 0: s.type = PT_LOAD; s.vaddr = r.chance(50) ? min - std::min<uint64_t>(min, r.below(0x3000)) : r.wide(w64 ? 64 : 32); break;	// nothing in the file
		case 1: s.type = PT_NOTE; s.vaddr = r.wide(w64 ? 64 : 32); { size_t n = r.below(40); while (n--) s.data.push_back((uint8_t) r.next()); } break;
		case 2: s.type = PT_DYNAMIC; s.vaddr = r.chance(50) ? 0 : min; { size_t n = r.below(40); while (n--) s.data.push_back((uint8_t) r.next()); } break;
		default: s.type = (uint32_t) (r.chance(50) ? PT_GNU_STACK : PT_PHDR); s.vaddr = r.wide(w64 ? 64 : 32); break;
		}
		if (s.vaddr > lim) continue;
		segs.push_back(s);
	}
	for (size_t i = segs.size(); i > 1; --i) std::swap(segs[i - 1], segs[r.below(i)]);
	min = ~0ull; for (auto &s : segs) if (s.type == PT_LOAD) min = std::min(min, s.vaddr);
	g = Given(); g.opt = opt; g.file = M.scratch + strf("/e%d", nf++);
	uint64_t basev = 0;
	if (base) { basev = min + delta; if (!basev) return false; }
	Bytes f = mkelf(r, w64, segs); write_file(g.file, f.data(), f.size());
	g.arg = g.file; if (base) g.arg += ":" + num(r, basev); else if (r.chance(10)) g.arg += ":0";
	for (auto &s : segs) {
		if (s.type != PT_LOAD || s.data.empty()) continue;
		g.loads.push_back({ s.off, s.data.size(), s.vaddr + delta });
		g.verbose += strf("%s: offset=0x%llx size=0x%zx vaddr=0x%llx.\n", g.file.c_str(), (ull) s.off, s.data.size(), (ull) s.vaddr);
		g.verbose_alt += strf("%s: offset=0x%llx size=0x%zx vaddr=0x%llx.\n", g.file.c_str(), (ull) s.off, s.data.size(), (ull) (s.vaddr + delta));
	}
	M.count(w64 ? "elf64" : "elf32"); if (base) M.count(w64 ? "elf64_relocated" : "elf32_relocated");
	return true;
}

static void gen_opts(Rng &r, Opts &o)
{
	o.insn = r.chance(50); o.quiet = r.chance(12); o.noinst = r.chance(15); o.raw = r.chance(25); o.offset = r.chance(30); o.time = r.chance(30); o.att = r.chance(15); o.check = r.chance(30);
	o.evtime = r.chance(40); o.evip = r.chance(50); o.tick = r.chance(15); o.blocks = r.chance(25); o.endcall = r.chance(20); o.endjump = r.chance(20); o.keep = r.chance(15); o.verbose = r.chance(20);
	if (r.chance(40)) o.stat = 1 + (int) r.below(7);
	if (o.check && r.chance(40)) o.lie = 1 + (int) r.below(3);
	pt_config_init(&o.c);
	if (r.chance(15)) {
		o.special = true;
		static const struct { int f, m, s; } cpus[] = { { 6, 0x3d, 0 }, { 6, 0x4e, 3 }, { 6, 0x5e, 0 }, { 6, 0x55, 4 }, { 6, 0x8e, 9 }, { 6, 0x5c, 2 }, { 6, 0x7a, 1 }, { 6, 0xa7, 0 }, { 6, 0x97, 2 }, { 15, 6, 1 }, { 6, 0x46, 0 } };
		auto &q = cpus[r.below(sizeof cpus / sizeof *cpus)]; o.c.cpu.vendor = pcv_intel; o.c.cpu.family = (uint16_t) q.f; o.c.cpu.model = (uint8_t) q.m; o.c.cpu.stepping = (uint8_t) q.s;
		o.badcpu = pt_cpu_errata(&o.c.errata, &o.c.cpu) < 0; if (o.badcpu) o.verbose = false;
	}
	if (r.chance(30)) { o.c.mtc_freq = (uint8_t) r.below(16); o.c.nom_freq = (uint8_t) r.wide(8); o.c.cpuid_0x15_eax = (uint32_t) r.wide(32); o.c.cpuid_0x15_ebx = (uint32_t) r.wide(32); }
}

static uint64_t first_insn_va(const ProgSim &p) { uint64_t v = ~0ull; for (auto &g : p.reg) if (g.va >= 0x7f0000000000ull) v = std::min(v, g.va); return v; }

static void malformed(Rng &r);

void run_case(Rng &r)
{
	setenv("FAKEXED_LIE", "0", 1); static bool up; if (!up) { xed_tables_init(); up = true; }
	if (r.chance(7)) { malformed(r); return; }
	Opts o; gen_opts(r, o);
	ProgSim p(r); p.simple = r.chance(20); p.iflags = r.chance(40); p.events = !p.simple && r.chance(70); p.retc = r.chance(80); p.multi = false; p.ptwfup = r.chance(50);
	p.exotic = p.simple ? 3 : (unsigned) r.range(2, 25); p.gen_program(); p.run(r.chance(80) ? r.range(20, 200) : r.range(200, 600));
	o.iflags = p.iflags;
	bool sideband = r.chance(25) && p.evs.size() && p.evs[0].e.has_tsc;
	bool truth = !o.special, healthy = true;
	Bytes trace = p.out;
	if (r.chance(20)) {	// damaged
		truth = healthy = false;
		if (r.chance(50)) { int n = (int) r.range(1, 4); while (n--) { size_t k = r.below(trace.size()); if (r.chance(50)) trace[k] = (uint8_t) r.next(); else trace.erase(trace.begin() + (long) k, trace.begin() + (long) std::min(trace.size(), k + 1 + r.below(20))); if (trace.empty()) trace.push_back(0); } }
		else { int n = (int) r.range(1, 20); Bytes t; while (n--) { if (r.chance(20)) { mencode(MP(K_PSB), t); if (r.chance(60)) mencode(MP(K_PSBEND), t); } mencode(gen_packet(r), t); } if (r.chance(50)) trace.insert(trace.end(), t.begin(), t.end()); else trace = t; }
		o.iflags = r.chance(50);
	}
	// filters only matter for a processor erratum
	bool filt = r.chance(15);
	if (filt) { o.c.addr_filter.config.addr_cfg = 0; truth = false; }
	int nf = 0; std::vector<Given> given, kern; std::string perf;
	uint64_t kstart = first_insn_va(p); bool omit = r.chance(8);
	if (omit) truth = healthy = false;
	// the code
	struct Part { uint64_t va; Bytes b; bool kernel; }; std::vector<Part> parts;
	for (auto &g : p.reg) {
		std::vector<size_t> cut = { 0, g.bytes.size() };
		if (!sideband || g.va >= kstart) { int n = r.chance(60) ? 0 : (int) r.below(4); while (n--) cut.push_back(1 + r.below(g.bytes.size() - 1)); }
		std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
		for (size_t k = 0; k + 1 < cut.size(); ++k) parts.push_back({ g.va + cut[k], Bytes(g.bytes.begin() + (long) cut[k], g.bytes.begin() + (long) cut[k + 1]), g.va >= kstart });
	}
	if (omit) parts.erase(parts.begin() + (long) r.below(parts.size()));
	for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
	struct Map { uint64_t va, off, len; std::string file; }; std::vector<Map> maps;
	std::string sysroot;
	if (sideband) {
		std::vector<std::pair<uint64_t, Bytes>> k;
		for (auto &q : parts) if (q.kernel) k.push_back({ q.va, q.b });
		std::vector<std::vector<std::pair<uint64_t, Bytes>>> groups; for (auto &q : k) { if (groups.empty() || r.chance(30)) groups.emplace_back(); groups[r.below(groups.size())].push_back(q); }
		for (auto &gr : groups) if (!gr.empty()) { Given g; if (!give_elf(r, nf, gr, g, "--pevent:kcore")) return; kern.push_back(g); }
		if (r.chance(50)) { sysroot = M.scratch + "/sys"; mkdir(sysroot.c_str(), 0700); }
		for (auto &q : parts) if (!q.kernel) {
			std::string fn = strf("/u%d", nf++); std::string full = (sysroot.empty() ? M.scratch : sysroot) + fn; Bytes f; size_t n = r.below(100); while (n--) f.push_back((uint8_t) r.next()); uint64_t off = f.size();
			f.insert(f.end(), q.b.begin(), q.b.end()); write_file(full, f.data(), f.size());
			maps.push_back({ q.va, off, q.b.size(), sysroot.empty() ? full : fn });
		}
	} else {
		int decoys = (int) r.below(3);
		while (decoys--) { Bytes j(1 + r.below(300)); for (auto &x : j) x = (uint8_t) r.next(); auto &g = p.reg[r.below(p.reg.size())]; uint64_t va = g.va - r.below(100) + r.below(100); if (healthy && !truth) truth = false; given.push_back(give_raw(r, nf, j, va)); }
		// decoys around the real code make it healthy only if all of it is replaced
		while (!parts.empty()) {
			if (r.chance(50)) { given.push_back(give_raw(r, nf, parts.back().b, parts.back().va)); parts.pop_back(); continue; }
			std::vector<std::pair<uint64_t, Bytes>> k; int n = (int) r.range(1, 4);
			while (n-- && !parts.empty()) { uint64_t va = parts.back().va; bool far = false; for (auto &q : k) far |= (q.first > va ? q.first - va : va - q.first) > 0x60000000ull; if (far && r.chance(70)) break; k.push_back({ va, parts.back().b }); parts.pop_back(); }
			Given g; if (!give_elf(r, nf, k, g)) return; given.push_back(g);
		}
	}
	// the trace file
	std::string ptfn = M.scratch + (r.chance(10) ? "/t:1x" : "/t.pt"); Bytes tf; std::string ptarg = ptfn; int tstyle = (int) r.below(4);
	if (tstyle >= 2) { size_t n = 1 + r.below(50); while (n--) tf.push_back((uint8_t) r.next()); }
	uint64_t toff = tf.size(); tf.insert(tf.end(), trace.begin(), trace.end()); uint64_t tend = tf.size();
	if (tstyle == 3) { size_t n = r.below(50); while (n--) tf.push_back((uint8_t) r.next()); }
	write_file(ptfn, tf.data(), tf.size());
	if (tstyle == 2) ptarg += ":" + num(r, toff); else if (tstyle == 3) ptarg += ":" + num(r, toff) + "-" + num(r, tend); else if (tstyle == 1) ptarg += ":" + num(r, 0) + (r.chance(50) ? "-" + num(r, tend) : "");
	// sideband files
	struct pt_sb_pevent_config pc; memset(&pc, 0, sizeof pc); pc.size = sizeof pc; pc.kernel_start = ~0ull; pc.time_mult = 1;
	std::vector<std::string> pargs; std::vector<std::pair<std::string, bool>> pfiles; std::vector<uint8_t> scmem; struct SC { uint64_t b, e; }; std::vector<SC> pranges; std::vector<bool> hasconf; bool late_conf = false;
	if (sideband) {
		uint64_t st = r.chance(40) ? 0 : gen_stype(r) & ~(uint64_t) (PERF_SAMPLE_ADDR | PERF_SAMPLE_IP); uint64_t t0 = p.evs[0].e.tsc;
		bool sc = r.chance(40); if (sc) st |= PERF_SAMPLE_IDENTIFIER;
		if (r.chance(40)) { pc.time_shift = (uint16_t) r.below(8); pc.time_mult = (uint32_t) r.range(1, 1000); pc.time_zero = r.wide(20); }
		uint64_t tmax = pc.time_zero + (t0 >> pc.time_shift) * 1 * pc.time_mult; if (pc.time_shift + 64 - __builtin_clzll(t0 | 1) > 50) { pc.time_shift = 0; pc.time_mult = 1; pc.time_zero = 0; tmax = t0; }
		uint32_t pid = (uint32_t) r.wide(22) + 1, tid = (uint32_t) r.wide(22) + 1;
		std::vector<Rec> recs; uint64_t tm = pc.time_zero;
		auto rec = [&](uint32_t type) { Rec k; k.f = fmt_of(type); k.misc = 0; k.s.pid = pid; k.s.tid = tid; k.s.cpu = (uint32_t) r.wide(8); k.s.id = r.wide(64); k.s.stream = r.wide(64); k.s.time = tm; k.s.ident = 5; if (tmax > tm && r.chance(50)) tm += r.below(std::min<uint64_t>(tmax - tm, 1000)); return k; };
		for (auto &q : maps) {
			bool two = r.chance(50); Rec k = rec(two ? 10 : 1); k.misc = r.chance(50) ? 2 : 0; add(k.payload, pid); add(k.payload, tid); add(k.payload, q.va); add(k.payload, q.len); add(k.payload, q.off);
			if (two) { add<uint32_t>(k.payload, 1); add<uint32_t>(k.payload, 2); add<uint64_t>(k.payload, 3); add<uint64_t>(k.payload, 4); add<uint32_t>(k.payload, 5); add<uint32_t>(k.payload, 6); }
			k.str = q.file; recs.push_back(k);
		}
		{ Rec k = rec(3); add(k.payload, pid); add(k.payload, tid); k.str = "prog"; if (r.chance(40)) recs.push_back(k); }
		{ Rec k = rec(12); add(k.payload, pid); add(k.payload, tid); recs.insert(recs.begin() + (long) r.below(recs.size() + 1), k); for (auto &x : recs) x.s.time = 0; if (!(t0 > 2 && tmax > pc.time_zero)) tm = 0; uint64_t t = pc.time_zero; for (auto &x : recs) { if (tmax > t && tm) t += r.below(std::min<uint64_t>(tmax - t, 1000)); x.s.time = tm ? t : 0; } }
		{ int n = (int) r.below(3); while (n--) { Rec k = rec(11); k.s.time = r.chance(50) ? 0 : tmax + r.wide(30); for (int i = 0; i < 2; ++i) add(k.payload, r.wide(40)); add(k.payload, r.below(4)); recs.push_back(k); } }
		Bytes f; size_t pre = r.chance(30) ? r.range(1, 50) : 0; for (size_t i = 0; i < pre; ++i) f.push_back((uint8_t) r.next());
		for (auto &k : recs) { Bytes b = encode(k, st); f.insert(f.end(), b.begin(), b.end()); }
		uint64_t end = f.size(); size_t post = pre && r.chance(50) ? 1 + r.below(30) : 0; for (size_t i = 0; i < post; ++i) f.push_back((uint8_t) r.next());
		std::string fn = M.scratch + "/perf"; write_file(fn, f.data(), f.size());
		pc.sample_type = st; pc.kernel_start = kstart;
		scmem.resize(sizeof(struct pev_sample_config) + 8 * sizeof(struct pev_sample_type)); struct pev_sample_config *psc = (struct pev_sample_config *) scmem.data(); memset(psc, 0, scmem.size());
		auto arg = [&](const char *k, const std::string &v) { pargs.push_back(k); pargs.push_back(v); };
		if (st || r.chance(20)) arg("--pevent:sample-type", num(r, st));
		if (sc) { int n = (int) r.below(3); for (int i = 0; i <= n; ++i) { uint64_t id = i == n ? 5 : 10 + r.below(50), t = i == n ? st : gen_stype(r) | PERF_SAMPLE_IDENTIFIER; psc->stypes[psc->nstypes].identifier = id; psc->stypes[psc->nstypes++].sample_type = t; arg("--pevent:sample-config", num(r, id) + ":" + num(r, t)); } pc.sample_config = psc; }
		arg("--pevent:kernel-start", num(r, kstart));
		if (pc.time_zero || r.chance(20)) arg("--pevent:time-zero", num(r, pc.time_zero));
		if (pc.time_shift || r.chance(20)) arg("--pevent:time-shift", num(r, pc.time_shift));
		if (pc.time_mult != 1 || r.chance(20)) arg("--pevent:time-mult", num(r, pc.time_mult));
		if (!sysroot.empty()) arg("--pevent:sysroot", sysroot);
		arg("--pevent:primary", fn + (pre || post ? ":" + num(r, pre) + (post ? "-" + num(r, end) : "") : ""));
		pranges.push_back({ pre, post ? end : 0 }); pfiles.push_back({ fn, true });
		if (r.chance(30)) {	// another stream; what is configured now does not concern the first
			Bytes g; std::vector<Rec> more; int n = (int) r.below(4); while (n--) { Rec k = rec(3); k.s.time = 0; add(k.payload, pid + 1); add(k.payload, tid); k.str = "other"; more.push_back(k); }
			if (sc && r.chance(60)) { late_conf = true; arg("--pevent:sample-config", num(r, 77) + ":" + num(r, PERF_SAMPLE_IDENTIFIER | PERF_SAMPLE_CPU)); }
			for (auto &k : more) { Bytes b = encode(k, st); g.insert(g.end(), b.begin(), b.end()); }
			if (!g.empty()) { std::string f2 = M.scratch + "/perf2"; write_file(f2, g.data(), g.size()); arg("--pevent:secondary", f2); pranges.push_back({ 0, 0 }); pfiles.push_back({ f2, false }); M.count("secondary"); }
		}
		if (r.chance(40)) { o.sbflags = (uint32_t) (r.chance(50) ? ptsbp_compact : ptsbp_verbose); for (uint32_t x : { ptsbp_filename, ptsbp_file_offset, ptsbp_tsc }) if (r.chance(40)) o.sbflags |= x; }
		o.sbwarn = r.chance(40); o.sbswitch = r.chance(40) ; if (o.sbflags) o.sbswitch = o.sbwarn = false;	// keeps the order of output simple
	}
	// ------------------------------------------------------------ command line
	std::vector<std::vector<std::string>> early, any, imgs; std::vector<std::string> args;
	if (o.insn) early.push_back({ "--insn-decoder" }); else if (r.chance(20)) early.push_back({ "--block-decoder" });
	if (o.tick) early.push_back({ "--event:tick" }); if (o.iflags) early.push_back({ "--event:iflags" });
	if (o.endcall) early.push_back({ "--block:end-on-call" }); if (o.endjump) early.push_back({ "--block:end-on-jump" });
	if (o.keep) early.push_back({ o.insn ? "--insn:keep-tcal-on-ovf" : "--block:keep-tcal-on-ovf" });
	if (o.c.cpu.vendor) early.push_back({ "--cpu", strf("%u/%u", o.c.cpu.family, o.c.cpu.model) + (o.c.cpu.stepping || r.chance(50) ? strf("/%u", o.c.cpu.stepping) : "") }); else if (r.chance(10)) early.push_back({ "--cpu", "none" });
	if (o.c.mtc_freq) early.push_back({ "--mtc-freq", num(r, o.c.mtc_freq) }); if (o.c.nom_freq) early.push_back({ "--nom-freq", num(r, o.c.nom_freq) });
	if (o.c.cpuid_0x15_eax) early.push_back({ "--cpuid-0x15.eax", num(r, o.c.cpuid_0x15_eax) }); if (o.c.cpuid_0x15_ebx) early.push_back({ "--cpuid-0x15.ebx", num(r, o.c.cpuid_0x15_ebx) });
	if (filt) {
		uint64_t *A[] = { &o.c.addr_filter.addr0_a, &o.c.addr_filter.addr1_a, &o.c.addr_filter.addr2_a, &o.c.addr_filter.addr3_a }, *B[] = { &o.c.addr_filter.addr0_b, &o.c.addr_filter.addr1_b, &o.c.addr_filter.addr2_b, &o.c.addr_filter.addr3_b };
		for (unsigned k = 0; k < 4; ++k) if (r.chance(50)) {
			uint64_t cfg = r.chance(70) ? 1 + r.below(2) : r.below(16); auto &g = p.reg[r.below(p.reg.size())]; uint64_t a = r.chance(50) ? g.va : g.va + r.below(g.bytes.size()), b = a + r.below(g.bytes.size());
			o.c.addr_filter.config.addr_cfg |= cfg << (4 * k); *A[k] = a; *B[k] = b;
			early.push_back({ strf("--filter:addr%u_cfg", k), num(r, cfg) }); early.push_back({ strf("--filter:addr%u_a", k), num(r, a) }); early.push_back({ strf("--filter:addr%u_b", k), num(r, b) });
		}
		M.count("filters");
	}
	if (o.quiet) any.push_back({ r.chance(50) ? "--quiet" : "-q" }); if (o.noinst) any.push_back({ "--no-inst" }); if (o.raw) any.push_back({ "--raw-insn" }); if (o.offset) any.push_back({ "--offset" }); if (o.time) any.push_back({ "--time" });
	if (o.att) any.push_back({ "--att" }); if (o.check) any.push_back({ "--check" }); if (o.evtime) any.push_back({ "--event:time" }); if (o.evip) any.push_back({ "--event:ip" }); if (o.blocks) any.push_back({ "--block:show-blocks" });
	if (o.stat & 1) any.push_back({ "--stat" }); if (o.stat & 2) any.push_back({ "--stat:insn" }); if (o.stat & 4) any.push_back({ "--stat:blocks" });
	uint64_t limit = 0; bool limited = r.chance(20); if (limited) any.push_back({ "--iscache-limit", num(r, limit = r.wide(20)) });
	if (o.sbflags & ptsbp_compact) any.push_back({ r.chance(50) ? "--sb" : "--sb:compact" }); if (o.sbflags & ptsbp_verbose) any.push_back({ "--sb:verbose" }); if (o.sbflags & ptsbp_filename) any.push_back({ "--sb:filename" });
	if (o.sbflags & ptsbp_file_offset) any.push_back({ "--sb:offset" }); if (o.sbflags & ptsbp_tsc) any.push_back({ "--sb:time" }); if (o.sbwarn) any.push_back({ "--sb:warn" }); if (o.sbswitch) any.push_back({ "--sb:switch" });
	auto shuffle = [&](std::vector<std::vector<std::string>> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); };
	shuffle(early); shuffle(any);
	for (auto &g : given) imgs.push_back({ g.opt, g.arg }); for (auto &g : kern) imgs.push_back({ g.opt, g.arg });
	for (size_t i = 0; i < pargs.size(); i += 2) imgs.push_back({ pargs[i], pargs[i + 1] });
	{	// interleave: early options before the trace, code and sideband in their order, the rest anywhere
		if (o.verbose) args.push_back(r.chance(50) ? "--verbose" : "-v");
		size_t a = 0, b = 0, c = 0; bool done = false;
		while (a < early.size() || b < any.size() || c < imgs.size() || !done) switch (r.below(4)) {
		case 0: if (a < early.size()) { for (auto &x : early[a]) args.push_back(x); a++; } break;
		case 1: if (b < any.size()) { for (auto &x : any[b]) args.push_back(x); b++; } break;
		case 2: if (c < imgs.size()) { for (auto &x : imgs[c]) args.push_back(x); c++; } break;
		case 3: if (a == early.size() && !done) { args.push_back("--pt"); args.push_back(ptarg); done = true; } break;
		}
	}
	std::string cmd; for (auto &a : args) cmd += a + " ";
	M.note = cmd + "\n" + p.describe();
	// ------------------------------------------------------------ expected
	Expect x; x.o = o; x.p = &p; FlowMon fm(p, "truth"); x.m = &fm; x.truth = truth && !o.tick; if (o.tick) x.truth = false;
	x.isc = pt_iscache_alloc(nullptr); if (limited) pt_iscache_set_limit(x.isc, limit); x.image = pt_image_alloc(nullptr); x.sb = pt_sb_alloc(x.isc);
	pt_sb_notify_error(x.sb, Expect::sb_error, nullptr); pt_sb_notify_switch(x.sb, Expect::sb_switch, nullptr);
	std::string alt;
	auto put = [&](struct pt_image *img, const Given &g) {
		for (auto &l : g.loads) { int id = pt_iscache_add_file(x.isc, g.file.c_str(), l.off, l.size, l.va); if (id < 0 || pt_image_add_cached(img, x.isc, id, nullptr) < 0) M.violation("setup", strf("adding %s: %d", g.file.c_str(), id)); }
		if (o.verbose) { x.out += g.verbose; alt += g.verbose_alt; }
	};
	for (auto &g : given) put(x.image, g);
	for (auto &g : kern) put(pt_sb_kernel_image(x.sb), g);
	if (o.badcpu) x.out = alt = "[0, 0: config error: unknown cpu]\n";
	std::string vprefix = x.out; x.out.clear();
	for (size_t i = 0; i < pfiles.size(); ++i) {
		struct pt_sb_pevent_config c = pc; c.filename = pfiles[i].first.c_str(); c.primary = pfiles[i].second; c.begin = pranges[i].b; c.end = pranges[i].e; if (!sysroot.empty()) c.sysroot = sysroot.c_str();
		int rc = pt_sb_alloc_pevent_decoder(x.sb, &c); if (rc < 0) { M.violation("setup", strf("sideband: %d", rc)); }
	}
	int rc = pt_sb_init_decoders(x.sb); if (rc < 0) M.violation("setup", strf("sideband init: %d", rc));
	GuardBuf buf(trace.data(), trace.size(), true);
	struct pt_config c = o.c; c.begin = buf.begin; c.end = buf.end();
	if (o.insn) { c.flags.variant.insn.enable_iflags_events = o.iflags; c.flags.variant.insn.enable_tick_events = o.tick; c.flags.variant.insn.keep_tcal_on_ovf = o.keep; x.id = pt_insn_alloc_decoder(&c); pt_insn_set_image(x.id, x.image); }
	else { c.flags.variant.block.enable_iflags_events = o.iflags; c.flags.variant.block.enable_tick_events = o.tick; c.flags.variant.block.keep_tcal_on_ovf = o.keep; c.flags.variant.block.end_on_call = o.endcall; c.flags.variant.block.end_on_jump = o.endjump; x.bd = pt_blk_alloc_decoder(&c); pt_blk_set_image(x.bd, x.image); }
	if (o.lie) setenv("FAKEXED_LIE", strf("%d", o.lie).c_str(), 1);
	x.decode();
	if (x.truth && fm.key.empty()) fm.done();
	if (x.truth && !fm.key.empty()) M.violation(fm.key, fm.msg);
	if (o.stat) { bool i = o.stat == 1 || (o.stat & 2), b = (o.stat == 1 && !o.insn) || (o.stat & 4); if (i) x.out += strf("insn: %llu.\n", (ull) x.ninsn); if (b) x.out += strf("blocks:\t%llu.\n", (ull) (x.nblk)); }
	if (x.id) pt_insn_free_decoder(x.id); else pt_blk_free_decoder(x.bd);
	pt_sb_free(x.sb); pt_image_free(x.image); pt_iscache_free(x.isc);
	if (x.endless) { M.count("long"); return; }
	// ------------------------------------------------------------ the tool
	ToolRun t = run_tool("ptxed", args);
	if (t.crashed) return;
	std::string want = vprefix + x.out;
	if (t.status) { M.violation("failed", strf("exit %d: ", t.status) + t.err); return; }
	if (!t.err.empty()) { M.violation("stderr", t.err); return; }
	if (t.out != want && t.out != alt + x.out) {
		size_t i = 0; while (i < want.size() && i < t.out.size() && want[i] == t.out[i]) ++i;
		size_t ls = want.rfind('\n', i ? i - 1 : 0); ls = ls == std::string::npos || !i ? 0 : ls + 1;
		std::string wl = want.substr(ls, want.find('\n', ls) - ls), gl = t.out.size() >= ls ? t.out.substr(ls, t.out.find('\n', ls) - ls) : "(end)";
		std::string k = wl.empty() ? "extra" : gl.empty() ? "missing" : wl[0] == '[' ? "event" : ls < vprefix.size() ? "verbose" : wl.compare(0, 5, "insn:") == 0 || wl.compare(0, 6, "blocks") == 0 ? "stat" : "insn";
		M.violation("output:" + k, strf("at byte %zu: \"%s\" instead of \"%s\"", i, gl.c_str(), wl.c_str()));
		return;
	}
	M.nontrivial(hashs(x.out)); M.count("runs"); M.count(o.insn ? "insn_runs" : "block_runs"); if (x.truth) M.count("true_runs"); if (sideband && x.truth) M.count("sideband_runs"); if (x.errors) M.count("with_errors");
	if (o.check && !o.lie && x.truth) M.count("checks_silent"); if (o.lie) M.count(strf("lies:%d", o.lie)); if (o.stat) M.count("stats"); if (o.quiet) M.count("quiet"); if (late_conf) M.count("late_conf"); if (o.verbose) M.count("verbose"); if (o.tick) M.count("ticks"); if (o.special) M.count("cpus");
	if (o.raw && !o.noinst) M.count("raw_insns"); if (o.sbflags) M.count("sb_text"); if (o.blocks && !o.insn) M.count("show_blocks");
	if (M.samples.size() < 3) M.sample(cmd);
}

// ------------------------------------------------------------ arguments and files that must be refused
static void malformed(Rng &r)
{
	Bytes t; mencode(MP(K_PSB), t); mencode(MP(K_PSBEND), t);
	std::string pt = M.scratch + "/m.pt", raw = M.scratch + "/m.raw"; write_file(pt, t.data(), t.size()); Bytes c(64, 0x90); write_file(raw, c.data(), c.size());
	std::vector<std::string> a; bool ok = false; std::string what;
	int k = (int) r.below(12);
	if (k < 5) {	// a damaged ELF file
		bool w64 = r.chance(50); std::vector<Seg> s; int n = (int) r.range(1, 4);
		while (n--) { Seg g; g.type = r.chance(80) ? PT_LOAD : (uint32_t) r.below(8); g.vaddr = r.wide(w64 ? 64 : 32); g.memsz = r.below(100); g.data.resize(r.below(100)); s.push_back(g); }
		uint64_t pho; Bytes f = mkelf(r, w64, s, &pho); size_t ph = w64 ? sizeof(Elf64_Phdr) : sizeof(Elf32_Phdr), eh = w64 ? sizeof(Elf64_Ehdr) : sizeof(Elf32_Ehdr); int exit = -1; bool msg = false;
		switch (r.below(6)) {
		case 0: f[r.below(4)] ^= (uint8_t) (1 + r.below(255)); exit = 1; break;
		case 1: f[EI_CLASS] = (uint8_t) (3 + r.below(250)); exit = 1; break;
		case 2: f.resize(r.below(eh)); exit = 1; break;
		case 3: if (pho + ph * s.size() == f.size()) { f.resize(f.size() - 1 - r.below(ph)); exit = 1; } else { uint32_t o = (uint32_t) f.size() - (uint32_t) r.below(ph); if (w64) { Elf64_Off v = r.chance(50) ? o : r.next() | 1ull << 63; memcpy(&f[offsetof(Elf64_Ehdr, e_phoff)], &v, 8); } else { Elf32_Off v = r.chance(50) ? o : 0xffffffff; memcpy(&f[offsetof(Elf32_Ehdr, e_phoff)], &v, 4); } exit = 1; } break;
		default: { int m = (int) r.range(1, 6); while (m--) f[r.chance(80) ? r.below(std::min<size_t>(f.size(), pho + ph * s.size())) : r.below(f.size())] = (uint8_t) r.wide(8); break; }
		}
		std::string e = M.scratch + "/bad.elf"; write_file(e, f.data(), f.size());
		a = { "--elf", e + (r.chance(50) ? ":" + num(r, r.wide(48) | 1) : ""), "--pt", pt }; if (r.chance(20)) a.insert(a.begin(), "-v"); if (r.chance(30)) a[a.size() - 4] = "--pevent:kcore";
		M.note = a[1] + "\n" + hexs(f.data(), f.size());
		ToolRun x = run_tool("ptxed", a); if (x.crashed) return;
		if (exit > 0 && !x.status) M.violation("accepted:elf", strf("damaged %d-bit ELF file accepted: ", w64 ? 64 : 32) + x.err);
		if (x.status && x.err.empty()) M.violation("silent:elf", "no message"); (void) msg;
		if (x.status != 0 && x.status != 1) M.violation("status", strf("%d", x.status));
		M.count(x.status ? "elf_refused" : "elf_damaged_accepted"); M.nontrivial(hash64(f.data(), f.size()));
		return;
	}
	std::string tail; static const char *const valued[] = { "--iscache-limit", "--filter:addr0_cfg", "--filter:addr0_a", "--filter:addr0_b", "--filter:addr1_cfg", "--filter:addr1_a", "--filter:addr1_b", "--filter:addr2_cfg", "--filter:addr2_a", "--filter:addr2_b",
		"--filter:addr3_cfg", "--filter:addr3_a", "--filter:addr3_b", "--mtc-freq", "--nom-freq", "--cpuid-0x15.eax", "--cpuid-0x15.ebx", "--pevent:sample-type", "--pevent:time-zero", "--pevent:time-shift", "--pevent:time-mult",
		"--pevent:tsc-offset", "--pevent:kernel-start", "--pt", "--raw", "--elf", "--cpu", "--pevent:primary", "--pevent:secondary", "--pevent:sample-config", "--pevent:sysroot", "--pevent:kcore", "--pevent:vdso-x64", "--pevent:vdso-x32", "--pevent:vdso-ia32" };
	const char *v = valued[r.below(sizeof valued / sizeof *valued)];
	switch (k) {
	case 5: a = { "--raw", raw + ":0x1000", v }; what = "missing:" + std::string(v); break;	// no value
	case 6: {	// a bad number
		std::string o = valued[r.below(23)]; static const char *const bad[] = { "", "x", "12z", "0x", "1 2", "99999999999999999999999", "--pt", "0x1ffffffffffffffff" };
		a = { o, bad[r.below(8)], "--pt", pt }; what = "number:" + o; break; }
	case 7: {	// too big
		static const struct { const char *o, *v; } big[] = { { "--mtc-freq", "256" }, { "--nom-freq", "0x100" }, { "--cpuid-0x15.eax", "0x100000000" }, { "--cpuid-0x15.ebx", "4294967296" }, { "--pevent:time-shift", "65536" }, { "--pevent:time-mult", "0x100000000" },
			{ "--filter:addr0_cfg", "16" }, { "--filter:addr3_cfg", "0x10" }, { "--filter:addr1_cfg", "256" } };
		auto &b = big[r.below(9)]; a = { b.o, b.v, "--pt", pt }; what = std::string("big:") + b.o; break; }
	case 8: {	// after the trace
		static const char *const late[] = { "--insn-decoder", "--block-decoder", "--cpu", "--filter:addr0_cfg", "--filter:addr1_a", "--filter:addr2_b", "--filter:addr3_a", "--filter:addr0_b", "--filter:addr1_cfg", "--filter:addr3_b", "--filter:addr2_cfg", "--filter:addr3_cfg" };
		const char *l = late[r.below(12)]; a = { "--pt", pt, l }; if (l[2] == 'c') a.push_back("none"); if (l[2] == 'f') a.push_back("1"); what = std::string("late:") + l; break; }
	case 9: switch (r.below(11)) {	// files
		case 0: a = { "--raw", raw + ":0x1000" }; what = "no-trace"; break;
		case 1: a = { "--pt", M.scratch + "/none" }; what = "missing-trace"; break;
		case 2: a = { "--raw", M.scratch + "/none:0x1000", "--pt", pt }; what = "missing-raw"; break;
		case 3: a = { "--elf", M.scratch + "/none", "--pt", pt }; what = "missing-elf"; break;
		case 4: a = { "--raw", raw, "--pt", pt }; what = "raw-without-base"; break;
		case 5: a = { "--pt", pt, "--pt", pt }; what = "two-traces"; break;
		case 6: a = { "--pt", pt + strf(":%zu", t.size() + r.below(5)) }; what = "offset"; break;
		case 7: a = { "--pt", pt + strf(":4-%zu", t.size() + 1 + r.below(5)) }; what = "range"; break;
		case 8: a = { "--pt", pt + (r.chance(50) ? ":5-5" : ":6-3") }; what = "empty-range"; break;
		case 9: { uint64_t far = (1ull << 63) + r.wide(62); a = { r.chance(50) ? "--raw" : "--pt", pt + ":" + num(r, far) + (r.chance(50) ? "-" + num(r, far + 1 + r.below(10)) : "") }; if (a[0] == "--raw") { a[1] += ":0x1000"; a.push_back("--pt"); a.push_back(pt); } what = "far-offset"; break; }
		case 10: { int n = r.chance(50) ? 256 : (int) r.range(256, 520); for (int i = 0; i < n; ++i) { a.push_back("--pevent:sample-config"); a.push_back(strf("%d:0x44", i)); } a.push_back("--pt"); a.push_back(pt); what = "many-configs"; break; }
		} break;
	case 10: switch (r.below(6)) {
		case 0: a = { "--foo", "--pt", pt }; what = "unknown-option"; break;
		case 1: a = { "--cpu", r.chance(50) ? "6" : "6/x", "--pt", pt }; what = "cpu"; break;
		case 2: a = { "--pevent:primary", M.scratch + "/none", "--pt", pt }; what = "missing-sideband"; break;
		case 3: { static const char *const b[] = { "1", "x:1", "1:x", ":1", "1:1z", "1;2" }; a = { "--pevent:sample-config", b[r.below(6)], "--pt", pt }; what = "sample-config"; break; }
		case 4: a = { "--raw", raw + ":200:0x1000", "--pt", pt }; what = "raw-offset"; break;
		case 5: a = { "--raw", raw + ":0x20-0x10:0x1000", "--pt", pt }; what = "raw-range"; break;
		} break;
	default: a = { r.chance(50) ? "--help" : r.chance(50) ? "-h" : "--version" }; if (r.chance(50)) a.push_back("--foo"); ok = true; what = "help"; break;
	}
	for (auto &x : a) M.note += x + " ";
	ToolRun x = run_tool("ptxed", a); if (x.crashed) return;
	if (ok) { if (x.status || x.out.empty() || !x.err.empty()) M.violation("help", strf("exit %d ", x.status) + x.err); }
	else if (!x.status) M.violation("accepted:" + what.substr(0, what.find(':')), M.note + "accepted: " + x.out + x.err);
	else if (x.err.empty()) M.violation("silent:" + what.substr(0, what.find(':')), "no message for " + M.note);
	if (!ok && x.status != 1 && x.status) M.violation("status", strf("%d", x.status));
	M.count("malformed"); M.nontrivial(hashs(what + x.err));
}
