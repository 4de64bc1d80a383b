// C13: instruction length and class, against two independent disassemblers (GNU libopcodes and LLVM), both in-process.  What both accept with
// the same length is taken to be valid.  The code under test is observed through the instruction and block flow decoders.
#include "mon.hpp"
#define PACKAGE 1
#define PACKAGE_VERSION 1
#include <bfd.h>
#include <dis-asm.h>
#include <llvm-c/Disassembler.h>
#include <llvm-c/Target.h>
#include "intel-pt.h"

using Bytes = std::vector<uint8_t>;

// ---------------------------------------------------------------- the disassemblers
static std::string out;
static int pr(void *, const char *f, ...) { char b[256]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); out += b; return n; }
static int prs(void *, enum disassembler_style, const char *f, ...) { char b[256]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); out += b; return n; }
static void memerr(int, bfd_vma, struct disassemble_info *) {}
static void praddr(bfd_vma a, struct disassemble_info *) { out += strf("0x%llx", (unsigned long long) a); }
static struct disassemble_info di[3]; static disassembler_ftype df[3]; static LLVMDisasmContextRef lc[3];
static const enum pt_exec_mode modes[3] = { ptem_16bit, ptem_32bit, ptem_64bit };

static void dis_init()
{
	for (int i = 0; i < 3; ++i) {
		init_disassemble_info(&di[i], nullptr, pr, prs);
		di[i].arch = bfd_arch_i386; di[i].mach = i == 0 ? bfd_mach_i386_i8086 : i == 1 ? bfd_mach_i386_i386 : bfd_mach_x86_64;
		di[i].endian = BFD_ENDIAN_LITTLE; di[i].memory_error_func = memerr; di[i].print_address_func = praddr;
		di[i].disassembler_options = i == 2 ? "intel64" : nullptr;
		disassemble_init_for_target(&di[i]); df[i] = disassembler(di[i].arch, false, di[i].mach, nullptr);
	}
	LLVMInitializeX86TargetInfo(); LLVMInitializeX86Target(); LLVMInitializeX86TargetMC(); LLVMInitializeX86Disassembler();
	static const char *tr[] = { "i386-unknown-unknown-code16", "i386-unknown-unknown", "x86_64-unknown-unknown" };
	for (int i = 0; i < 3; ++i) lc[i] = LLVMCreateDisasm(tr[i], nullptr, 0, nullptr, nullptr);
	if (!df[0] || !df[1] || !df[2] || !lc[0] || !lc[1] || !lc[2]) { fprintf(stderr, "no disassembler\n"); _exit(99); }
}

// The offset of the first byte that is not a legacy prefix or REX.
static size_t skip(const uint8_t *p, size_t n, int m)
{
	size_t i = 0;
	for (; i < n; ++i) switch (p[i]) {
	case 0x26: case 0x2e: case 0x36: case 0x3e: case 0x64: case 0x65: case 0x66: case 0x67: case 0xf0: case 0xf2: case 0xf3: continue;
	default: if (m == 2 && (p[i] & 0xf0) == 0x40) continue; return i;
	}
	return i;
}

enum Cls { OTHER, PTWRITE, CALL, JUMP, COND, RET, FCALL, FRET, FJUMP, NOCLS };
static const char *clsname[] = { "other", "ptwrite", "call", "jump", "cond", "ret", "far_call", "far_ret", "far_jump", "none" };
static enum pt_insn_class ptc(Cls c)
{
	switch (c) {
	case OTHER: return ptic_other; case PTWRITE: return ptic_ptwrite; case CALL: return ptic_call; case JUMP: return ptic_jump; case COND: return ptic_cond_jump;
	case RET: return ptic_return; case FCALL: return ptic_far_call; case FRET: return ptic_far_return; case FJUMP: return ptic_far_jump; default: return ptic_unknown;
	}
}

static std::string mnemonic(const std::string &t)
{
	size_t p = 0;
	while (p < t.size()) {
		while (p < t.size() && (t[p] == ' ' || t[p] == '\t')) ++p;
		if (p < t.size() && t[p] == '{') { p = t.find('}', p); if (p == std::string::npos) return ""; ++p; continue; }
		size_t e = t.find_first_of(" \t", p); std::string w = t.substr(p, e == std::string::npos ? e : e - p);
		static const std::set<std::string> pre = { "rep", "repz", "repe", "repnz", "repne", "lock", "data16", "data32", "addr16", "addr32", "cs", "ds", "es", "ss", "fs", "gs", "bnd", "notrack", "xacquire", "xrelease" };
		if (!pre.count(w) && w.compare(0, 3, "rex")) { size_t c = w.find(','); return c == std::string::npos ? w : w.substr(0, c); }
		if (e == std::string::npos) return "";
		p = e;
	}
	return "";
}
static bool starts(const std::string &s, const char *p) { return !s.compare(0, strlen(p), p); }

// What the disassemblers say.
struct Ref {
	int size = 0; Cls cls = NOCLS; bool direct = false, cr3 = false, cramb = false, vmptrld = false; std::string text, why;
	bool ok = false;	// valid, size is known
};

static Ref reference(const uint8_t *p, size_t n, int m, uint64_t ip)
{
	Ref r; uint8_t b[32]; memcpy(b, p, n);
	out.clear(); di[m].buffer = b; di[m].buffer_vma = ip; di[m].buffer_length = (unsigned) n; int a = df[m](ip, &di[m]);
	if (out.find("(bad)") != std::string::npos || out.find("{bad}") != std::string::npos || out.find("bad}") != std::string::npos || a > 15) a = -1;
	r.text = out; while (!r.text.empty() && r.text.back() == ' ') r.text.pop_back();
	std::string mn = mnemonic(r.text);
	size_t o = skip(p, n, m); if (o >= n) return r;
	if (mn.empty()) a = -1;
	// A REX prefix only counts right before the opcode; leave it to the disassemblers to agree about others.
	bool rexpair = false; for (size_t i = 0; m == 2 && i + 1 < o; ++i) if ((p[i] & 0xf0) == 0x40) rexpair = true;
	bool rex2 = m == 2 && p[o] == 0xd5;
	int l = -1; char t[256];
	if (!rex2) { size_t s = LLVMDisasmInstruction(lc[m], b, n, ip, t, sizeof t); l = s ? (int) s : -1; }
	if (p[o] == 0x0f && o + 1 < n && p[o + 1] == 0x0f) { r.why = "3dnow"; return r; }
	if (p[o] == 0x8f && !starts(mn, "pop")) { r.why = "xop"; return r; }
	// Classes
	Cls c = OTHER; bool star = r.text.find('*') != std::string::npos;
	if (starts(mn, "jmpe")) c = NOCLS;
	else if (starts(mn, "jmp")) { c = JUMP; r.direct = !star && mn != "jmpabs"; }
	else if (mn[0] == 'j' || starts(mn, "loop")) { c = COND; r.direct = true; }
	else if (starts(mn, "call")) { c = CALL; r.direct = !star; }
	else if (starts(mn, "lcall")) c = FCALL; else if (starts(mn, "ljmp")) c = FJUMP; else if (starts(mn, "lret")) c = FRET;
	else if (mn == "ret" || mn == "retw" || mn == "retl" || mn == "retq") c = RET;
	else if (mn == "int" || mn == "int3" || mn == "int1" || mn == "icebp" || mn == "into" || mn == "syscall" || mn == "sysenter" || mn == "vmcall") c = FCALL;
	else if (starts(mn, "iret") || starts(mn, "sysret") || starts(mn, "sysexit") || mn == "vmlaunch" || mn == "vmresume" || mn == "uiret" || mn == "erets" || mn == "eretu") c = FRET;
	else if (starts(mn, "ptwrite")) c = PTWRITE;
	else if (mn == "rsm" || starts(mn, "encl") || starts(mn, "tdcall") || starts(mn, "seam") || starts(mn, "vmmcall") || starts(mn, "vmgexit") || starts(mn, "vmrun") || starts(mn, "skinit")) c = NOCLS;
	r.cls = c;
	if (starts(mn, "mov") && r.text.size() > 5 && r.text.compare(r.text.size() - 5, 5, ",%cr3") == 0) r.cr3 = true;
	r.vmptrld = starts(mn, "vmptrld");
	// Control registers above 15 (REX2.R4) do not exist; LOCK is AMD's way to address CR8 and above; 66 makes PTWRITE undefined.
	for (size_t i = 0; i < o; ++i) { if (p[i] == 0xf0) r.cramb = true; if (p[i] == 0x66 && c == PTWRITE) r.cls = c = NOCLS; }
	if (rex2 && o + 1 < n && p[o + 1] & 0x40) r.cramb = true;
	if (a <= 0) { r.why = l > 0 ? "llvm only" : "invalid"; return r; }
	r.size = a;
	if (l == a) { r.ok = true; return r; }
	if (rex2 && !rexpair && o + 2 < n) {	// binutils only
		uint8_t op = p[o + 2]; bool map1 = p[o + 1] & 0x80; bool pfx = o && (p[o - 1] & 0xf0) == 0x40;
		if (!pfx && !(map1 ? op == 0x0f || op == 0x38 || op == 0x3a : op == 0x0f || op == 0x62 || op == 0xc4 || op == 0xc5 || op == 0xd5)) r.ok = true;
		r.why = r.ok ? "" : "rex2";
		return r;
	}
	// The AMD and Intel interpretation of an operand-size prefix on near branches differs; and some of the instructions are newer than LLVM.
	if (c != OTHER && c != NOCLS && !rexpair) { if (l > 0 && !(m == 2 && r.direct)) { r.why = "disagree"; return r; } r.ok = true; return r; }
	r.why = l > 0 ? "disagree" : "binutils only";
	return r;
}

// ---------------------------------------------------------------- the code under test
struct Mem {
	uint64_t ip; Bytes code; size_t avail; size_t split; Bytes after;	// @code at @ip, @avail bytes of it, delivered in two pieces; then @after or nop
	bool only;	// nothing but @code
};
static Mem mem; static uint64_t reads;
static bool byteat(uint64_t a, uint8_t &v)
{
	uint64_t d = a - mem.ip;
	if (d < mem.code.size()) { if (d >= mem.avail) return false; v = mem.code[(size_t) d]; return true; }
	if (mem.only) return false;
	d -= mem.code.size(); v = d < mem.after.size() ? mem.after[(size_t) d] : 0x90; return true;
}
static int readmem(uint8_t *buf, size_t size, const struct pt_asid *, uint64_t ip, void *)
{
	reads++; int n = 0;
	for (; (size_t) n < size; ++n) { if (n && mem.split && ip - mem.ip < mem.split && ip + (uint64_t) n - mem.ip >= mem.split) break; if (!byteat(ip + (uint64_t) n, buf[n])) break; }
	return n ? n : -pte_nomap;
}

static const size_t TRSZ = 128;
static uint8_t trace[3][TRSZ]; static struct pt_insn_decoder *idec[3]; static struct pt_block_decoder *bdec[3]; static struct pt_image *image;
static size_t ipoff, extra;

static void ipt_init()
{
	image = pt_image_alloc("c13"); pt_image_set_callback(image, readmem, nullptr);
	for (int i = 0; i < 3; ++i) {
		uint8_t *t = trace[i]; size_t n = 0; for (int k = 0; k < 8; ++k) { t[n++] = 2; t[n++] = 0x82; }
		t[n++] = 0x99; t[n++] = i == 0 ? 0 : i == 1 ? 2 : 1; t[n++] = 0xdd; ipoff = n; n += 8; t[n++] = 2; t[n++] = 0x23; extra = n; memset(t + n, 0, TRSZ - n);
		struct pt_config c; memset(&c, 0, sizeof c); c.size = sizeof c; c.begin = t; c.end = t + TRSZ;
		idec[i] = pt_insn_alloc_decoder(&c); bdec[i] = pt_blk_alloc_decoder(&c);
		if (!idec[i] || !bdec[i] || pt_insn_set_image(idec[i], image) || pt_blk_set_image(bdec[i], image)) { fprintf(stderr, "setup failed\n"); _exit(99); }
	}
}
static void settrace(int m, const Bytes &x)
{
	for (int k = 0; k < 8; ++k) trace[m][ipoff + (size_t) k] = (uint8_t) (mem.ip >> 8 * k);
	memset(trace[m] + extra, 0, TRSZ - extra); if (!x.empty()) memcpy(trace[m] + extra, x.data(), x.size());
}
static int start(int m)
{
	int s = pt_insn_sync_set(idec[m], 0);
	while (s >= 0 && s & pts_event_pending) { struct pt_event ev; s = pt_insn_event(idec[m], &ev, sizeof ev); }
	return s;
}
static int next(int m, struct pt_insn &i) { memset(&i, 0, sizeof i); i.iclass = ptic_unknown; return pt_insn_next(idec[m], &i, sizeof i); }

// ---------------------------------------------------------------- generation
static Bytes gen(Rng &r, int m)
{
	Bytes b; int np = r.chance(45) ? 0 : r.chance(70) ? 1 : (int) r.range(2, 4);
	static const uint8_t px[] = { 0x66, 0x67, 0xf2, 0xf3, 0x66, 0x67, 0x2e, 0x3e, 0x64, 0x65, 0x36, 0x26, 0xf0 };
	for (int i = 0; i < np; ++i) b.push_back(px[r.below(sizeof px)]);
	uint8_t hi = m < 2 ? 0xc0 : 0;
	unsigned k = (unsigned) r.below(100);
	// Branches and what matters for tracing more often than others.
	if (k < 22) {
		static const Bytes ops[] = { { 0xe8 }, { 0xe9 }, { 0xeb }, { 0xe0 }, { 0xe1 }, { 0xe2 }, { 0xe3 }, { 0x70 }, { 0x0f, 0x80 }, { 0xff }, { 0x9a }, { 0xea }, { 0xc2 }, { 0xc3 }, { 0xca }, { 0xcb }, { 0xcc }, { 0xcd },
			{ 0xce }, { 0xcf }, { 0xf1 }, { 0x0f, 0x05 }, { 0x0f, 0x07 }, { 0x0f, 0x34 }, { 0x0f, 0x35 }, { 0x0f, 0x01 }, { 0x0f, 0xc7 }, { 0x0f, 0x22 }, { 0x0f, 0xae }, { 0x0f, 0x20 }, { 0x0f, 0x00 } };
		Bytes o = ops[r.below(sizeof ops / sizeof *ops)]; if (o.back() == 0x70 || o.back() == 0x80) o.back() |= (uint8_t) r.below(16);
		if (m == 2 && r.chance(10)) { b.push_back(0xd5); b.push_back((uint8_t) ((o.size() == 2 ? 0x80 : 0) | (r.next() & 0x7f))); b.push_back(o.back()); }
		else { if (m == 2 && r.chance(25)) b.push_back((uint8_t) (0x40 | r.below(16))); b.insert(b.end(), o.begin(), o.end()); }
		if (o == Bytes{ 0x0f, 0x01 }) b.push_back((uint8_t) (0xc0 | r.below(64)));
		else if (o == Bytes{ 0x0f, 0xc7 }) b.push_back((uint8_t) (0x30 | r.below(8) | r.below(4) << 6));
		else if (o == Bytes{ 0x0f, 0xae }) b.push_back((uint8_t) (0x20 | r.below(8) | r.below(4) << 6));
		else if (o == Bytes{ 0x0f, 0x22 }) b.push_back((uint8_t) (0xc0 | (r.chance(50) ? 3 << 3 : r.below(8) << 3) | r.below(8)));
	} else if (k < 72) {
		if (m == 2 && r.chance(30)) b.push_back((uint8_t) (0x40 | r.below(16)));
		unsigned map = (unsigned) r.below(5);
		if (map >= 1) b.push_back(0x0f);
		if (map == 3) b.push_back(0x38); else if (map == 4) b.push_back(0x3a);
		b.push_back((uint8_t) r.next());
	} else if (k < 78) { b.push_back(0xc5); b.push_back((uint8_t) (r.next() | hi)); b.push_back((uint8_t) r.next()); }
	else if (k < 87) { b.push_back(0xc4); b.push_back((uint8_t) (((r.next() & 0xe0) | hi) | (r.chance(90) ? r.range(1, 3) : r.below(32)))); b.push_back((uint8_t) (r.chance(50) ? r.next() : (r.next() & 0x87) | 0x78)); b.push_back((uint8_t) r.next()); }
	else if (k < 96 || m != 2) {
		b.push_back(0x62); b.push_back((uint8_t) (((r.next() & 0xf0) | hi) | (r.chance(40) ? r.below(8) : r.range(1, 6)) | (r.chance(10) ? 8 : 0)));
		b.push_back((uint8_t) ((r.chance(50) ? r.next() & 0x83 : (r.next() & 0xfb)) | 4 | (r.chance(60) ? 0x78 : 0))); b.push_back((uint8_t) (r.chance(40) ? r.next() : (r.next() & 0x67) | 8)); b.push_back((uint8_t) r.next());
	} else { b.push_back(0xd5); b.push_back((uint8_t) r.next()); b.push_back((uint8_t) r.next()); }
	while (b.size() < 15) b.push_back((uint8_t) r.next());
	b.resize(15);
	// boundary-rich displacements
	if (k < 22 && r.chance(40)) for (size_t i = 6; i < 15; ++i) if (r.chance(50)) b[i] = r.chance(50) ? 0xff : 0;
	return b;
}

static uint64_t place(Rng &r, int m)
{
	switch (m) {
	case 0: return r.chance(70) ? r.range(0x1000, 0xf000) : r.range(0x10000, 0xffff0000);
	case 1: return r.chance(40) ? r.range(0x1000, 0xffffffe0) : r.chance(50) ? 0xffffffe0 - r.below(0x3000) : r.range(0x1000, 0x8000);
	default: return r.chance(50) ? r.range(0x1000, 0x7fffffffff00ull) : r.chance(50) ? 0xffff800000000000ull + r.below(0x7fffff000000ull) : 0x100000000ull - 0x1000 + r.below(0x2000);
	}
}

static void one(Rng &r)
{
	int m = (int) r.below(3); static const int bits[] = { 16, 32, 64 };
	Bytes b = gen(r, m); mem = Mem(); mem.ip = place(r, m); mem.code = b; mem.avail = 15; mem.only = true;
	Ref ref = reference(b.data(), b.size(), m, mem.ip);
	M.note = strf("mode %d ip %llx bytes %s: %d '%s' %s %s\n", bits[m], (unsigned long long) mem.ip, hexs(b.data(), b.size()).c_str(), ref.size, ref.text.c_str(), clsname[ref.cls], ref.why.c_str());
	settrace(m, {});
	struct pt_insn in; int s = start(m);
	if (s < 0) { M.violation("setup", strf("cannot start: %d", s)); return; }
	s = next(m, in);
	size_t o = skip(b.data(), 15, m); const char *sp = o < 15 ? b[o] == 0xc4 || b[o] == 0xc5 ? "vex" : b[o] == 0x62 ? "evex" : b[o] == 0xd5 && m == 2 ? "rex2" : b[o] == 0x0f ? "0f" : "map0" : "none";
	if (!ref.ok) { M.count("not_agreed"); return; }
	const char *cn = clsname[ref.cls]; Cls c = ref.cls;
	if (!in.size || in.iclass == ptic_unknown || in.iclass == ptic_error) { M.violation(strf("refused:%s:%d", sp, bits[m]), strf("a valid instruction is refused: %d", s)); return; }
	if (in.size != ref.size) { M.violation(strf("size:%s:%d", sp, bits[m]), strf("size %d instead of %d", in.size, ref.size)); return; }
	if (memcmp(in.raw, b.data(), in.size) || in.ip != mem.ip || in.mode != modes[m]) { M.violation("fields", strf("ip %llx mode %d bytes %s", (unsigned long long) in.ip, in.mode, hexs(in.raw, in.size).c_str())); return; }
	if (c != NOCLS && in.iclass != ptc(c)) { M.violation(strf("class:%s:%d", cn, bits[m]), strf("class %d", in.iclass)); return; }
	M.count(strf("agreed:%d", bits[m])); M.count(strf("space:%s", sp)); M.count(strf("class:%s", cn));
	size_t L = (size_t) ref.size;
	size_t ol = o + (b[o] == 0x0f ? b[o + 1] == 0x38 || b[o + 1] == 0x3a ? 3 : 2 : b[o] == 0xc4 ? 4 : b[o] == 0xc5 ? 3 : b[o] == 0x62 ? 5 : *sp == 'r' ? 3 : 1);
	M.nontrivial(hash64(b.data(), std::min(ol + 1, L), (uint64_t) m));
	Bytes x(b.begin(), b.begin() + (long) L);

	// Memory ends somewhere inside of it or right behind it.
	if (r.chance(25)) {
		mem.code = x; mem.avail = r.chance(30) ? L : r.below(L); mem.only = true; size_t av = mem.avail; start(m); s = next(m, in);
		if (av == L) { if (in.size != L || in.iclass == ptic_unknown) { M.violation("end:refused", strf("refused when memory ends behind it: %d", s)); return; } M.count("memory_ends_behind"); }
		else { if (s >= 0) { M.violation("end:accepted", strf("size %d, accepted with %zu bytes, %d", in.size, av, s)); return; } M.count("memory_ends_inside"); }
	}
	// Memory is read in two pieces.
	if (r.chance(15) && L > 1) {
		mem.code = x; mem.avail = L; mem.only = false; mem.split = r.range(1, L - 1); start(m); s = next(m, in); size_t sp1 = mem.split; mem.split = 0;
		if (in.size != L || memcmp(in.raw, b.data(), L) || (c != NOCLS && in.iclass != ptc(c)) || !in.truncated) { M.violation("split", strf("split at %zu: size %d class %d truncated %d, %d", sp1, in.size, in.iclass, in.truncated, s)); return; }
		M.count("split");
	}
	// Redundant prefixes: up to 15 bytes are fine.
	if (r.chance(15)) {
		size_t n = r.chance(50) ? 15 - L + r.below(3) : r.range(1, 14); static const uint8_t seg[] = { 0x26, 0x2e, 0x36, 0x3e, 0x64, 0x65 };
		mem.code.clear(); for (size_t i = 0; i < n; ++i) mem.code.push_back(seg[r.below(6)]);
		mem.code.insert(mem.code.end(), x.begin(), x.end()); mem.avail = mem.code.size(); mem.only = false; start(m); s = next(m, in);
		if (n + L > 15) { if (s >= 0) { M.violation("long:accepted", strf("%zu bytes are accepted: size %d", n + L, in.size)); return; } M.count("too_long"); }
		else if (in.size != n + L || (c != NOCLS && in.iclass != ptc(c))) { M.violation("long:refused", strf("%zu prefixes: size %d instead of %zu class %d, %d", n, in.size, n + L, in.iclass, s)); return; }
		else M.count("prefixed");
	}
	if (c == NOCLS) return;
	// Where it goes.
	mem.code = x; mem.avail = L; mem.only = false;
	uint64_t nip = mem.ip + L, to = nip; bool know = c == OTHER || c == PTWRITE; Bytes t;
	int64_t disp = 0;
	if (ref.direct) {
		size_t op = o, rel; if (*sp == 'r') return;
		if (b[op] == 0x0f) rel = L - op - 2; else rel = L - op - 1;
		if (rel == 1) disp = (int8_t) x[L - 1]; else if (rel == 2) { int16_t w; memcpy(&w, &x[L - 2], 2); disp = w; } else if (rel == 4) { int32_t w; memcpy(&w, &x[L - 4], 4); disp = w; }
		else { M.violation("rel", strf("unexpected relative operand of %zu bytes", rel)); return; }
		bool p66 = false; for (size_t i = 0; i < o; ++i) if (x[i] == 0x66) p66 = true;
		bool o16 = m == 2 ? false : (m == 0) != p66; bool taken = true;
		if (c == COND) { taken = r.chance(50); t.push_back(taken ? 0x06 : 0x04); }
		if (taken) to = nip + (uint64_t) disp;
		if (m != 2) to &= 0xffffffff;
		know = !(o16 && (to ^ mem.ip) >> 16) && to > 0x20 && !(to - mem.ip < L + 64) && !(to - mem.ip + 64 < L + 64) && (m != 2 || (int64_t) (to ^ mem.ip) >= 0);
		if (!taken) know = true;
		if (know) M.count(m != 2 && taken && nip + (uint64_t) disp != to ? "wrapped" : taken ? "targets" : "not_taken");
	}
	if (know) {
		settrace(m, t); start(m); s = next(m, in); struct pt_insn i2; int s2 = 0; 
		if (s >= 0 && !(s & pts_event_pending)) s2 = next(m, i2);
		if (s < 0 || s2 < 0 || s & pts_event_pending || i2.ip != to) { M.violation(strf("next:%s:%d", cn, bits[m]), strf("continues at %llx instead of %llx: %d %d", (unsigned long long) i2.ip, (unsigned long long) to, s, s2)); return; }
		M.count(strf("next:%s", cn));
	}
	// The same block-wise.
	if (r.chance(20) && (know || c >= RET || !ref.direct)) {
		mem.after = { 0xc3 }; settrace(m, t); struct pt_block bl; memset(&bl, 0, sizeof bl);
		s = pt_blk_sync_set(bdec[m], 0); while (s >= 0 && s & pts_event_pending) { struct pt_event ev; s = pt_blk_event(bdec[m], &ev, sizeof ev); }
		if (s >= 0) s = pt_blk_next(bdec[m], &bl, sizeof bl);
		mem.after.clear();
		bool flow = c == OTHER || c == PTWRITE; bool dj = ref.direct && c != COND && know;
		if (dj) { // continues with nops until the block is full
			if (bl.ip != mem.ip || bl.ninsn < 2) { M.violation(strf("block:%s", cn), strf("block %llx ninsn %u, %d", (unsigned long long) bl.ip, bl.ninsn, s)); return; }
		} else {
			uint64_t end = flow ? nip : mem.ip; unsigned n = flow ? 2 : 1; enum pt_insn_class ic = flow ? ptic_return : ptc(c);
			if (bl.ip != mem.ip || bl.end_ip != end || bl.ninsn != n || (bl.iclass != ic && bl.iclass != ptic_unknown && bl.iclass != ptic_indirect)) {
				M.violation(strf("block:%s", cn), strf("block %llx-%llx ninsn %u class %d instead of -%llx %u %d, %d", (unsigned long long) bl.ip, (unsigned long long) bl.end_ip, bl.ninsn, bl.iclass, (unsigned long long) end, n, ic, s)); return; }
		}
		M.count("blocks");
	}
	// What events bind to it.
	if ((c == OTHER || c == PTWRITE) && r.chance(40)) {
		Bytes mov = { 0x0f, 0x22, 0xd8 }, vm = { 0x0f, 0xc7, 0x37 }, ptw = { 0xf3, 0x0f, 0xae, 0xe0 };
		int k = (int) r.below(4); mem.after.clear(); t.clear(); bool bound; enum pt_event_type ty; uint64_t val = r.next(), where = nip;
		if (k < 2 && ref.cramb) return;
		// the two that do not match, then the one that does
		switch (k) {
		case 0: t = { 0x01 }; bound = ref.cr3; ty = ptev_disabled; break;
		case 1: t = { 0x02, 0x43, (uint8_t) (val & 0xfe), 2, 3, 4, 5, 6 }; bound = ref.cr3; ty = ptev_paging; break;
		case 2: t = { 0x02, 0xc8, (uint8_t) val, 2, 3, 4, 5 }; bound = ref.vmptrld; ty = ptev_vmcs; break;
		default: t = { 0x02, 0x12, (uint8_t) val, 2, 3, 4 }; bound = c == PTWRITE; ty = ptev_ptwrite; break;
		}
		auto cat = [&](const Bytes &y) { mem.after.insert(mem.after.end(), y.begin(), y.end()); };
		if (k < 2) { cat(vm); cat(ptw); cat(mov); where += 7; } else if (k == 2) { cat(mov); cat(ptw); cat(vm); where += 7; } else { cat(mov); cat(vm); cat(ptw); where += 6; }
		uint64_t last = bound ? mem.ip : where;
		settrace(m, t); start(m); uint64_t at = 0; int steps = 0;
		do { s = next(m, in); if (in.size) at = in.ip; } while (s >= 0 && !(s & pts_event_pending) && ++steps < 8);
		struct pt_event ev; memset(&ev, 0, sizeof ev);
		if (s >= 0 && s & pts_event_pending) s = pt_insn_event(idec[m], &ev, sizeof ev);
		mem.after.clear();
		if (s < 0 || ev.type != ty || at != last) {
			M.note += strf("trace %s\n", hexs(t.data(), t.size()).c_str());
			M.violation(strf("bind:%d:%s", k, bound ? "missed" : "extra"), strf("event %d after %llx instead of %d after %llx, %d", ev.type, (unsigned long long) at, ty, (unsigned long long) last, s)); return; }
		M.count(bound ? strf("bound:%d", k) : "not_bound");
	}
}

void run_case(Rng &r)
{
	static bool init; if (!init) { dis_init(); ipt_init(); init = true; }
	for (int i = 0; i < 64; ++i) one(r);
}
