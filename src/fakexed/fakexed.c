/* A stand-in for Intel XED on top of libopcodes; see the header. */
#define PACKAGE 1
#define PACKAGE_VERSION 1
#include <bfd.h>
#include <dis-asm.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "xed/xed-interface.h"

static char text[512]; static size_t ntext; static int haddr; static bfd_vma addr;
static int vadd(const char *f, va_list a)
{
	int n = vsnprintf(text + ntext, sizeof text - ntext, f, a);
	if (n > 0) { ntext += (size_t) n; if (ntext >= sizeof text) ntext = sizeof text - 1; }
	return n;
}
static int pr(void *s, const char *f, ...) { va_list a; int n; (void) s; va_start(a, f); n = vadd(f, a); va_end(a); return n; }
static int prs(void *s, enum disassembler_style st, const char *f, ...) { va_list a; int n; (void) s; (void) st; va_start(a, f); n = vadd(f, a); va_end(a); return n; }
static void memerr(int st, bfd_vma a, struct disassemble_info *i) { (void) st; (void) a; (void) i; }
static void praddr(bfd_vma a, struct disassemble_info *i) { haddr = 1; addr = a; pr(0, "0x%llx", (unsigned long long) a); (void) i; }
static struct disassemble_info di[3]; static disassembler_ftype df[3];

static int slot(xed_machine_mode_enum_t m)
{
	switch (m) {
	case XED_MACHINE_MODE_LONG_64: return 2;
	case XED_MACHINE_MODE_LEGACY_32: case XED_MACHINE_MODE_LONG_COMPAT_32: return 1;
	case XED_MACHINE_MODE_LEGACY_16: case XED_MACHINE_MODE_LONG_COMPAT_16: case XED_MACHINE_MODE_REAL_16: return 0;
	default: return -1;
	}
}
static int setup(int i)
{
	if (df[i]) return 1;
	init_disassemble_info(&di[i], NULL, pr, prs);
	di[i].arch = bfd_arch_i386; di[i].mach = i == 0 ? bfd_mach_i386_i8086 : i == 1 ? bfd_mach_i386_i386 : bfd_mach_x86_64;
	di[i].endian = BFD_ENDIAN_LITTLE; di[i].memory_error_func = memerr; di[i].print_address_func = praddr; di[i].disassembler_options = i == 2 ? "intel64" : NULL;
	disassemble_init_for_target(&di[i]); df[i] = disassembler(di[i].arch, 0, di[i].mach, NULL);
	return df[i] != NULL;
}
static int inited;
void xed_tables_init(void) { inited = 1; }
int xed_fake_lie(void) { const char *e = getenv("FAKEXED_LIE"); return e ? atoi(e) : 0; }

static const struct { const char *t; int n; xed_iclass_enum_t c; } names[] = {
#define N(t, c) { t, 0, XED_ICLASS_##c }
#define P(t, c) { t, 1, XED_ICLASS_##c }
	P("lcall", CALL_FAR), P("call", CALL_NEAR), N("erets", ERETS), N("eretu", ERETU), N("int", INT), N("int1", INT1), N("icebp", INT1), N("int3", INT3), N("into", INTO),
	N("iretq", IRETQ), N("iret", IRET), N("iretl", IRETD), N("iretw", IRET), P("ljmp", JMP_FAR), N("jmpabs", JMPABS), P("jmp", JMP), P("jcxz", JCXZ), P("jecxz", JECXZ), P("jrcxz", JRCXZ),
	P("jbe", JBE), P("jb", JB), P("jae", JNB), P("jnb", JNB), P("jle", JLE), P("jl", JL), P("jge", JNL), P("jg", JNLE), P("ja", JNBE), P("jno", JNO), P("jnp", JNP), P("jns", JNS), P("jne", JNZ), P("jo", JO),
	P("jp", JP), P("js", JS), P("je", JZ), P("loopne", LOOPNE), P("loope", LOOPE), P("loop", LOOP), P("ptwrite", PTWRITE), P("lret", RET_FAR), P("ret", RET_NEAR), P("syscall", SYSCALL),
	P("sysenter", SYSENTER), P("sysexit", SYSEXIT), P("sysretq", SYSRET64), P("sysret", SYSRET), P("uiret", UIRET), P("vmcall", VMCALL), P("vmlaunch", VMLAUNCH), P("vmresume", VMRESUME),
};
static xed_iclass_enum_t classify(void)
{
	static const char *const pre[] = { "rep", "repz", "repe", "repnz", "repne", "lock", "data16", "data32", "addr16", "addr32", "cs", "ds", "es", "ss", "fs", "gs", "bnd", "notrack", "xacquire", "xrelease", NULL };
	char *p = text; size_t i;
	for (;;) {
		char *e; size_t n;
		while (*p == ' ' || *p == '\t') p++;
		if (*p == '{') { p = strchr(p, '}'); if (!p) return XED_ICLASS_NOP; p++; continue; }
		e = p + strcspn(p, " \t"); n = (size_t) (e - p);
		if (!n) return XED_ICLASS_NOP;
		for (i = 0; pre[i]; i++) if (strlen(pre[i]) == n && !strncmp(p, pre[i], n)) break;
		if (pre[i] || !strncmp(p, "rex", 3)) { p = e; continue; }
		e = p + strcspn(p, " \t,"); n = (size_t) (e - p);
		for (i = 0; i < sizeof names / sizeof *names; i++) {
			size_t k = strlen(names[i].t);
			if (names[i].n ? n >= k && !strncmp(p, names[i].t, k) : n == k && !strncmp(p, names[i].t, k)) return names[i].c;
		}
		return XED_ICLASS_NOP;
	}
}
xed_error_enum_t xed_decode(xed_decoded_inst_t *x, const xed_uint8_t *b, unsigned int n)
{
	uint8_t buf[32]; int k, s; bfd_vma ip = 0x10000000;	/* targets never wrap around */
	if (!inited) { fprintf(stderr, "fakexed: not initialized\n"); abort(); }
	if (x->valid != 0 && x->valid != 1) { fprintf(stderr, "fakexed: uninitialized instruction\n"); abort(); }
	x->valid = 0; x->length = 0; x->iclass = XED_ICLASS_INVALID; x->direct = 0; x->disp = 0;
	k = slot(x->state.mmode);
	if (k < 0 || !setup(k)) return XED_ERROR_GENERAL_ERROR;
	if (n > 15) n = 15;
	memset(buf, 0, sizeof buf); memcpy(buf, b, n);
	if (k == 0) ip = 0x8000;
	ntext = 0; text[0] = 0; haddr = 0;
	di[k].buffer = buf; di[k].buffer_vma = ip; di[k].buffer_length = 16;
	s = df[k](ip, &di[k]);
	if (s <= 0 || s > 15 || strstr(text, "bad)") || strstr(text, "bad}")) return s > (int) n ? XED_ERROR_BUFFER_TOO_SHORT : XED_ERROR_GENERAL_ERROR;
	if (s > (int) n) return XED_ERROR_BUFFER_TOO_SHORT;
	x->length = (xed_uint_t) s; memcpy(x->raw, buf, (size_t) s);
	x->iclass = classify();
	switch (x->iclass) {
	case XED_ICLASS_CALL_NEAR: case XED_ICLASS_JMP: x->direct = !strchr(text, '*'); break;
	default: x->direct = x->iclass >= XED_ICLASS_JB && x->iclass <= XED_ICLASS_LOOPNE && x->iclass != XED_ICLASS_JMPABS && x->iclass != XED_ICLASS_JMP_FAR; break;
	}
	if (x->direct && haddr) {
		x->disp = (int64_t) (addr - ip - (bfd_vma) s);
		if (k == 0) x->disp = (int16_t) x->disp; else if (k == 1) x->disp = (int32_t) x->disp;
	} else x->direct = 0;
	if (s == 1 && b[0] == 0x90) switch (xed_fake_lie()) {
	case 1: x->iclass = XED_ICLASS_JMP; break;
	case 2: return XED_ERROR_BAD_LOCK_PREFIX;
	}
	if (xed_fake_lie() == 3 && x->iclass != XED_ICLASS_NOP) {
		static const xed_iclass_enum_t c[] = { XED_ICLASS_NOP, XED_ICLASS_JMP, XED_ICLASS_JZ, XED_ICLASS_CALL_FAR, XED_ICLASS_PTWRITE, XED_ICLASS_CALL_NEAR, XED_ICLASS_IRET, XED_ICLASS_RET_NEAR, XED_ICLASS_JMP_FAR };
		unsigned h = 0; for (int i = 0; i < s; i++) h = h * 31 + b[i];
		if (h % 3 != 1) x->iclass = c[h / 3 % (sizeof c / sizeof *c)];
	}
	x->valid = 1;
	return XED_ERROR_NONE;
}
void xed_state_zero(xed_state_t *s) { memset(s, 0, sizeof *s); }
void xed_state_init2(xed_state_t *s, xed_machine_mode_enum_t m, xed_address_width_enum_t w) { s->mmode = m; s->stack_addr_width = w; }
void xed_state_init(xed_state_t *s, xed_machine_mode_enum_t m, xed_address_width_enum_t w, xed_address_width_enum_t w2) { (void) w; s->mmode = m; s->stack_addr_width = w2; }
void xed_state_set_machine_mode(xed_state_t *s, xed_machine_mode_enum_t m) { s->mmode = m; }
xed_machine_mode_enum_t xed_state_get_machine_mode(const xed_state_t *s) { return s->mmode; }
void xed_state_set_stack_address_width(xed_state_t *s, xed_address_width_enum_t w) { s->stack_addr_width = w; }
void xed_decoded_inst_zero(xed_decoded_inst_t *x) { memset(x, 0, sizeof *x); }
void xed_decoded_inst_zero_set_mode(xed_decoded_inst_t *x, const xed_state_t *s) { memset(x, 0, sizeof *x); x->state = *s; }
void xed_decoded_inst_zero_keep_mode(xed_decoded_inst_t *x) { xed_state_t s = x->state; memset(x, 0, sizeof *x); x->state = s; }
void xed_decoded_inst_set_mode(xed_decoded_inst_t *x, xed_machine_mode_enum_t m, xed_address_width_enum_t w) { x->state.mmode = m; x->state.stack_addr_width = w; }
xed_bool_t xed_decoded_inst_valid(const xed_decoded_inst_t *x) { return x->valid == 1; }
xed_iclass_enum_t xed_decoded_inst_get_iclass(const xed_decoded_inst_t *x) { return x->iclass; }
xed_uint_t xed_decoded_inst_get_length(const xed_decoded_inst_t *x) { return x->length; }
xed_uint_t xed_decoded_inst_get_byte(const xed_decoded_inst_t *x, xed_uint_t i) { return i < x->length ? x->raw[i] : 0; }
xed_uint_t xed_decoded_inst_get_branch_displacement_width(const xed_decoded_inst_t *x) { return x->direct ? 4 : 0; }
xed_uint_t xed_decoded_inst_get_branch_displacement_width_bits(const xed_decoded_inst_t *x) { return x->direct ? 32 : 0; }
xed_int64_t xed_decoded_inst_get_branch_displacement(const xed_decoded_inst_t *x) { return x->disp; }
void xed_init_print_info(xed_print_info_t *p) { memset(p, 0, sizeof *p); p->syntax = XED_SYNTAX_INTEL; }
xed_bool_t xed_format_generic(xed_print_info_t *p)
{
	xed_uint_t i; int n;
	if (!p->p || !p->buf || p->blen < 64 || !p->p->valid) return 0;
	n = snprintf(p->buf, (size_t) p->blen, "%s%d %llx ", p->syntax == XED_SYNTAX_ATT ? "att" : p->syntax == XED_SYNTAX_INTEL ? "intel" : "xed", p->p->state.mmode, (unsigned long long) p->runtime_address);
	for (i = 0; i < p->p->length; i++) n += snprintf(p->buf + n, (size_t) (p->blen - n), "%02x", p->p->raw[i]);
	return 1;
}
xed_bool_t xed_format_context(xed_syntax_enum_t s, const xed_decoded_inst_t *x, char *b, int n, xed_uint64_t a, void *c, xed_disassembly_callback_fn_t f)
{
	xed_print_info_t p; xed_init_print_info(&p); p.p = x; p.buf = b; p.blen = n; p.runtime_address = a; p.syntax = s; (void) c; (void) f;
	return xed_format_generic(&p);
}
const char *xed_error_enum_t2str(xed_error_enum_t e)
{
	static const char *const t[] = { "NONE", "BUFFER_TOO_SHORT", "GENERAL_ERROR", "INVALID_FOR_CHIP", "BAD_REGISTER", "BAD_LOCK_PREFIX", "LAST" };
	return (unsigned) e < sizeof t / sizeof *t ? t[e] : "?";
}
const char *xed_iclass_enum_t2str(xed_iclass_enum_t c)
{
	static const char *const t[] = {
#define X(n) #n,
		XED_FAKE_ICLASSES(X)
#undef X
	};
	return (unsigned) c < sizeof t / sizeof *t ? t[c] : "?";
}
