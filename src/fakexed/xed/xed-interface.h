/* A stand-in for Intel XED, which is not available here: as much of its interface as ptxed uses, on top of libopcodes. */
#ifndef XED_INTERFACE_H
#define XED_INTERFACE_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef unsigned int xed_uint_t;
typedef unsigned int xed_bool_t;
typedef uint8_t xed_uint8_t;
typedef int32_t xed_int32_t;
typedef int64_t xed_int64_t;
typedef uint64_t xed_uint64_t;

typedef enum { XED_MACHINE_MODE_INVALID, XED_MACHINE_MODE_LONG_64, XED_MACHINE_MODE_LONG_COMPAT_32, XED_MACHINE_MODE_LONG_COMPAT_16, XED_MACHINE_MODE_LEGACY_32,
	XED_MACHINE_MODE_LEGACY_16, XED_MACHINE_MODE_REAL_16, XED_MACHINE_MODE_REAL_32, XED_MACHINE_MODE_LAST } xed_machine_mode_enum_t;
typedef enum { XED_ADDRESS_WIDTH_INVALID = 0, XED_ADDRESS_WIDTH_16b = 2, XED_ADDRESS_WIDTH_32b = 4, XED_ADDRESS_WIDTH_64b = 8 } xed_address_width_enum_t;
typedef enum { XED_ERROR_NONE, XED_ERROR_BUFFER_TOO_SHORT, XED_ERROR_GENERAL_ERROR, XED_ERROR_INVALID_FOR_CHIP, XED_ERROR_BAD_REGISTER, XED_ERROR_BAD_LOCK_PREFIX, XED_ERROR_LAST } xed_error_enum_t;
typedef enum { XED_SYNTAX_INVALID, XED_SYNTAX_XED, XED_SYNTAX_ATT, XED_SYNTAX_INTEL, XED_SYNTAX_LAST } xed_syntax_enum_t;
#define XED_FAKE_ICLASSES(X) X(INVALID) X(CALL_FAR) X(CALL_NEAR) X(ERETS) X(ERETU) X(INT) X(INT1) X(INT3) X(INTO) X(IRET) X(IRETD) X(IRETQ) X(JB) X(JBE) X(JCXZ) X(JECXZ) X(JL) X(JLE) X(JMP) \
	X(JMPABS) X(JMP_FAR) X(JNB) X(JNBE) X(JNL) X(JNLE) X(JNO) X(JNP) X(JNS) X(JNZ) X(JO) X(JP) X(JRCXZ) X(JS) X(JZ) X(LOOP) X(LOOPE) X(LOOPNE) X(NOP) X(PTWRITE) X(RET_FAR) X(RET_NEAR) \
	X(SYSCALL) X(SYSCALL_32) X(SYSCALL_AMD) X(SYSENTER) X(SYSEXIT) X(SYSRET) X(SYSRET64) X(SYSRET_AMD) X(UIRET) X(VMCALL) X(VMLAUNCH) X(VMRESUME) X(LAST)
typedef enum {
#define X(n) XED_ICLASS_##n,
	XED_FAKE_ICLASSES(X)
#undef X
} xed_iclass_enum_t;
#define XED_ICLASS_JMPABS_DEFINED 1
#define XED_ICLASS_ERETS_DEFINED 1
#define XED_ICLASS_ERETU_DEFINED 1
#define XED_ICLASS_SYSCALL_AMD_DEFINED 1
#define XED_ICLASS_SYSCALL_32_DEFINED 1

typedef struct { xed_machine_mode_enum_t mmode; xed_address_width_enum_t stack_addr_width; } xed_state_t;
typedef struct {
	xed_state_t state; int valid; xed_uint_t length; uint8_t raw[16]; xed_iclass_enum_t iclass; int direct; int64_t disp;
} xed_decoded_inst_t;
typedef int (*xed_disassembly_callback_fn_t)(xed_uint64_t address, char *buffer, uint32_t size, xed_uint64_t *offset, void *context);
typedef struct { unsigned int hex_address_before_symbolic_name; } xed_format_options_t;
typedef struct {
	const xed_decoded_inst_t *p; char *buf; int blen; xed_uint64_t runtime_address; xed_disassembly_callback_fn_t disassembly_callback; void *context;
	xed_syntax_enum_t syntax; int format_options_valid; xed_format_options_t format_options; xed_bool_t xml_a; xed_bool_t implicit;
} xed_print_info_t;

void xed_tables_init(void);
void xed_state_zero(xed_state_t *);
void xed_state_init2(xed_state_t *, xed_machine_mode_enum_t, xed_address_width_enum_t);
void xed_state_init(xed_state_t *, xed_machine_mode_enum_t, xed_address_width_enum_t, xed_address_width_enum_t);
void xed_state_set_machine_mode(xed_state_t *, xed_machine_mode_enum_t);
xed_machine_mode_enum_t xed_state_get_machine_mode(const xed_state_t *);
void xed_state_set_stack_address_width(xed_state_t *, xed_address_width_enum_t);
void xed_decoded_inst_zero(xed_decoded_inst_t *);
void xed_decoded_inst_zero_set_mode(xed_decoded_inst_t *, const xed_state_t *);
void xed_decoded_inst_zero_keep_mode(xed_decoded_inst_t *);
void xed_decoded_inst_set_mode(xed_decoded_inst_t *, xed_machine_mode_enum_t, xed_address_width_enum_t);
xed_bool_t xed_decoded_inst_valid(const xed_decoded_inst_t *);
xed_iclass_enum_t xed_decoded_inst_get_iclass(const xed_decoded_inst_t *);
xed_uint_t xed_decoded_inst_get_length(const xed_decoded_inst_t *);
xed_uint_t xed_decoded_inst_get_byte(const xed_decoded_inst_t *, xed_uint_t);
xed_uint_t xed_decoded_inst_get_branch_displacement_width(const xed_decoded_inst_t *);
xed_uint_t xed_decoded_inst_get_branch_displacement_width_bits(const xed_decoded_inst_t *);
xed_int64_t xed_decoded_inst_get_branch_displacement(const xed_decoded_inst_t *);
xed_error_enum_t xed_decode(xed_decoded_inst_t *, const xed_uint8_t *, unsigned int);
void xed_init_print_info(xed_print_info_t *);
xed_bool_t xed_format_generic(xed_print_info_t *);
xed_bool_t xed_format_context(xed_syntax_enum_t, const xed_decoded_inst_t *, char *, int, xed_uint64_t, void *, xed_disassembly_callback_fn_t);
const char *xed_error_enum_t2str(xed_error_enum_t);
const char *xed_iclass_enum_t2str(xed_iclass_enum_t);
/* Not part of XED: disagree with the decoder about some instructions.  1: 0x90 is a jump; 2: 0x90 is invalid. */
int xed_fake_lie(void);
#ifdef __cplusplus
}
#endif
#endif
