/* Helpers for the demonstrations: a trace builder and an image of one page of code at 0x1000. */
#include "intel-pt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static uint8_t T[1 << 16]; static int N;
static void b(int v) { T[N++] = (uint8_t) v; }
static void le(uint64_t v, int n) { while (n--) { b((int) (v & 255)); v >>= 8; } }
static void psb(void) { int i; for (i = 0; i < 8; ++i) { b(2); b(0x82); } }
static void psbend(void) { b(2); b(0x23); }
static void mode(int bits) { b(0x99); b(bits == 64 ? 1 : bits == 32 ? 2 : 0); }
static void fup(uint64_t ip) { b(0xdd); le(ip, 8); }
static void pge(uint64_t ip) { b(0xd1); le(ip, 8); }
static void pgd(uint64_t ip) { b(0xc1); le(ip, 8); }
static void tip(uint64_t ip) { b(0xcd); le(ip, 8); }
static void tsc(uint64_t v) { b(0x19); le(v, 7); }
static void head(uint64_t ip) { psb(); mode(64); fup(ip); psbend(); }	/* synchronizes enabled at @ip */
static uint8_t C[4096];
static int rd(uint8_t *o, size_t n, const struct pt_asid *a, uint64_t ip, void *p)
{ size_t i; (void) a; (void) p; if (ip < 0x1000 || ip >= 0x2000) return -pte_nomap; for (i = 0; i < n && ip + i < 0x2000; ++i) o[i] = C[ip + i - 0x1000]; return (int) i; }
static struct pt_image *img(void) { struct pt_image *im = pt_image_alloc(NULL); pt_image_set_callback(im, rd, NULL); return im; }
static struct pt_config cfg(void) { struct pt_config c; pt_config_init(&c); c.begin = T; c.end = T + N; return c; }
static struct pt_insn_decoder *insn(struct pt_config c) { struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c); pt_insn_set_image(d, img()); return d; }
static struct pt_block_decoder *blk(struct pt_config c) { struct pt_block_decoder *d = pt_blk_alloc_decoder(&c); pt_blk_set_image(d, img()); return d; }
