// Interval-map model of a traced memory image, observed through instruction
// and block decoders that walk straight-line and branching code in the image.
#pragma once
#include "hostile.hpp"
#include <memory>
#include <cstddef>

#ifndef LIBCALL
# define LIBCALL(x) (x)	// a call into the library
#endif
#ifndef IMG_TLS
# define IMG_TLS	// thread_local if there are threads
# define MM M		// what counts and reports
#endif
struct Walk;
// Says whether an error is due to something the model leaves open.
static bool (*tolerated)(const Walk &w, uint64_t ip, int rc);

static const char *const FN[] = { "f0", "f1", "f2", "f3" };
struct FileM { std::string name; Bytes b; };
struct PieceM { uint64_t cr3, vmcs, b, last, off; int file, isid; };	// last: inclusive
static int ilen(uint8_t b) { return b == 0xb8 ? 5 : b == 0xa0 ? 9 : b == 0x74 || b == 0xeb ? 2 : 1; }

struct CbM { uint64_t lo, hi, seed, bad; struct ImageM *im; uint64_t calls = 0; };
struct ImageM {
	std::vector<PieceM> p; struct pt_image *im = nullptr; CbM *cb = nullptr; int id = 0;
	static bool fits(uint64_t a, uint64_t b, uint64_t none) { return a == b || a == none || b == none; }
	static bool match(const PieceM &x, uint64_t cr3, uint64_t vmcs) { return fits(x.cr3, cr3, pt_asid_no_cr3) && fits(x.vmcs, vmcs, pt_asid_no_vmcs); }
	const PieceM *find(uint64_t cr3, uint64_t vmcs, uint64_t a) const { for (auto &x : p) if (match(x, cr3, vmcs) && x.b <= a && a <= x.last) return &x; return nullptr; }
	void add(const PieceM &n)
	{
		std::vector<PieceM> q;
		for (auto &x : p) {
			if (!match(x, n.cr3, n.vmcs) || n.last < x.b || x.last < n.b) { q.push_back(x); continue; }
			if (x.b < n.b) { PieceM y = x; y.last = n.b - 1; q.push_back(y); }
			if (n.last < x.last) { PieceM y = x; y.b = n.last + 1; y.off += y.b - x.b; q.push_back(y); }
		}
		q.push_back(n); p = q;
	}
};
static std::vector<FileM> files;
static IMG_TLS ImageM *cur_im; static IMG_TLS std::string cb_fail;
static uint8_t cb_byte(const CbM *c, uint64_t a) { uint64_t x = (a + c->seed) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; return x % 11 == 0 ? 0xb8 : x % 23 == 0 ? 0xa0 : (uint8_t) (0x50 + (x >> 32) % 16); }
// What the callback answers: bytes, or an error.
static int cb_answer(const CbM *c, uint64_t cr3, uint64_t vmcs, uint64_t ip, size_t size, uint8_t *buf)
{
	if (ip < c->lo || ip > c->hi) return -pte_nomap;
	if (ip == c->bad) return -pte_bad_cpu;
	size_t n = 1 + (size_t) ((ip ^ c->seed) * 0x9e3779b97f4a7c15ull >> 60), k = 0;
	for (; k < n && k < size && ip + k >= ip && ip + k <= c->hi && !c->im->find(cr3, vmcs, ip + k); ++k) buf[k] = cb_byte(c, ip + k);
	return (int) k;
}
static int callback(uint8_t *buf, size_t size, const struct pt_asid *asid, uint64_t ip, void *ctx)
{
	CbM *c = (CbM *) ctx; c->calls++; MM.count("callback_reads");
	if (c->im != cur_im || c != cur_im->cb) cb_fail = "callback with the context of another image or of a replaced callback";
	else if (c->im->find(asid->cr3, asid->vmcs, ip)) cb_fail = strf("callback asked for %llx, which is mapped", (unsigned long long) ip);
	return cb_answer(c, asid->cr3, asid->vmcs, ip, size, buf);
}
struct Want { int rc = 0; Bytes raw; int isid = 0; bool trunc = false; };
static Want want_insn(const ImageM &m, uint64_t cr3, uint64_t vmcs, uint64_t ip)
{
	Want w; bool first = true;
	for (;;) {
		uint64_t a = ip + w.raw.size(); size_t need = 15 - w.raw.size(); uint8_t buf[15]; int n; int isid = 0;
		if (a < ip) n = -pte_nomap; else
		if (auto *x = m.find(cr3, vmcs, a)) { isid = x->isid; n = 0; for (uint64_t k = 0; k < need && a + k >= a && a + k <= x->last; ++k) buf[n++] = files[(size_t) x->file].b[x->off + (a + k - x->b)]; }
		else n = m.cb ? cb_answer(m.cb, cr3, vmcs, a, need, buf) : -pte_nomap;
		if (n < 0) { w.rc = first || n != -pte_nomap ? n : -pte_bad_insn; return w; }
		w.raw.insert(w.raw.end(), buf, buf + n); if (first) w.isid = isid;
		if (w.raw.size() >= (size_t) ilen(w.raw[0])) { w.raw.resize((size_t) ilen(w.raw[0])); return w; }
		w.trunc = true; first = false;
	}
}
struct Walk {
	int kind; ImageM *im; uint64_t cr3, vmcs, ip; Bytes t; std::unique_ptr<GuardBuf> g; struct pt_insn_decoder *i = nullptr; struct pt_block_decoder *b = nullptr; std::vector<bool> tnt; size_t nt = 0; bool eoj = false; int st = 0; bool dead = false; int steps = 0;
	uint64_t next(uint64_t at, const Bytes &b) { uint64_t n = at + b.size(); if (b[0] == 0xeb || (b[0] == 0x74 && tnt[nt++ % tnt.size()])) n += (uint64_t) (int64_t) (int8_t) b[1]; return n; }
	~Walk() { if (i) LIBCALL(pt_insn_free_decoder(i)); if (b) LIBCALL(pt_blk_free_decoder(b)); }
};
static IMG_TLS std::string hist; static IMG_TLS uint64_t base;

static bool start(Rng &r, Walk &w)
{
	mencode(MP(K_PSB), w.t); mencode(MP(K_EXEC, 1, 0, 0), w.t); mencode(MP(K_PIP, w.cr3, 0), w.t); mencode(MP(K_VMCS, w.vmcs), w.t); mencode(MP(K_FUP, pt_ipc_full, w.ip), w.t); mencode(MP(K_PSBEND), w.t);
	for (int k = 0; k < 400; ++k) { uint64_t v = r.below(64); mencode(MP(K_TNT8, v, 6), w.t); for (int q = 5; q >= 0; --q) w.tnt.push_back(v >> q & 1); }
	w.g.reset(new GuardBuf(w.t.data(), w.t.size(), true));
	struct pt_config c; pt_config_init(&c); c.begin = w.g->begin; c.end = w.g->end();
	cur_im = w.im;
	int e;
	if (w.kind == 0) { w.i = LIBCALL(pt_insn_alloc_decoder(&c)); e = LIBCALL(pt_insn_set_image(w.i, w.im->im)); if (e >= 0) e = w.st = LIBCALL(pt_insn_sync_forward(w.i)); }
	else { c.flags.variant.block.end_on_jump = w.eoj = r.chance(50); w.b = LIBCALL(pt_blk_alloc_decoder(&c)); e = LIBCALL(pt_blk_set_image(w.b, w.im->im)); if (e >= 0) e = w.st = LIBCALL(pt_blk_sync_forward(w.b)); }
	if (e < 0) { MM.violation("sync", strf("cannot start a walk: %d", e)); return false; }
	while (w.st & pts_event_pending) { struct pt_event ev; w.st = w.kind == 0 ? LIBCALL(pt_insn_event(w.i, &ev, sizeof ev)) : LIBCALL(pt_blk_event(w.b, &ev, sizeof ev)); if (w.st < 0) { MM.violation("event", strf("event at the start: %d", w.st)); return false; } }
	hist += strf("walk %s image %d cr3=%llx vmcs=%llx from %llx\n", w.kind ? "blk" : "insn", w.im->id, (unsigned long long) w.cr3, (unsigned long long) w.vmcs, (unsigned long long) w.ip);
	return true;
}
static bool bad(const char *key, const std::string &s) { MM.note = hist; MM.violation(key, s); return false; }
static bool step(Walk &w)
{
	cur_im = w.im; cb_fail.clear(); w.steps++;
	Want x = want_insn(*w.im, w.cr3, w.vmcs, w.ip);
	if (w.kind == 0) {
		struct pt_insn in; memset(&in, 0x5a, sizeof in); int rc = LIBCALL(pt_insn_next(w.i, &in, sizeof in));
		if (!cb_fail.empty()) return bad("callback", cb_fail);
		if (x.rc < 0 || rc < 0) {
			w.dead = true; MM.count(strf("insn_rc:%d", rc));
			if (x.rc != rc && !(tolerated && tolerated(w, w.ip, rc))) return bad("insn-rc", strf("at %llx: %d instead of %d", (unsigned long long) w.ip, rc, x.rc));
			return true;
		}
		if (in.ip != w.ip || in.size != x.raw.size() || memcmp(in.raw, x.raw.data(), x.raw.size())) return bad("insn-bytes", strf("at %llx: %llx ", (unsigned long long) w.ip, (unsigned long long) in.ip) + hexs(in.raw, std::min<size_t>(in.size, 15)) + " instead of " + hexs(x.raw.data(), x.raw.size()));
		if (in.isid != x.isid) return bad("insn-isid", strf("at %llx: isid %d instead of %d", (unsigned long long) w.ip, in.isid, x.isid));
		if (in.truncated != (unsigned) x.trunc) return bad("insn-truncated", strf("at %llx: truncated %d", (unsigned long long) w.ip, in.truncated));
		if (x.raw[0] == 0x74) MM.count("cond"); MM.count("insns"); MM.count("bytes", x.raw.size()); if (x.trunc) MM.count("truncated"); if (x.isid) MM.count("cached_insns"); w.ip = w.next(w.ip, x.raw);
		if (w.ip < base / 2 || !w.ip) w.dead = true;
		return true;
	}
	struct pt_block b; memset(&b, 0, sizeof b); int rc = LIBCALL(pt_blk_next(w.b, &b, sizeof b));
	if (!cb_fail.empty()) return bad("callback", cb_fail);
	if (!b.ninsn) {
		w.dead = true; MM.count(strf("blk_rc:%d", rc));
		if ((rc >= 0 || rc != x.rc) && !(rc < 0 && tolerated && tolerated(w, w.ip, rc))) return bad("blk-rc", strf("at %llx: empty block, %d instead of %d", (unsigned long long) w.ip, rc, x.rc));
		return true;
	}
	if (b.ip != w.ip) return bad("blk-ip", strf("block at %llx instead of %llx", (unsigned long long) b.ip, (unsigned long long) w.ip));
	uint64_t at = w.ip;
	for (unsigned k = 0; k < b.ninsn; ++k) {
		if (k > 3000) { MM.count("long_blocks"); w.dead = true; break; }
		x = want_insn(*w.im, w.cr3, w.vmcs, at); bool lst = k + 1 == b.ninsn;
		if (x.rc < 0) return bad("blk-nomap", strf("instruction at %llx reported, should be %d", (unsigned long long) at, x.rc));
		if (x.isid != b.isid) return bad("blk-isid", strf("block with isid %d contains %llx with %d", b.isid, (unsigned long long) at, x.isid));
		if (x.trunc && !lst) return bad("blk-truncated", strf("instruction at %llx crosses sections inside a block", (unsigned long long) at));
		if (lst) {
			if (b.end_ip != at) return bad("blk-end", strf("block end %llx, instruction %u at %llx", (unsigned long long) b.end_ip, k, (unsigned long long) at));
			if (b.truncated != (unsigned) x.trunc) return bad("blk-truncated", strf("at %llx: truncated %d", (unsigned long long) at, b.truncated));
			if (b.truncated && (b.size != x.raw.size() || memcmp(b.raw, x.raw.data(), x.raw.size()))) return bad("blk-bytes", strf("at %llx: ", (unsigned long long) at) + hexs(b.raw, std::min<size_t>(b.size, 15)) + " instead of " + hexs(x.raw.data(), x.raw.size()));
		}
		MM.count("blk_insns"); MM.count("bytes", x.raw.size()); if (x.trunc) MM.count("truncated"); if (!lst && (x.raw[0] == 0x74 || (w.eoj && x.raw[0] == 0xeb))) return bad("blk-branch", strf("block goes on after the branch at %llx", (unsigned long long) at));
		if (x.raw[0] == 0x74) { MM.count("cond"); if (b.iclass != ptic_cond_jump && b.iclass != ptic_unknown) return bad("blk-class", strf("class %d at %llx", b.iclass, (unsigned long long) at)); }
		at = w.next(at, x.raw); if (at < base / 2 || !at) { w.dead = true; break; }
	}
	w.ip = at;
	if (rc < 0 && !w.dead) {
		w.dead = true; x = want_insn(*w.im, w.cr3, w.vmcs, w.ip); MM.count(strf("blk_rc:%d", rc));
		if (rc != x.rc && !(tolerated && tolerated(w, w.ip, rc))) return bad("blk-rc", strf("at %llx: %d instead of %d", (unsigned long long) w.ip, rc, x.rc));
	}
	return true;
}

static Bytes code_bytes(Rng &r, size_t sz)
{
	Bytes b;
	for (size_t n = 0; n < sz; ++n) { static const uint8_t one[] = { 0x90, 0x91, 0x92, 0x93, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9c, 0x9d, 0x50, 0x51, 0x52, 0x57, 0x58, 0x5f, 0xf5, 0xf8, 0xf9, 0xfc, 0xfd, 0xa4, 0xa5, 0xaa, 0xab, 0xac, 0xad, 0xae, 0xaf }; if (r.chance(6)) { bool cj = r.chance(60); b.push_back(cj ? 0x74 : 0xeb); b.push_back((uint8_t) (!cj || r.chance(50) ? 0x50 + r.below(16) : r.chance(50) ? 0x90 : 0xf5)); ++n; } else b.push_back(r.chance(8) ? 0xb8 : r.chance(5) ? 0xa0 : one[r.below(sizeof one)]); }
	return b;
}
static void make_files()
{
	Rng r(99);
	static const size_t sz[] = { 40, 300, 4096 + 17, 9000 };
	for (int k = 0; k < 4; ++k) {
		FileM f; f.name = M.scratch + "/" + FN[k];
		f.b = code_bytes(r, sz[k]);
		FILE *o = fopen(f.name.c_str(), "w"); fwrite(f.b.data(), 1, f.b.size(), o); fclose(o); files.push_back(f);
	}
}
