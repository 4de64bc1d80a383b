// C18/C28: perf sideband streams applied to a session, against a process model: which image is
// installed when and what it contains; what is printed and reported.
#define AM_MAIN
#include "allocmon.hpp"
#include "perfenc.hpp"
#include <memory>
extern "C" {
#include "libipt-sb.h"
}
typedef __int128 i128;

// ------------------------------------------------------------ files
enum { ABI_NONE, ABI_X64, ABI_X32, ABI_IA32 };
struct FileM { int id; std::string path; size_t cells; int abi; size_t first; };
static std::vector<FileM> F;	// 0..5 plain, 6..11 the same below the sysroot, 12..14 vdso
static std::string sysroot;
static void mkfile(int id, const std::string &path, size_t cells, int kind)
{
	// kind: 0 plain, 1 x64, 2 x32, 3 ia32, 4 x64 with a bad version, 5 32-bit with an unknown machine
	Bytes b;
	for (size_t c = 0; c < cells; ++c) { b.push_back(0xb8); add(b, (uint32_t) (id << 16 | (int) c)); b.insert(b.end(), 3, 0x90); }
	if (kind) {
		std::fill(b.begin(), b.begin() + 64, 0);
		memcpy(&b[0], "\177ELF", 4);
		b[4] = kind == 1 || kind == 4 ? 2 : 1; b[5] = 1; b[6] = kind == 4 ? 0 : 1;
		b[18] = kind == 2 ? 62 : kind == 3 ? 3 : kind == 5 ? 40 : 62;
	}
	FILE *f = fopen(path.c_str(), "w"); fwrite(b.data(), 1, b.size(), f); fclose(f);
	F.push_back({ id, path, cells, kind == 1 ? ABI_X64 : kind == 2 ? ABI_X32 : kind == 3 ? ABI_IA32 : ABI_NONE, kind ? 8u : 0u });
}
static void mkdirs(const std::string &p) { for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0700); }
static std::string here;
void harness_init()
{
	char *cwd = realpath(M.scratch.c_str(), nullptr); here = cwd; free(cwd);
	sysroot = here + "/root"; mkdirs(sysroot + here);
	static const int K[2][6] = { { 0, 1, 2, 3, 4, 5 }, { 1, 0, 3, 2, 5, 1 } };
	for (int s = 0; s < 2; ++s) for (int i = 0; i < 6; ++i) mkfile(s * 6 + i, (s ? sysroot : "") + here + strf("/f%d", i), 20 + 37 * (size_t) i, K[s][i]);
	for (int i = 0; i < 3; ++i) mkfile(12 + i, here + strf("/vdso%d", i), 30, 1 + i);
}

// ------------------------------------------------------------ process model
typedef std::map<uint64_t, uint32_t> Cells;	// address/8 -> file id << 16 | cell
struct Ctx { uint32_t pid; int gen; Cells cells; int abi = 0; bool insess = true; struct pt_image *img = nullptr; };
typedef std::shared_ptr<Ctx> PCtx;
static std::vector<PCtx> allctx; static int gens; static Cells kernel;
static PCtx find(uint32_t pid) { for (auto &c : allctx) if (c->insess && c->pid == pid) return c; return nullptr; }
static PCtx get(uint32_t pid)
{
	PCtx c = find(pid);
	if (!c) { c = std::make_shared<Ctx>(); c->pid = pid; c->gen = gens++; c->cells = kernel; allctx.push_back(c); M.count("contexts"); }
	return c;
}
struct Rc { Rec rec; size_t off = 0; uint64_t st = 0; bool timed = false; uint64_t tsc = 0; int malformed = 0; };
enum Loc { UNKNOWN, USER, LUSER, KERNEL, LKERNEL };
enum Life { WAITING, ACTIVE, RETIRED, REMOVED };
struct Ch {
	int id; bool primary = false; std::string file; size_t begin = 0;
	std::vector<Rc> recs; size_t cur = 0; Life life = WAITING; size_t endoff = 0;
	int sys = -1; bool vdso[3] = { false, false, false }; uint64_t ks = 0, offset = 0; Conf conf;
	Loc loc = UNKNOWN; PCtx ctx, next;
};
static std::vector<std::unique_ptr<Ch>> CH;
static struct pt_sb_session *S; static Rng *R;

// ------------------------------------------------------------ notifications
struct Note { bool sw; int code; bool any; std::string file; uint64_t off; bool anyoff, optional; PCtx ctx; struct pt_image *img; };
static std::vector<Note> want, got; static std::string wanttext;
static bool notify_err, notify_sw; static unsigned err_fail, sw_fail; static uint64_t salt;
static int note_result(uint64_t off) { return hash64(&off, 8, salt) % 100 < err_fail ? -pte_bad_context : 0; }
static int switch_result(int k) { uint64_t x = (uint64_t) k; return hash64(&x, 8, salt ^ 77) % 100 < sw_fail ? -pte_nomap : 0; }
static int nsw_want, nsw_got;
static char errpriv, swpriv; static std::string cbbad;
static int cb_err(int code, const char *file, uint64_t off, void *p)
{
	AmOff o; if (p != &errpriv) cbbad = "error notifier with a wrong private pointer";
	got.push_back({ false, code, false, file ? file : "(null)", off, false, false, nullptr, nullptr });
	return note_result(off);
}
static int cb_switch(const struct pt_sb_context *c, void *p)
{
	AmOff o; if (p != &swpriv) cbbad = "switch notifier with a wrong private pointer";
	got.push_back({ true, 0, false, "", 0, false, false, nullptr, pt_sb_ctx_image(c) });
	return switch_result(nsw_got++);
}
static PCtx installed;
static int report(Ch &c, int code, bool any, bool anyoff = false, bool optional = false)
{
	if (!notify_err) return 0;
	uint64_t off = c.begin + (c.cur < c.recs.size() ? c.recs[c.cur].off : c.endoff);
	want.push_back({ false, code, any, c.file, off, anyoff, optional, nullptr, nullptr });
	return note_result(off);
}

// The result of applying a record: 0, or the error that the decoder reports.
static void prepare(Ch &c, PCtx n)
{
	if (c.next == n) return;
	c.next = nullptr;
	if (c.ctx == n) { M.count("switch_to_current"); return; }
	c.next = n; M.count("switches_pending");
}
static int do_switch(Ch &c)
{
	if (notify_sw) {
		want.push_back({ true, 0, false, "", 0, false, false, c.next, nullptr });
		int e = switch_result(nsw_want++);
		if (e < 0) { M.count("switch_refused"); return e; }
	}
	installed = c.ctx = c.next; c.next = nullptr; M.count("switches");
	return 0;
}
// lost things: reported; a failing notifier makes the decoder report that, too
static int lost(Ch &c, int code)
{
	M.count(strf("lost:%d", code));
	int e = report(c, code, false);
	if (e < 0) report(c, e, false, false, true);
	return e;
}
static int failed(Ch &c, int code, bool any, bool anyoff = false) { M.count("record_errors"); return report(c, code, any, anyoff); }
static uint32_t u32(const Rec &r, size_t o) { uint32_t v; memcpy(&v, &r.payload[o], 4); return v; }
static uint64_t u64(const Rec &r, size_t o) { uint64_t v; memcpy(&v, &r.payload[o], 8); return v; }

static int do_map(Ch &c, const Rec &r)
{
	PCtx x = get(u32(r, 0));
	uint64_t va = u64(r, 8), len = u64(r, 16), off = u64(r, 24);
	const FileM *f = nullptr;
	std::string name = r.str.c_str();
	if (name == "[vdso]") {
		if (!x->abi || !c.vdso[x->abi - 1]) { M.count("vdso_missing"); return lost(c, -pte_bad_config); }
		f = &F[(size_t) (12 + x->abi - 1)]; M.count("vdso_mapped");
	} else if (name[0] == '[' || name == "//anon" || name.find(" (deleted)") != std::string::npos) return lost(c, ptse_section_lost);
	else {
		std::string full = (c.sys >= 0 ? sysroot : "") + name;
		for (auto &g : F) if (g.path == full) f = &g;
	}
	if (!f) { M.count("map_missing"); return failed(c, 0, true); }
	if (!x->abi) x->abi = f->abi;
	if (off / 8 >= f->cells) { M.count("map_beyond"); return failed(c, 0, true); }
	uint64_t n = std::min<uint64_t>(len / 8, f->cells - off / 8);
	for (uint64_t i = 0; i < n; ++i) x->cells[va / 8 + i] = (uint32_t) (f->id << 16) | (uint32_t) (off / 8 + i);
	M.count("mapped");
	if (find(u32(r, 0)) == installed) M.count("mapped_into_installed");
	return 0;
}
static int do_record(Ch &c, const Rc &q)
{
	const Rec &r = q.rec; bool out = r.misc & (1 << 13);
	M.count(strf("rec:%s%s", r.f->name, c.primary ? "/p" : ""));
	switch (r.f->type) {
	case PERF_RECORD_ITRACE_START:
		if (!c.primary) return 0;
		prepare(c, get(u32(r, 0)));
		if (c.next) { int e = do_switch(c); return e < 0 ? failed(c, e, false) : 0; }
		return 0;
	case PERF_RECORD_FORK: {
		uint32_t pid = u32(r, 0), ppid = u32(r, 4), tid = u32(r, 8);
		if (pid == ppid) return 0;
		if (pid != tid) return failed(c, 0, true);
		PCtx old = find(pid); if (old) old->insess = false;
		PCtx n = get(pid), p = find(ppid);
		if (p) { for (auto &k : p->cells) n->cells[k.first] = k.second; M.count("forked_from_known"); }
		return 0;
	}
	case PERF_RECORD_COMM: {
		if (!(r.misc & PERF_RECORD_MISC_COMM_EXEC)) return 0;
		PCtx old = find(u32(r, 0)); if (old) { old->insess = false; if (old == installed) M.count("exec_of_installed"); }
		PCtx n = get(u32(r, 0));
		if (c.primary) prepare(c, n);
		return 0;
	}
	case PERF_RECORD_SWITCH:
		if (!c.primary || out) return 0;
		if (!(q.st & PERF_SAMPLE_TID)) return failed(c, -pte_bad_config, false);
		prepare(c, get(r.s.pid));
		return 0;
	case PERF_RECORD_SWITCH_CPU_WIDE:
		if (!c.primary) return 0;
		if (out) prepare(c, get(u32(r, 0)));
		else if (q.st & PERF_SAMPLE_TID) prepare(c, get(r.s.pid));
		return 0;
	case PERF_RECORD_MMAP: case PERF_RECORD_MMAP2:
		if ((r.misc & PERF_RECORD_MISC_CPUMODE_MASK) == PERF_RECORD_MISC_KERNEL) { M.count("kernel_mmap"); return 0; }
		return do_map(c, r);
	case PERF_RECORD_LOST: return lost(c, ptse_lost);
	case PERF_RECORD_AUX:
		if (c.primary && u64(r, 16) & PERF_AUX_FLAG_TRUNCATED) return lost(c, ptse_trace_lost);
		return 0;
	}
	return 0;
}
// The text printed for a record.
static std::string text_of(const Ch &c, const Rc &q, uint32_t flags)
{
	const Rec &r = q.rec; std::string s; bool cm = flags & ptsbp_compact, vb = flags & ptsbp_verbose;
	uint64_t off = c.begin + q.off;
	if ((flags & ptsbp_filename) && (flags & ptsbp_file_offset)) s += strf("%s:%016llx  ", c.file.c_str(), (unsigned long long) off);
	else if (flags & ptsbp_filename) s += c.file + "  ";
	else if (flags & ptsbp_file_offset) s += strf("%016llx  ", (unsigned long long) off);
	bool smp = fmt_of(r.f->type) != nullptr;
	if ((flags & ptsbp_tsc) && q.timed) s += strf("%016llx  ", (unsigned long long) q.tsc);
	std::string name, str = r.str.c_str();
	std::vector<std::pair<std::string, std::string>> v; std::string comp; bool pair = false, hascomp = true;
	auto h = [](uint64_t x) { return strf("%llx", (unsigned long long) x); };
	bool b13 = r.misc & (1 << 13);
	switch (r.f->type) {
	case 1: name = "MMAP"; comp = h(u32(r, 0)) + "/" + h(u32(r, 4)) + ", " + h(u64(r, 8)) + ", " + h(u64(r, 16)) + ", " + h(u64(r, 24)) + ", " + str;
		v = { { "pid", h(u32(r, 0)) }, { "tid", h(u32(r, 4)) }, { "addr", h(u64(r, 8)) }, { "len", h(u64(r, 16)) }, { "pgoff", h(u64(r, 24)) }, { "filename", str } }; break;
	case 2: name = "LOST"; comp = h(u64(r, 0)) + ", " + h(u64(r, 8)); v = { { "id", h(u64(r, 0)) }, { "lost", h(u64(r, 8)) } }; break;
	case 3: name = b13 ? "COMM.EXEC" : "COMM"; comp = h(u32(r, 0)) + "/" + h(u32(r, 4)) + ", " + str; v = { { "pid", h(u32(r, 0)) }, { "tid", h(u32(r, 4)) }, { "comm", str } }; break;
	case 4: case 7: name = r.f->type == 4 ? "EXIT" : "FORK"; comp = h(u32(r, 0)) + "/" + h(u32(r, 8)) + ", " + h(u32(r, 4)) + "/" + h(u32(r, 12)) + ", " + h(u64(r, 16));
		v = { { "pid", h(u32(r, 0)) }, { "ppid", h(u32(r, 4)) }, { "tid", h(u32(r, 8)) }, { "ptid", h(u32(r, 12)) }, { "time", h(u64(r, 16)) } }; break;
	case 5: case 6: name = r.f->type == 5 ? "THROTTLE" : "UNTHROTTLE"; comp = h(u64(r, 0)) + ", " + h(u64(r, 8)) + ", " + h(u64(r, 16)); v = { { "time", h(u64(r, 0)) }, { "id", h(u64(r, 8)) }, { "stream_id", h(u64(r, 16)) } }; break;
	case 10: name = "MMAP2";
		// pid tid addr len pgoff maj min ino ino_generation prot flags filename
		comp = h(u32(r, 0)) + "/" + h(u32(r, 4)) + ", " + h(u64(r, 8)) + ", " + h(u64(r, 16)) + ", " + h(u64(r, 24)) + ", " + h(u32(r, 32)) + ", " + h(u32(r, 36)) + ", " + h(u64(r, 40)) + ", " + h(u64(r, 48)) + ", " + h(u32(r, 56)) + ", " + h(u32(r, 60)) + ", " + str;
		v = { { "pid", h(u32(r, 0)) }, { "tid", h(u32(r, 4)) }, { "addr", h(u64(r, 8)) }, { "len", h(u64(r, 16)) }, { "pgoff", h(u64(r, 24)) }, { "maj", h(u32(r, 32)) }, { "min", h(u32(r, 36)) }, { "ino", h(u64(r, 40)) },
		      { "ino_generation", h(u64(r, 48)) }, { "prot", h(u32(r, 56)) }, { "flags", h(u32(r, 60)) }, { "filename", str } }; break;
	case 11: name = u64(r, 16) & PERF_AUX_FLAG_TRUNCATED ? "AUX.TRUNCATED" : "AUX"; comp = h(u64(r, 0)) + ", " + h(u64(r, 8)) + ", " + h(u64(r, 16)); v = { { "aux offset", h(u64(r, 0)) }, { "aux size", h(u64(r, 8)) }, { "flags", h(u64(r, 16)) } }; break;
	case 12: name = "ITRACE_START"; comp = h(u32(r, 0)) + "/" + h(u32(r, 4)); v = { { "pid", h(u32(r, 0)) }, { "tid", h(u32(r, 4)) } }; break;
	case 13: name = "LOST_SAMPLES"; comp = h(u64(r, 0)); v = { { "lost", h(u64(r, 0)) } }; break;
	case 14: name = b13 ? "SWITCH.OUT" : "SWITCH.IN"; hascomp = false; break;
	case 15: name = b13 ? "SWITCH_CPU_WIDE.OUT" : "SWITCH_CPU_WIDE.IN"; comp = h(u32(r, 0)) + "/" + h(u32(r, 4)); v = { { std::string(b13 ? "next" : "prev") + " pid", h(u32(r, 0)) }, { std::string(b13 ? "next" : "prev") + " tid", h(u32(r, 4)) } }; break;
	default:
		if (cm) s += strf("UNKNOWN (%x, %x)", r.f->type, r.misc);
		if (vb) s += strf("UNKNOWN\n  type: %x\n  misc: %x", r.f->type, r.misc);
		name.clear();
	}
	if (!name.empty()) {
		name = "PERF_RECORD_" + name;
		if (!hascomp) { if (cm || vb) s += name; }
		else {
			if (cm) s += name + "  " + comp;
			if (vb) { s += name; for (auto &f : v) s += "\n  " + f.first + ": " + f.second; }
		}
	}
	uint64_t st = smp ? q.st : 0;
	if (cm) {
		s += "  {";
		if (st & PERF_SAMPLE_TID) s += " " + h(r.s.pid) + "/" + h(r.s.tid);
		if (st & PERF_SAMPLE_TIME) s += " " + h(r.s.time);
		if (st & PERF_SAMPLE_ID) s += " " + h(r.s.id);
		if (st & PERF_SAMPLE_CPU) s += " cpu-" + h(r.s.cpu);
		if (st & PERF_SAMPLE_STREAM_ID) s += " " + h(r.s.stream);
		if (st & PERF_SAMPLE_IDENTIFIER) s += " " + h(r.s.ident);
		s += " }";
	}
	if (vb) {
		if (st & PERF_SAMPLE_TID) s += "\n  pid: " + h(r.s.pid) + "\n  tid: " + h(r.s.tid);
		if (st & PERF_SAMPLE_TIME) s += "\n  time: " + h(r.s.time);
		if (st & PERF_SAMPLE_ID) s += "\n  id: " + h(r.s.id);
		if (st & PERF_SAMPLE_CPU) s += "\n  cpu: " + h(r.s.cpu);
		if (st & PERF_SAMPLE_STREAM_ID) s += "\n  stream id: " + h(r.s.stream);
		if (st & PERF_SAMPLE_IDENTIFIER) s += "\n  identifier: " + h(r.s.ident);
	}
	if (flags) s += "\n";
	return s;
}
// Fetching: moves on to record @c.cur (already advanced).
static void do_fetch(Ch &c, bool dump = false)
{
	if (c.cur >= c.recs.size()) { c.life = dump ? REMOVED : RETIRED; return; }
	if (c.recs[c.cur].malformed) { M.count("malformed"); report(c, 0, true); c.life = REMOVED; return; }
	c.life = ACTIVE;
}
static Ch *due(uint64_t tsc)
{
	Ch *m = nullptr;
	for (auto &c : CH) if (c->life == ACTIVE && c->recs[c->cur].tsc <= tsc && (!m || c->recs[c->cur].tsc < m->recs[m->cur].tsc)) m = c.get();
	return m;
}
static Loc from_ip(const Ch &c, uint64_t ip) { return ip < c.ks ? USER : KERNEL; }
static Loc flip(Loc l) { return l == USER || l == LUSER ? LKERNEL : l == KERNEL || l == LKERNEL ? LUSER : UNKNOWN; }
static bool event_ip(const struct pt_event &e, uint64_t &ip)
{
	switch (e.type) {
#define X(t) case ptev_##t: ip = e.variant.t.ip; return true;
	X(enabled) X(disabled) X(async_disabled) X(async_paging) X(overflow) X(exec_mode) X(tsx) X(exstop) X(mwait) X(ptwrite) X(tick) X(tip) X(iflags) X(interrupt) X(iret) X(smi) X(rsm) X(init) X(vmentry) X(vmexit)
	X(shutdown) X(uintr) X(uiret) X(trig)
#undef X
	case ptev_async_branch: ip = e.variant.async_branch.to; return true;
	default: return false;
	}
}
static Loc locate(const Ch &c, const struct pt_event &e)
{
	uint64_t ip;
	bool has = event_ip(e, ip) && !(e.ip_suppressed && e.type != ptev_enabled);
	if (has) return from_ip(c, ip);
	switch (e.type) {
	case ptev_disabled: return flip(c.loc);
	case ptev_async_disabled: return flip(from_ip(c, e.variant.async_disabled.at));
	case ptev_async_paging: case ptev_paging: return LKERNEL;
	default: return UNKNOWN;
	}
}
static void model_event(const struct pt_event &e, bool stream, uint32_t flags)
{
	while (Ch *c = due(e.tsc)) {
		const Rc &q = c->recs[c->cur];
		if (stream) wanttext += text_of(*c, q, flags);
		int r = do_record(*c, q);
		if (r < 0) { c->life = REMOVED; M.count("removed_by_notifier"); continue; }
		c->cur++;
		do_fetch(*c);
	}
	for (auto &c : CH) {
		if (c->life != ACTIVE && c->life != RETIRED) continue;
		Loc old = c->loc; c->loc = locate(*c, e);
		if (!c->next) { if (c->life == RETIRED) c->life = REMOVED; continue; }
		auto nu = [](Loc l) { return l != USER && l != LUSER; };
		if (nu(old) || nu(c->loc)) {
			int r = do_switch(*c);
			if (r < 0) r = failed(*c, r, false, true);
			if (r < 0) c->life = REMOVED;
		} else M.count("postponed");
	}
}

// ------------------------------------------------------------ looking into an image
static bool probe(struct pt_image *im, uint64_t a, uint32_t &val, std::string &err)
{
	static uint8_t t[64]; size_t n = 0;
	for (int i = 0; i < 8; ++i) { t[n++] = 2; t[n++] = 0x82; }
	t[n++] = 2; t[n++] = 0x23; t[n++] = 0x99; t[n++] = 1; t[n++] = 0xd1; memcpy(t + n, &a, 8); n += 8;
	struct pt_config c; pt_config_init(&c); c.begin = t; c.end = t + n;
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c); if (!d) { err = "no decoder"; return false; }
	pt_insn_set_image(d, im);
	struct pt_insn in; memset(&in, 0, sizeof in); int e = pt_insn_sync_forward(d);
	while (e >= 0 && e & pts_event_pending) { struct pt_event ev; e = pt_insn_event(d, &ev, sizeof ev); }
	if (e >= 0) e = pt_insn_next(d, &in, sizeof in);
	pt_insn_free_decoder(d);
	if (e == -pte_nomap) { val = ~0u; return true; }
	if (e < 0 || in.size != 5 || in.raw[0] != 0xb8) { err = strf("%d, %s", e, hexs(in.raw, in.size).c_str()); return false; }
	memcpy(&val, in.raw + 1, 4);
	return true;
}

static const uint64_t BASE[3] = { 0x400000, 0x7f0000001000, 0xffffffff81000000 };
static uint64_t gen_va(Rng &r) { return BASE[r.chance(60) ? 0 : r.below(3)] + 8 * r.below(48); }
static std::string badkey, badmsg;
static void fail(const char *key, const std::string &m) { if (badkey.empty()) { badkey = key; badmsg = m; } }

static void gen_record(Rng &r, Ch &c, Rc &q, uint64_t time)
{
	Rec &k = q.rec; static const uint32_t T[] = { 1, 1, 10, 10, 10, 3, 3, 7, 7, 14, 14, 15, 15, 12, 2, 11, 4, 5, 6, 13 };
	static Fmt unk[3] = { { 9, "sample", { F_U64, F_U32, F_U32 } }, { 8, "read", { F_U32, F_U32 } }, { 77, "unknown", { F_U64 } } };
	uint32_t ty = T[r.below(20)];
	if (r.chance(4)) k.f = &unk[r.below(3)]; else k.f = fmt_of(ty);
	uint64_t idt = 0;
	k.misc = (uint16_t) ((r.next() & 0xe000) | (r.chance(80) ? 2 : r.chance(60) ? 1 : 0)); if (r.chance(50)) k.misc ^= 1 << 13;
	for (int f : k.f->f) { if (f == F_U32) add(k.payload, (uint32_t) r.wide(32)); else if (f == F_U64) add(k.payload, r.wide(64)); }
	auto set32 = [&](size_t o, uint32_t v) { memcpy(&k.payload[o], &v, 4); };
	auto set64 = [&](size_t o, uint64_t v) { memcpy(&k.payload[o], &v, 8); };
	auto pid = [&] { return (uint32_t) r.range(1, 5); };
	switch (k.f->type) {
	case 1: case 10: {
		set32(0, pid()); set64(8, gen_va(r)); set64(16, r.chance(90) ? 8 * r.range(1, 40) : r.chance(50) ? 0x1000 : 1ull << 30); size_t f = r.below(6);
		uint64_t off = r.chance(95) ? F[f].first + r.below(F[f].cells - F[f].first) : F[f].cells + r.below(3); if (r.chance(40)) off = 8; set64(24, 8 * off);
		k.str = here + strf("/f%zu", f);
		if (r.chance(14)) { static const char *N[] = { "[vdso]", "[vdso]", "[vdso]", "[heap]", "//anon", "/x/y (deleted)", "[stack]", "/missing", "[vdso]x" }; k.str = N[r.below(9)]; if (k.str == "[vdso]") set64(24, 8 * (8 + r.below(10))); }
		break;
	}
	case 3: set32(0, pid()); k.str = r.chance(50) ? "sh" : "a longer command name"; break;
	case 7: { uint32_t p = pid(), pp = pid(); set32(0, p); set32(4, pp); set32(8, r.chance(92) ? p : p + 9); break; }
	case 12: set32(0, pid()); break;
	case 15: set32(0, pid()); break;
	case 11: set64(16, r.below(4)); break;
	}
	k.s.pid = pid(); k.s.tid = k.s.pid; k.s.cpu = (uint32_t) r.below(8); k.s.id = r.wide(64); k.s.stream = r.wide(64); k.s.time = time;
	k.s.ident = !c.conf.ids.empty() && r.chance(80) ? c.conf.ids[r.below(c.conf.ids.size())].first : 1000 + r.below(8);
	(void) idt;
}
static uint64_t eff_tsc(uint64_t tsc, uint64_t off)
{
	i128 v = (i128) tsc - (int64_t) off;
	if ((int64_t) off == INT64_MIN) v = (i128) tsc + ((i128) 1 << 63);
	return v < 0 ? 0 : v > (i128) UINT64_MAX ? UINT64_MAX : (uint64_t) v;
}

// C22: the next call may run out of memory.
static bool oom, tainted;
static void arm(Rng &r) { if (oom && r.chance(25)) AM.arm((long) r.below(r.chance(50) ? 6 : 40), r.chance(30), r.chance(60) ? ~0u : (unsigned) AllocMon::HEAP); else { AM.disarm(); AM.failed = 0; } }
static bool injected(const char *what) { bool f = AM.failed > 0; AM.disarm(); if (f) { M.count("injected"); M.count(strf("injected:%s", what)); M.count("kind:" + AM.failed_kind); M.note += strf("  (%s failed in %s)\n", AM.failed_kind.c_str(), what); M.nontrivial(hashs(M.note)); } return f; }

static std::vector<std::unique_ptr<Conf>> confs;
static uint64_t tmin, tmax;
static bool make_channel(Rng &r, int id, bool primary, bool multi, bool bigtime)
{
	std::unique_ptr<Ch> c(new Ch); c->id = id; c->primary = primary; c->file = here + strf("/sb%d", id);
	c->ks = r.chance(70) ? 0xffff800000000000ull : r.chance(50) ? UINT64_MAX : 0x500000;
	c->sys = r.chance(25) ? 1 : -1; for (bool &v : c->vdso) v = r.chance(70);
	Conf &k = c->conf; pev_config_init(&k.c); k.c.time_mult = 1;
	k.def = PERF_SAMPLE_TID | PERF_SAMPLE_TIME;
	if (r.chance(30)) for (uint64_t t : STYPES) if (r.chance(40)) k.def |= t;
	if (r.chance(10)) k.def &= ~PERF_SAMPLE_TID;
	if (!multi && r.chance(15)) k.def &= ~PERF_SAMPLE_TIME;
	if (r.chance(20)) {
		k.mem.resize(sizeof(struct pev_sample_config) + 2 * sizeof(struct pev_sample_type)); k.sc = (struct pev_sample_config *) k.mem.data(); memset(k.sc, 0, k.mem.size()); k.sc->nstypes = 2;
		k.def |= PERF_SAMPLE_IDENTIFIER;
		for (int i = 0; i < 2; ++i) { uint64_t st = PERF_SAMPLE_IDENTIFIER | PERF_SAMPLE_TIME | (i ? PERF_SAMPLE_CPU : PERF_SAMPLE_TID); k.sc->stypes[i].identifier = (uint64_t) i; k.sc->stypes[i].sample_type = st; k.ids.push_back({ (uint64_t) i, st }); }
	}
	k.c.sample_type = k.def; k.c.sample_config = k.sc;
	if (!multi && r.chance(40)) { k.c.time_shift = (uint16_t) r.below(12); k.c.time_mult = (uint32_t) r.range(1, 3000); k.c.time_zero = r.below(100); }
	c->offset = r.chance(60) ? 0 : (uint64_t) (4 * ((int64_t) r.below(200) - 100));
	if (!multi && r.chance(30)) c->offset = r.chance(50) ? r.wide(64) : 0ull - r.wide(20);
	uint64_t t = bigtime ? ~0ull - 5000 : 100000; size_t n = r.chance(5) ? 0 : r.range(1, 30);
	Bytes b; size_t junk = r.chance(30) ? r.below(40) : 0;
	for (size_t i = 0; i < n; ++i) {
		t += r.chance(30) ? 0 : r.below(60); uint64_t tt = r.chance(3) ? 100000 + r.below(300) : t;
		uint64_t time = tt / 4 * 4 + (uint64_t) id + k.c.time_zero;
		Rc q; q.off = b.size(); gen_record(r, *c, q, time);
		uint64_t ident = q.rec.s.ident; k.stype(&ident, q.st);
		if (!fmt_of(q.rec.f->type)) q.st = 0;
		Bytes e = encode(q.rec, q.st);
		q.timed = q.st & PERF_SAMPLE_TIME;
		if (q.timed) { uint64_t tsc; tsc_of(k.c, q.rec.s.time, tsc); q.tsc = eff_tsc(tsc, c->offset); if (!bigtime || q.tsc > 1000) { tmin = std::min(tmin, q.tsc); tmax = std::max(tmax, q.tsc); } }
		if (multi && (!q.timed || q.tsc == 0)) continue;	// the order of records without time in several channels is open
		if (r.chance(1) && fmt_of(q.rec.f->type)) { q.malformed = 1; uint16_t sz = (uint16_t) (r.chance(50) ? r.below(8) : e.size() - 4); if (sz == 0) sz = 4; memcpy(&e[6], &sz, 2); }
		b.insert(b.end(), e.begin(), e.end());
		c->recs.push_back(q);
		if (q.malformed) break;
	}
	c->begin = junk; c->endoff = b.size();
	Bytes file(junk, 0x5a); file.insert(file.end(), b.begin(), b.end());
	size_t end = 0; int tail = (int) r.below(6);
	if (tail == 0) { add<uint32_t>(file, 0); add<uint16_t>(file, 0); add<uint16_t>(file, 16); file.insert(file.end(), 8, 0); }	// padding: the end
	else if (tail == 1) { end = file.size(); file.insert(file.end(), 20, 0x5a); if (!end || end <= junk) { end = 0; file.resize(file.size() - 20); } }
	else if (tail == 2) { add<uint32_t>(file, 3); add<uint32_t>(file, 0x00400000); file.insert(file.end(), 10, 'x'); }	// cut record
	else if (tail == 3) file.insert(file.end(), r.below(8), 1);		// cut header
	FILE *f = fopen(c->file.c_str(), "w"); fwrite(file.data(), 1, file.size(), f); fclose(f);
	struct pt_sb_pevent_config pc; memset(&pc, 0, sizeof pc); pc.size = sizeof pc; pc.filename = c->file.c_str(); pc.begin = junk; pc.end = end;
	pc.sysroot = c->sys >= 0 ? sysroot.c_str() : nullptr;
	pc.vdso_x64 = c->vdso[0] ? F[12].path.c_str() : nullptr; pc.vdso_x32 = c->vdso[1] ? F[13].path.c_str() : nullptr; pc.vdso_ia32 = c->vdso[2] ? F[14].path.c_str() : nullptr;
	pc.tsc_offset = c->offset; pc.sample_type = k.def; pc.kernel_start = c->ks; pc.time_shift = k.c.time_shift; pc.time_mult = k.c.time_mult; pc.time_zero = k.c.time_zero; pc.primary = primary; pc.sample_config = k.sc;
	arm(r); int e = L([&] { return pt_sb_alloc_pevent_decoder(S, &pc); }); bool inj = injected("pt_sb_alloc_pevent_decoder");
	M.note += strf("channel %d primary %d kernel_start %llx offset %lld sysroot %d vdso %d%d%d begin %zu stype %llx sc %d shift %u mult %u zero %llu tail %d\n", id, primary, (unsigned long long) c->ks, (long long) c->offset, c->sys, c->vdso[0], c->vdso[1], c->vdso[2],
		junk, (unsigned long long) k.def, k.sc != nullptr, k.c.time_shift, k.c.time_mult, (unsigned long long) k.c.time_zero, tail);
	for (auto &q : c->recs) { M.note += strf("  @%zu tsc %llu%s%s ", q.off, (unsigned long long) q.tsc, q.timed ? "" : " (untimed)", q.malformed ? " MALFORMED" : ""); M.note += text_of(*c, q, ptsbp_compact); }
	if (e < 0 && inj) return true;	// reported
	if (e < 0) { if (junk == file.size()) { M.count("empty_refused"); return true; } fail("alloc", strf("pt_sb_alloc_pevent_decoder: %d", e)); return false; }
	c->file = pc.filename;
	CH.push_back(std::move(c));
	return true;
}
static int run;
static void gen_event(Rng &r, struct pt_event &e, uint64_t tsc)
{
	memset(&e, 0, sizeof e); e.has_tsc = 1; e.tsc = tsc;
	static const int T[] = { ptev_enabled, ptev_enabled, ptev_disabled, ptev_async_disabled, ptev_async_branch, ptev_paging, ptev_async_paging, ptev_overflow, ptev_exec_mode, ptev_tsx, ptev_exstop, ptev_mwait, ptev_ptwrite, ptev_tick, ptev_tip,
		ptev_iflags, ptev_interrupt, ptev_iret, ptev_smi, ptev_rsm, ptev_init, ptev_vmentry, ptev_vmexit, ptev_shutdown, ptev_uintr, ptev_uiret, ptev_trig, ptev_cbr, ptev_mnt, ptev_pwre, ptev_pwrx, ptev_vmcs };
	e.type = (enum pt_event_type) T[r.chance(60) ? r.below(15) : r.below(sizeof T / sizeof *T)];
	uint64_t ks = CH.empty() ? 0 : CH[r.below(CH.size())]->ks, ip;
	switch (r.below(6)) { case 0: ip = ks; break; case 1: ip = ks - 1; break; case 2: ip = 0xffffffff81000010ull; break; case 3: ip = r.wide(64); break; default: ip = 0x400100; }
	e.ip_suppressed = r.chance(20);
	// Runs of disabled events that do not say where the flow continues.

	if (run) { --run; e.type = ptev_disabled; e.ip_suppressed = 1; M.count("suppressed_runs"); }
	else if (r.chance(8)) run = (int) r.range(2, 5);
	if (e.type == ptev_async_branch || e.type == ptev_tip || e.type == ptev_enabled) e.ip_suppressed = 0;
	switch (e.type) {
#define X(t) case ptev_##t: e.variant.t.ip = ip; break;
	X(enabled) X(disabled) X(async_paging) X(overflow) X(exec_mode) X(tsx) X(exstop) X(mwait) X(ptwrite) X(tick) X(tip) X(iflags) X(interrupt) X(iret) X(smi) X(rsm) X(init) X(vmentry) X(vmexit)
	X(shutdown) X(uintr) X(uiret) X(trig)
#undef X
	case ptev_async_branch: e.variant.async_branch.to = ip; e.variant.async_branch.from = r.chance(50) ? 0x400200 : 0xffffffff81000000ull; break;
	case ptev_async_disabled: e.variant.async_disabled.ip = ip; e.variant.async_disabled.at = r.chance(50) ? 0x400200 : 0xffffffff81000000ull; break;
	default: break;
	}
}
static bool refd(const PCtx &x) { if (x->insess) return true; for (auto &c : CH) if (c->ctx == x || c->next == x) return true; return false; }
static bool bind(PCtx x, struct pt_image *im)
{
	if (!x->img) {
		for (auto &o : allctx) if (o->img == im) { if (refd(o)) return false; o->img = nullptr; }
		x->img = im;
	}
	return x->img == im;
}
static uint64_t state_hash()
{
	uint64_t h = 1;
	for (auto &c : CH) { h = h * 31 + (uint64_t) c->loc; h = h * 31 + (c->ctx ? c->ctx->pid : 0); h = h * 31 + (c->next ? c->next->pid : 0); h = h * 31 + (uint64_t) c->life; }
	for (auto &x : allctx) if (x->insess) { h = h * 31 + x->pid; for (auto &k : x->cells) h = (h ^ k.first) * 0x100000001b3ull + k.second; }
	return h;
}

void run_case(Rng &r)
{
	R = &r; run = 0; CH.clear(); allctx.clear(); gens = 0; kernel.clear(); want.clear(); got.clear(); badkey.clear(); installed = nullptr; nsw_want = nsw_got = 0; cbbad.clear();
	AM.forget(); salt = r.next();
	bool c28 = M.prop == "C28", c17 = M.prop == "C17";
	oom = M.prop == "C22"; tainted = false; AM.disarm(); AM.failed = 0;
	notify_err = r.chance(oom ? 100 : c28 ? 90 : 70); notify_sw = r.chance(60); err_fail = r.chance(20) ? 30 : 0; sw_fail = r.chance(20) ? 30 : 0; if (oom) err_fail = sw_fail = 0;
	struct pt_image_section_cache *isc = r.chance(60) ? pt_iscache_alloc(nullptr) : nullptr;
	if (isc && r.chance(50)) pt_iscache_set_limit(isc, r.wide(14));
	arm(r); S = L([&] { return pt_sb_alloc(isc); });
	if (injected("pt_sb_alloc") && !S) { pt_iscache_free(isc); if (!AM.clean()) M.violation("leak", "pt_sb_alloc: " + AM.live()); return; }
	if (notify_err) pt_sb_notify_error(S, cb_err, &errpriv);
	if (notify_sw) pt_sb_notify_switch(S, cb_switch, &swpriv);
	int nk = (int) r.below(3);
	for (int i = 0; i < nk; ++i) {
		size_t f = r.below(6); uint64_t off = F[f].first, n = F[f].cells - off, va = r.chance(80) ? BASE[2] + 8 * r.below(48) : gen_va(r);
		if (L([&] { return pt_image_add_file(pt_sb_kernel_image(S), F[f].path.c_str(), 8 * off, 8 * n, nullptr, va); }) < 0) fail("kernel-add", "adding to the kernel image");
		for (uint64_t j = 0; j < n; ++j) kernel[va / 8 + j] = (uint32_t) (F[f].id << 16) | (uint32_t) (off + j);
	}
	tmin = ~0ull; tmax = 0;
	int nch = r.chance(45) ? 1 : (int) r.range(2, 3); int prim = r.chance(92) ? (int) r.below((uint64_t) nch) : -1;
	bool bigtime = nch == 1 && r.chance(8);
	for (int i = 0; i < nch; ++i) if (!make_channel(r, i, i == prim, nch > 1, bigtime)) break;
	if (tmin > tmax) tmin = tmax = 100000;
	for (auto &c : CH) do_fetch(*c);
	// Channels that have no record at all are never added.
	for (auto &c : CH) if (c->life == RETIRED) c->life = REMOVED;
	arm(r); int e = L([&] { return pt_sb_init_decoders(S); });
	if (injected("pt_sb_init_decoders") && e < 0) tainted = true;
	if (e < 0) fail("init", strf("pt_sb_init_decoders: %d", e));
	struct pt_image *none = pt_image_alloc("none"), *image = none;
	uint64_t tsc = tmin > 50 ? tmin - 50 : 0; size_t nev = r.range(1, 30); uint64_t step = (tmax - tmin) / (nev < 3 ? 1 : nev - 2) * 2 + 2;
	bool dumpmode = c28 && r.chance(25);
	auto compare = [&](const char *what) {
		if (!cbbad.empty()) fail("notify-priv", cbbad);
		size_t g = 0; std::string d;
		for (auto &w : want) {
			if (w.sw) {
				if (g >= got.size() || !got[g].sw) { fail("switch-missing", strf("%s: no switch to pid %u", what, w.ctx->pid)); return; }
				if (!bind(w.ctx, got[g].img)) { fail("switch-wrong", strf("%s: switch notification for another context than that of pid %u", what, w.ctx->pid)); return; }
				g++; M.count("switch_notifications");
				continue;
			}
			bool same = g < got.size() && !got[g].sw && (w.any ? got[g].code < 0 : got[g].code == w.code);
			if (!same) {
				if (w.optional) continue;
				fail("N:missing", strf("%s: expected error %d%s, got %s", what, w.code, w.any ? " (any)" : "", g < got.size() ? strf("%s %d", got[g].sw ? "switch" : "error", got[g].code).c_str() : "nothing")); return;
			}
			if (got[g].file != w.file || !w.anyoff && got[g].off != w.off) fail("N:place", strf("%s: error %d reported for %s:%llx instead of %s:%llx", what, got[g].code, got[g].file.c_str(), (unsigned long long) got[g].off, w.file.c_str(), (unsigned long long) w.off));
			g++; M.count("notifications");
		}
		if (g < got.size()) { if (got[g].sw) fail("switch-extra", strf("%s: unexpected context switch", what)); else fail("N:extra", strf("%s: unexpected error %d at %llx", what, got[g].code, (unsigned long long) got[g].off)); }
		want.clear(); got.clear();
	};
	// The order in which channels fetch their first record is open.
	auto byfile = [](const Note &a, const Note &b) { return a.file < b.file; };
	std::stable_sort(want.begin(), want.end(), byfile); std::stable_sort(got.begin(), got.end(), byfile);
	compare("init");
	for (size_t k = 0; k < nev && badkey.empty(); ++k) {
		tsc = k + 1 == nev ? tmax : r.chance(75) ? tsc + r.below(step) : r.chance(50) ? tsc : r.chance(10) ? 0 : !CH.empty() && !CH[0]->recs.empty() ? CH[0]->recs[r.below(CH[0]->recs.size())].tsc - r.below(2) : tsc;
		bool stream = r.chance(c28 ? 90 : 10); uint32_t flags = r.chance(50) ? (uint32_t) r.below(32) : ptsbp_compact | (uint32_t) (r.below(32) & ~ptsbp_verbose);
		char *buf = nullptr; size_t len = 0; FILE *f = stream || dumpmode ? open_memstream(&buf, &len) : nullptr;
		wanttext.clear();
		if (dumpmode) {
			M.note += strf("dump %llu\n", (unsigned long long) tsc);
			while (Ch *c = due(tsc)) { wanttext += text_of(*c, c->recs[c->cur], flags); c->cur++; do_fetch(*c, true); M.count("dumped"); }
			arm(r); e = L([&] { return pt_sb_dump(S, f, flags, tsc); });
			if (e < 0) fail("N:dump", strf("pt_sb_dump: %d", e));
		} else {
			struct pt_event ev; gen_event(r, ev, tsc);
			uint64_t ip = 0; event_ip(ev, ip);
			M.note += strf("event %d tsc %llu ip %llx%s\n", ev.type, (unsigned long long) tsc, (unsigned long long) ip, ev.ip_suppressed ? " suppressed" : "");
			model_event(ev, stream, flags);
			arm(r); e = L([&] { return pt_sb_event(S, &image, &ev, sizeof ev, f, flags); });
			if (e < 0) fail("event", strf("pt_sb_event: %d", e));
			M.count("events");
		}
		if (injected(dumpmode ? "pt_sb_dump" : "pt_sb_event")) {
			// A failure that is reported leaves the result open.
			for (auto &g : got) if (!g.sw && (g.code == -pte_nomem || g.code == -pte_bad_file)) tainted = true;
			if (e < 0) tainted = true;
			M.count(tainted ? "oom_reported" : "oom_tolerated");
		}
		if (tainted) { if (f) { fclose(f); free(buf); } want.clear(); got.clear(); badkey.clear(); continue; }
		if (f) {
			fclose(f); std::string t(buf, len); free(buf);
			if (t != wanttext) {
				size_t i = 0; while (i < t.size() && i < wanttext.size() && t[i] == wanttext[i]) ++i;
				size_t a = i > 60 ? i - 60 : 0;
				fail("P:text", strf("printed ...%s instead of ...%s", t.substr(a, 200).c_str(), wanttext.substr(a, 200).c_str()));
			}
			if (!t.empty()) { M.count("texts"); if (c28) M.nontrivial(hashs(t)); }
		}
		compare("event");
		if (!badkey.empty()) break;
		// What is installed, and what is in it.
		auto check = [&](PCtx x, struct pt_image *im, const char *what) {
			for (int i = 0; i < 4; ++i) {
				uint64_t a = gen_va(r);
				if (r.chance(40) && !x->cells.empty()) { auto it = x->cells.lower_bound(a / 8); if (it == x->cells.end()) --it; a = it->first * 8; }
				uint32_t v = 0; std::string err; auto it = x->cells.find(a / 8); uint32_t w = it == x->cells.end() ? ~0u : it->second;
				if (w != ~0u && (w & 0xffff) < 8 && F[w >> 16].first) continue;	// an ELF header
				if (!probe(im, a, v, err)) fail("content", strf("%s pid %u at %llx: %s", what, x->pid, (unsigned long long) a, err.c_str()));
				else if (v != w) fail("content", strf("%s pid %u at %llx: file %d cell %d instead of file %d cell %d", what, x->pid, (unsigned long long) a, (int) v >> 16, v & 0xffff, (int) w >> 16, w & 0xffff));
				M.count(w == ~0u ? "probes_unmapped" : "probes_mapped");
			}
		};
		for (uint32_t pid = 1; pid <= 5 && badkey.empty(); ++pid) {
			PCtx x = find(pid); struct pt_sb_context *c = nullptr;
			if (pt_sb_find_context_by_pid(&c, S, pid) < 0 || !c != !x) { fail("context", strf("context of pid %u %s", pid, x ? "is missing" : "should not exist")); break; }
			if (x && !bind(x, pt_sb_ctx_image(c))) { fail("context", strf("pid %u has the context of another process or generation", pid)); break; }
		}
		if (!badkey.empty()) break;
		if (!installed) { if (image != none) fail("installed", "an image was installed without a context switch"); }
		else if (image == none || !bind(installed, image)) fail("installed", strf("the installed image is not that of pid %u (generation %d)", installed->pid, installed->gen));
		else check(installed, image, "installed image");
		for (uint32_t pid = 1; pid <= 5 && badkey.empty(); ++pid) { PCtx x = find(pid); if (x && r.chance(30)) check(x, x->img, "image of"); }
		if (!c28) M.nontrivial(state_hash());
	}
	L([&] { pt_sb_free(S); return 0; });
	pt_image_free(none);
	CH.clear();
	pt_iscache_free(isc);
	if (!AM.clean()) fail("L:leak", "resources left: " + AM.live());
	if (M.samples.size() < 3) M.sample(M.note.substr(0, 500));
	if (badkey.empty()) return;
	char kind = badkey.size() > 1 && badkey[1] == ':' ? badkey[0] : 0;
	// Each property reports what it is about.
	if (oom) { M.violation("session:" + badkey, badmsg); return; }
	bool mine = c28 ? kind == 'N' || kind == 'P' : c17 ? kind == 'L' : !kind;
	if (mine) M.violation(badkey, badmsg); else M.count("outside_this_property");
}
