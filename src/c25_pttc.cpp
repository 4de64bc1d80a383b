// C25: the trace assembler emits the packets it was asked for.
#include "tool.hpp"
#include "ptmodel.hpp"
#include "perfenc.hpp"
#include <algorithm>

struct Line { std::string t; };
struct Lbl { std::string name; uint64_t addr; };
struct SbFile { std::string prefix; Bytes data; bool pevent = false, final = false; uint64_t stype = 0; };

struct Gen {
	Rng &r; std::vector<std::string> lines; std::vector<Lbl> yl, pl; std::vector<std::string> waiting;
	Bytes trace; std::vector<SbFile> sb; int cursb = -1; std::string root;
	struct Sect { std::string name; uint64_t start, vstart, size; };
	std::vector<Sect> sects; int cursect = -1; uint64_t org = 0, pos = 0; bool labels_pending = false;
	size_t last_label_line = 0; int nl = 0, npl = 0; std::vector<std::pair<std::string, std::vector<int>>> macros;
	std::vector<std::string> fix;	// directives that refer to labels which are not known yet
	struct Patch { size_t line; size_t off; int bytes; std::string label; };
	std::vector<Patch> patches;
	std::string srcfile; std::map<std::string, uint64_t> feat;
	explicit Gen(Rng &rng) : r(rng) {}

	uint64_t here() const { return cursect < 0 ? org + pos : sects[(size_t) cursect].vstart + pos; }
	std::string num(uint64_t v)
	{
		switch (r.below(5)) {
		case 0: case 1: return strf("0x%llx", (unsigned long long) v);
		case 2: return strf("0x%llX", (unsigned long long) v);
		case 3: return strf("0%llo", (unsigned long long) v);
		default: return strf("%llu", (unsigned long long) v);
		}
	}
	std::string sp() { return std::string(r.below(3), ' '); }
	std::string cased(std::string s) { if (r.chance(15)) for (auto &c : s) if (r.chance(60)) c = (char) toupper(c); return s; }
	std::string wrap(const char *mark, const std::string &label, const std::string &dir)
	{
		std::string s = r.chance(80) ? "; " : r.chance(50) ? ";" : "; text, ";
		s += mark; s += std::string(1 + r.below(3), ' ');
		if (!label.empty()) s += label + ":" + sp();
		s += dir;
		if (r.chance(8)) s += " and more";
		return s;
	}
	std::string newname()
	{
		static const char *const pre[] = { "l", "lbl_", "ab", "add", "face", "b", "x_", "deadbeef", "e", "_s", "nop", "d0" };
		return strf("%s%d", pre[r.below(12)], nl++) + (r.chance(10) ? "a" : "");
	}

	// ---------------------------------------------------- assembly
	// an instruction or data line: text and size
	std::pair<std::string, unsigned> insn(bool rept)
	{
		switch (r.below(rept ? 11 : 9)) {
		default: return { "nop", 1 };
		case 1: return { "ret", 1 };
		case 2: return { "add [rax], al", 2 };
		case 3: return { strf("mov rax, 0x%llx", (unsigned long long) (r.next() | 1ull << 63)), 10 };
		case 4: return { "mov qword [rax+0x11223344], 0x55667788", 11 };
		case 5: { unsigned k = (unsigned) r.range(1, r.chance(70) ? 12 : 60); std::string s = "db "; for (unsigned i = 0; i < k; ++i) s += strf("%s%u", i ? "," : "", (unsigned) (r.chance(30) ? 0 : r.below(256))); return { s, k }; }
		case 6: return { strf("dq 0x%llx", (unsigned long long) r.wide(64)), 8 };
		case 7: return { "jmp $", 2 };
		case 8: return { "mov dword [rbx*8+0x12345678], 0", 11 };
		case 9: { unsigned k = (unsigned) r.range(1, 5); return { strf("times %u nop", k), k }; }
		case 10: { unsigned k = (unsigned) r.range(1, 4); return { strf("times %u mov rax, 0x1122334455667788", k), 10 * k }; }
		}
	}
	void emit(unsigned n)
	{
		for (auto &w : waiting) yl.push_back({ w, here() });
		waiting.clear(); pos += n;
		if (cursect >= 0) sects[(size_t) cursect].size = pos;
	}
	void asm_line()
	{
		std::string s;
		if (r.chance(25)) {		// labels on lines of their own
			std::string n = newname(); waiting.push_back(n);
			lines.push_back(sp() + n + ":" + (r.chance(20) ? " ; a comment" : "")); feat["own_line_labels"]++;
			return;
		}
		if (r.chance(40)) { std::string n = newname(); waiting.push_back(n); s = n + ": "; }
		else s = std::string(1 + r.below(4), ' ');
		if (!macros.empty() && r.chance(20)) {
			auto &m = macros[r.below(macros.size())]; unsigned k = 0;
			for (int x : m.second) k += (unsigned) x;
			emit(k); s += m.first; feat["macro_uses"]++;
		} else { auto i = insn(cursect < 0); emit(i.second); s += i.first; if (i.second > 9) feat["long_opcodes"]++; }
		lines.push_back(s);
	}
	void macro()
	{
		std::string n = strf("mac%zu", macros.size()); std::vector<int> v; int k = (int) r.range(1, 3);
		lines.push_back("%macro " + n + " 0");
		while (k--) { auto i = insn(false); lines.push_back("  " + i.first + (r.chance(10) ? " ; comment" : "")); v.push_back((int) i.second); }
		lines.push_back("%endmacro"); macros.push_back({ n, v }); feat["macros"]++;
	}

	// ---------------------------------------------------- directives
	std::string cst(uint64_t st) { return strf("c%u", (unsigned) ((st + 1) & 15)); }
	// the text of a directive for @p; may use a label that is defined anywhere in the file
	std::string text(const MP &p, Bytes &b, std::vector<Patch> &pt)
	{
		static const char *const ipn[] = { "tip", "tip.pge", "tip.pgd", "fup" };
		const uint64_t *f = p.f; size_t o = b.size(); mencode(p, b);
		switch (p.k) {
		case K_PAD: return "pad()"; case K_PSB: return "psb()"; case K_PSBEND: return "psbend()"; case K_OVF: return "ovf()"; case K_STOP: return "stop()";
		case K_TNT8: case K_TNT64: { std::string s = p.k == K_TNT8 ? "tnt(" : "tnt64(";
			for (uint64_t i = f[1]; i--;) { s += f[0] >> i & 1 ? 't' : 'n'; if (r.chance(10)) s += r.chance(50) ? "." : r.chance(70) ? " " : "\t"; }
			return s + ")"; }
		case K_TIP: case K_PGE: case K_PGD: case K_FUP: {
			std::string s = std::string(ipn[p.k - K_TIP]) + "(" + sp() + num(f[0]) + (r.chance(20) ? " : " : ": ");
			int nb = ipbytes((unsigned) f[0]);
			if (r.chance(55)) { std::string l = "?"; pt.push_back({ 0, o + 1, nb, "" }); s += "%\1"; (void) l; }
			else if (f[0] == 3 && f[1] >> 47 & 1 && r.chance(50)) s += num(f[1] | 0xffffull << 48);
			else s += num(f[1]);
			return s + sp() + ")"; }
		case K_EXEC: { static const char *const m[] = { "16bit", "64bit", "32bit" }; return std::string("mode.exec(") + sp() + m[f[0] | f[1] << 1] + (f[2] ? r.chance(50) ? ", if" : ",if" : "") + sp() + ")"; }
		case K_TSX: return f[1] ? "mode.tsx(abort)" : f[0] ? "mode.tsx(begin)" : "mode.tsx(commit)";
		case K_PIP: return "pip(" + sp() + num(f[0] | (r.chance(30) ? r.below(32) : 0)) + (f[1] ? r.chance(50) ? ", nr" : ",nr" : "") + ")";
		case K_VMCS: return "vmcs(" + num(f[0] | (r.chance(30) ? r.below(4096) : 0)) + ")";
		case K_CBR: return "cbr(" + sp() + num(f[0]) + sp() + ")";
		case K_TSC: return "tsc(" + sp() + num(f[0]) + sp() + ")";
		case K_TMA: return "tma(" + num(f[0]) + ", " + num(f[1]) + ")";
		case K_MTC: return "mtc(" + num(f[0]) + ")";
		case K_CYC: return "cyc(" + num(f[0]) + ")";
		case K_MNT: return "mnt(" + sp() + num(f[0]) + ")";
		case K_EXSTOP: return f[0] ? "exstop(ip)" : "exstop()";
		case K_MWAIT: return "mwait(" + num(f[0]) + ", " + num(f[1]) + ")";
		case K_PWRE: return "pwre(" + cst(f[0]) + ((f[1] != 15 || r.chance(50)) ? strf(".%u", (unsigned) ((f[1] + 1) & 15)) : "") + (f[2] ? ", hw" : "") + ")";
		case K_PWRX: return std::string("pwrx(") + (f[2] ? "int" : f[3] ? "st" : "hw") + ": " + cst(f[0]) + ", " + cst(f[1]) + ")";
		case K_PTW: return "ptw(" + num(f[0]) + ": " + num(f[2]) + (f[1] ? ", ip" : "") + ")";
		case K_CFE: { bool need = f[0] == 1 || f[0] == 5 || f[0] == 9 || f[0] == 12; (void) need;
			return "cfe(" + sp() + num(f[0]) + (f[2] || f[0] == 1 || f[0] == 4 || f[0] == 5 || f[0] == 6 || f[0] == 9 || f[0] == 12 || r.chance(50) ? ": " + num(f[2]) : "") + (f[1] ? ", ip" : "") + ")"; }
		case K_EVD: return "evd(" + num(f[0]) + ": " + num(f[1]) + ")";
		case K_TRIG: { std::vector<std::string> o2; if (f[1]) o2.push_back("ip"); if (f[2]) o2.push_back("mult"); if (f[3]) o2.push_back("icnt: " + num(f[4]));
			for (size_t i = o2.size(); i > 1; --i) std::swap(o2[i - 1], o2[r.below(i)]);
			std::string s = "trig(" + num(f[0]); for (auto &x : o2) s += ", " + x; return s + ")"; }
		}
		abort();
	}
	std::string ptlabel(uint64_t at)
	{
		if (!r.chance(35)) return "";
		std::string n = strf("%s%d", r.chance(50) ? "p" : "pkt_", npl++); pl.push_back({ n, at }); return n;
	}
	void add_line(const std::string &dir, bool labelref)
	{
		// on a line of its own, or behind an instruction
		if (r.chance(12)) { if (waiting.empty() || r.chance(50)) { auto i = insn(cursect < 0); emit(i.second); lines.push_back("  " + i.first + " " + dir); feat["behind_insn"]++; return; } }
		lines.push_back(std::string(r.below(3), ' ') + dir); (void) labelref;
	}
	void pt_directive()
	{
		std::string lab = ptlabel(trace.size()), t; std::vector<Patch> pt; std::string nm;
		if (r.chance(12)) {
			int w = 1 << r.below(4); uint64_t v = r.wide((unsigned) (8 * w));
			t = strf("raw-%d(", 8 * w) + sp() + num(v) + sp() + ")"; put(trace, v, w); nm = "raw";
		} else {
			MP p = gen_packet(r);
			if (p.k == K_EXEC && p.f[0] && p.f[1]) p.f[1] = 0;
			if (p.k == K_TSX && p.f[1]) p.f[0] = 0;
			if (p.k == K_PWRX) { p.f[2] = p.f[3] = p.f[4] = 0; p.f[2 + r.below(3)] = 1; }
			t = text(p, trace, pt); nm = kind_name[p.k];
		}
		feat["dir:" + nm]++;
		bool ref = !pt.empty();
		if (lab.empty() && !ref) t = cased(t);
		t = wrap(r.chance(90) || !lab.empty() ? "@pt" : "@PT", lab, t);
		add_line(t, ref);
		for (auto &x : pt) { x.line = lines.size() - 1; patches.push_back(x); }
	}
	void sb_open()
	{
		static const char *const fm[] = { "pevent", "raw", "foo" }; static const char *const sr[] = { "", "", "cpu0", "src1" };
		bool prim = r.chance(60); std::string f = fm[r.below(3)], s = sr[r.below(4)];
		std::string pre = root + (s.empty() ? "" : "-" + s) + "-" + f + (prim ? "-primary" : "-secondary");
		cursb = -1;
		for (size_t i = 0; i < sb.size(); ++i) if (sb[i].prefix == pre) { cursb = (int) i; feat["sb_reopened"]++; }
		if (cursb < 0) { cursb = (int) sb.size(); SbFile x; x.prefix = pre; sb.push_back(x); }
		lines.push_back(wrap("@sb", "", std::string(prim ? "primary(" : "secondary(") + f + (s.empty() ? "" : ", " + s) + ")"));
	}
	void sb_directive()
	{
		if (cursb < 0 || r.chance(15)) { sb_open(); return; }
		SbFile &x = sb[(size_t) cursb];
		if (r.chance(15)) {
			int w = 1 << r.below(4); uint64_t v = r.wide((unsigned) (8 * w)); std::string lab = ptlabel(x.data.size());
			add_line(wrap("@sb", lab, strf("raw-%d(", 8 * w) + num(v) + ")"), false); put(x.data, v, w); feat["sb:raw"]++; return;
		}
		if (!x.final && r.chance(60)) {
			static const struct { const char *n; uint64_t b; } T[] = { { "tid", PERF_SAMPLE_TID }, { "time", PERF_SAMPLE_TIME }, { "id", PERF_SAMPLE_ID }, { "stream", PERF_SAMPLE_STREAM_ID }, { "cpu", PERF_SAMPLE_CPU }, { "identifier", PERF_SAMPLE_IDENTIFIER } };
			std::string s; uint64_t st = 0; int k = (int) r.range(1, 5);
			while (k--) { auto &t = T[r.below(6)]; st |= t.b; s += (s.empty() ? "" : ", ") + (r.chance(80) ? std::string(t.n) : num(t.b)); }
			x.stype = st; x.pevent = true; add_line(wrap("@sb", "", "pevent-sample_type(" + s + ")"), false); feat["sb:sample_type"]++; return;
		}
		// a record
		Rec k; Conf c; pev_config_init(&c.c); c.c.time_mult = 1;
		std::string nm; bool sect = false;
		do { gen_rec(r, k, c); } while (k.f->type == 5 || k.f->type == 6 || k.f->type == 10);
		k.misc = 0; std::vector<std::string> a; nm = k.f->name; for (auto &ch : nm) if (ch == '_') ch = '-';
		auto u = [&](size_t o, int w) { uint64_t v = rd(&k.payload[o], w); return num(v); };
		k.str.clear(); if (has_str(*k.f)) { int n = (int) r.range(1, 40); while (n--) k.str += "abcdefghijklmnopqrstuvwxyz0123456789/_.-"[r.below(40)]; }
		switch (k.f->type) {
		case 1: if (!sects.empty() && r.chance(60)) { sect = true; break; }
			a = { u(0, 4), u(4, 4), u(8, 8), u(16, 8), u(24, 8), k.str }; break;
		case 2: a = { u(0, 8), u(8, 8) }; break;
		case 3: a = { u(0, 4), u(4, 4), k.str }; if (r.chance(50)) { k.misc = 1 << 13; nm += ".exec"; } break;
		case 4: case 7: a = { u(0, 4), u(4, 4), u(8, 4), u(12, 4), u(16, 8) }; break;
		case 11: a = { u(0, 8), u(8, 8), u(16, 8) }; break;
		case 12: a = { u(0, 4), u(4, 4) }; break;
		case 13: a = { u(0, 8) }; break;
		case 14: case 15: if (k.f->type == 15) a = { u(0, 4), u(4, 4) }; if (r.chance(50)) { k.misc = 1 << 13; nm += ".out"; } else nm += ".in"; break;
		}
		if (sect) {
			pending_sect.push_back({ x.data.size(), 0, (int) r.below(sects.size()), cursb });
			nm = "mmap-section"; const Sect &s = sects[(size_t) pending_sect.back().sect];
			a = { s.name, u(0, 4), u(4, 4) }; k.str = root + ".bin";
		}
		// gen_rec zero-extends times below the zero point
		if (k.s.time >> 63) k.s.time >>= 1;
		uint64_t st = x.stype;
		if (st & PERF_SAMPLE_TID) { a.push_back(num(k.s.pid)); a.push_back(num(k.s.tid)); }
		if (st & PERF_SAMPLE_TIME) a.push_back(num(k.s.time));
		if (st & PERF_SAMPLE_ID) a.push_back(num(k.s.id));
		if (st & PERF_SAMPLE_CPU) a.push_back(num(k.s.cpu));
		if (st & PERF_SAMPLE_STREAM_ID) a.push_back(num(k.s.stream));
		if (st & PERF_SAMPLE_IDENTIFIER) a.push_back(num(k.s.ident));
		std::string s = "pevent-" + nm + "("; for (size_t i = 0; i < a.size(); ++i) s += (i ? ", " : "") + a[i];
		std::string lab = ptlabel(x.data.size());
		add_line(wrap("@sb", lab, s + ")"), false);
		Bytes e = encode(k, st); x.data.insert(x.data.end(), e.begin(), e.end()); x.final = x.pevent = true; feat["sb:" + nm]++;
	}
	struct PSect { size_t off, x; int sect, file; };
	std::vector<PSect> pending_sect;
};

static const char *const BAD_PT[] = {
	"foo()", "psb", "psb(", "()", "psb(1)", "pad(x)", "tnt()", "tnt(x)", "tnt(ttttttt)", "tnt(t,n)", "tnt64(tttttttttttttttttttttttttttttttttttttttttttttttt)", "tip(7: 1)", "tip(5: 1)", "tip(3)", "tip(: 3)", "tip()",
	"tip(3: %nolabel)", "tip(3: %)", "tip(1: 0x10000)", "fup(2: 0x100000000)", "tip.pge(4: 0x1000000000000)", "tip.pgd(3: 0x1000000000000)", "tip(3: 1 2)", "tip(6: 0x10000000000000000)", "tip(3: zz)", "tip(8: 1)", "tip(3: 0x1g)",
	"mode.exec()", "mode.exec(foo)", "mode.exec(64bit, foo)", "mode.exec(64bit if)", "mode.exec(64bit, if, if)", "mode.exec(8bit)", "mode.tsx()", "mode.tsx(foo)", "mode.foo(64bit)", "pip()", "pip(x)", "pip(1, foo)", "pip(1, nr, nr)",
	"tsc()", "tsc(0x100000000000000)", "tsc(1, 2)", "tsc(x)", "tsc(1x)", "cbr(256)", "cbr()", "cbr(1 2)", "tma(65536, 0)", "tma(0, 512)", "tma(0, 65536)", "tma(-1, 0)", "tma(0, -1)", "tma(1)", "tma()", "tma(1, 2, 3)", "tma(x, 1)",
	"mtc(256)", "mtc(-1)", "mtc()", "mtc(1, 1)", "cyc(0x10000000000000000)", "cyc()", "cyc(1, 2)", "vmcs()", "vmcs(x)", "vmcs(1 2)", "mnt()", "mnt(0x10000000000000000)", "mnt(1, 2)", "exstop(foo)", "exstop(ip, ip)", "mwait()", "mwait(1)",
	"mwait(0x100000000, 0)", "mwait(0, 0x100000000)", "mwait(1, 2, 3)", "pwre()", "pwre(c16)", "pwre(c1.16)", "pwre(1)", "pwre(c1, sw)", "pwre(c1, hw, hw)", "pwre(c1x)", "pwre(c1.)", "pwre(c1.2x)", "pwre(c4294967297)", "pwre(c1.4294967297)",
	"pwrx()", "pwrx(foo: c1, c2)", "pwrx(int: c1)", "pwrx(int)", "pwrx(int: c1.1, c2)", "pwrx(int: c1, c2.1)", "pwrx(int: c1, c2, c3)", "pwrx(st: c16, c1)", "pwrx(hw: c1, c16)", "ptw()", "ptw(0)", "ptw(2: 1)", "ptw(0: 0x100000000)",
	"ptw(1: 0x10000000000000000)", "ptw(0: 1, foo)", "ptw(0: 1, ip, ip)", "ptw(256: 1)", "cfe()", "cfe(1)", "cfe(12)", "cfe(32)", "cfe(256)", "cfe(1: 256)", "cfe(1: 14, foo)", "cfe(1: 14 ip)", "cfe(2, ip, ip)", "cfe(2:)", "cfe(x)",
	"evd()", "evd(1)", "evd(64: 0)", "evd(256: 0)", "evd(1: 2, 3)", "evd(1: x)", "evd(1: 0x10000000000000000)", "trig()", "trig(256)", "trig(1, foo)", "trig(1, icnt)", "trig(1, icnt:)", "trig(1, icnt: 65536)", "trig(1 ip)", "trig(x)",
	"raw-8(256)", "raw-16(65536)", "raw-32(0x100000000)", "raw-64(0x10000000000000000)", "raw-8(1, 2)", "raw-8()", "raw-8(x)", "raw-24(1)", "raw(1)",
};
static const char *const BAD_SB[] = {
	"primary()", "secondary()", "primary(raw, a, b)", "foo()", "raw-8(256)", "raw-8(1, 2)", "raw-16(65536)", "raw-32(0x100000000)", "raw-64()", "pevent-sample_type(foo)", "pevent-mmap(1)", "pevent-mmap(1, 2, 3, 4, 5)", "pevent-mmap(x, 2, 3, 4, 5, f)",
	"pevent-mmap(0x100000000, 2, 3, 4, 5, f)", "pevent-comm(1, 2)", "pevent-comm.foo(1, 2, a)", "pevent-lost(1)", "pevent-exit(1, 2, 3, 4)", "pevent-fork(1, 2, 3, 4, x)", "pevent-aux(1, 2)", "pevent-itrace-start(1)", "pevent-lost-samples()",
	"pevent-switch(1)", "pevent-switch-cpu-wide.in(1)", "pevent-switch-cpu-wide.out(1, 0x100000000)", "pevent-mmap-section(nosuch, 1, 2)", "pevent-aux(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)", "pevent-lost(1, 2, x, y, z)",
};

static std::string read_file(const std::string &fn, bool *ok = nullptr)
{
	int fd = open(fn.c_str(), O_RDONLY); if (ok) *ok = fd >= 0;
	if (fd < 0) return ""; std::string s = slurp_fd(fd); close(fd); return s;
}
#include <dirent.h>
static void clean_dir(const std::string &d)
{
	DIR *x = opendir(d.c_str()); if (!x) return;
	while (struct dirent *e = readdir(x)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
	closedir(x);
}

void run_case(Rng &r)
{
	Gen g(r);
	std::string dir = M.scratch + "/w"; mkdir(dir.c_str(), 0700); clean_dir(dir);
	g.root = r.chance(80) ? "t" : "a.b-c"; g.srcfile = M.scratch + "/" + g.root + ".ptt";
	g.org = r.chance(80) ? r.wide(40) & ~15ull : 0; bool usesects = r.chance(35);
	auto filler = [&]() { switch (r.below(6)) { case 0: g.lines.push_back(""); break; case 1: g.lines.push_back("; comment"); break; case 2: g.lines.push_back("   "); break; default: break; } };
	filler();
	g.lines.push_back(strf("org 0x%llx", (unsigned long long) g.org)); g.lines.push_back("bits 64"); filler();
	while (r.chance(25) && g.macros.size() < 3) g.macro();
	if (usesects) {
		int n = (int) r.range(1, 3); uint64_t st = g.org + r.below(3) * 16;
		for (int i = 0; i < n; ++i) { g.sects.push_back({ strf("%s%d", r.chance(50) ? "text" : "sec_", i), st, (r.wide(46)) & ~0xfull, 0 }); st += 0x1000; }
	}
	// The directive that is to be refused, if any.
	bool bad = r.chance(30); int badkind = (int) r.below(10); size_t badline = 0; std::string badwhat; size_t traceend = 0; bool badexp = false, badasm = false;
	int parts = usesects ? (int) g.sects.size() : 1, items = (int) r.range(1, r.chance(80) ? 12 : 40);
	int badat = bad ? (int) r.below((uint64_t) (parts * items)) : -1, idx = 0;
	for (int p = 0; p < parts; ++p) {
		if (usesects) {
			g.cursect = p; g.pos = 0; auto &s = g.sects[(size_t) p];
			auto n = [&](uint64_t v) { return r.chance(70) ? strf("0x%llx", (unsigned long long) v) : strf("%llu", (unsigned long long) v); };
			std::string a = "start=" + n(s.start), b = "vstart=" + n(s.vstart);
			g.lines.push_back("section " + s.name + " " + (r.chance(50) ? a + " " + b : b + " " + a)); g.feat["sections"]++;
		}
		for (int i = 0; i < items; ++i, ++idx) {
			filler();
			if (idx == badat && badkind < 7) {
				traceend = g.trace.size();
				if (badkind < 4 || (badkind == 4 && g.pl.empty())) { badwhat = BAD_PT[r.below(sizeof BAD_PT / sizeof *BAD_PT)]; g.lines.push_back("; @pt " + badwhat); }
				else if (badkind == 4) { badwhat = "label twice"; g.lines.push_back("; @pt " + g.pl[r.below(g.pl.size())].name + ": psb()"); }
				else if (g.cursb < 0) { badwhat = "no sideband file"; g.lines.push_back(r.chance(50) ? "; @sb raw-8(0)" : r.chance(50) ? "; @sb pevent-switch.in()" : "; @sb pevent-sample_type(tid)"); }
				else if (g.sb[(size_t) g.cursb].final && r.chance(50)) { badwhat = "sample type changed"; g.lines.push_back("; @sb pevent-sample_type(tid)"); }
				else if (g.sb[(size_t) g.cursb].stype && r.chance(50)) { badwhat = "samples missing"; g.lines.push_back("; @sb pevent-lost-samples(1)"); }
				else { badwhat = BAD_SB[r.below(sizeof BAD_SB / sizeof *BAD_SB)]; g.lines.push_back("; @sb " + badwhat); }
				badline = g.lines.size();
			}
			if (r.chance(35)) g.asm_line(); else if (r.chance(25)) g.sb_directive(); else g.pt_directive();
			if (r.chance(4)) g.macro();
		}
		filler();
		g.emit(1); g.lines.push_back("  hlt");
	}
	if (bad && badkind == 7) {
		badasm = true;
		switch (r.below(4)) {
		case 0: badwhat = "no org"; for (auto &l : g.lines) if (l.compare(0, 3, "org") == 0) l = ""; break;
		case 1: badwhat = "yasm error"; g.lines.push_back("  mov rax, foo bar"); break;
		case 2: badwhat = "label without address"; g.lines.push_back("lastone:"); break;
		case 3: badwhat = "duplicate label"; g.lines.push_back("dup: nop"); g.lines.push_back("dup: nop"); break;
		}
	}
	// labels are known: complete the IPs
	for (auto &x : g.patches) {
		std::string &l = g.lines[x.line]; size_t p = l.find('\1'); const Lbl &y = g.yl.empty() ? Lbl{ "org", g.org } : g.yl[r.below(g.yl.size())];
		l = l.substr(0, p) + y.name + l.substr(p + 1);
		for (int i = 0; i < x.bytes; ++i) g.trace[x.off + (size_t) i] = (uint8_t) (y.addr >> (8 * i));
	}
	for (auto &x : g.pending_sect) {
		auto &s = g.sects[(size_t) x.sect]; uint8_t *b = &g.sb[(size_t) x.file].data[x.off + 8]; uint64_t v[3] = { s.vstart, s.size, s.start - g.org };
		memcpy(b + 8, v, 24);
	}
	// special labels of sections
	std::vector<Lbl> all = g.yl;
	all.push_back({ "org", g.org });
	for (auto &s : g.sects) { all.push_back({ "section_" + s.name + "_start", s.start }); all.push_back({ "section_" + s.name + "_vstart", s.vstart }); all.push_back({ "section_" + s.name + "_length", s.size }); }
	// expectations
	std::vector<std::pair<std::string, std::string>> exps; bool cpu = r.chance(10); std::string ext;
	int nexp = (int) r.below(3); if (bad && badkind == 8) nexp = 1;
	if (nexp) g.pl.push_back({ "eos", g.trace.size() });
	for (int e = 0; e < nexp; ++e) {
		std::string tool = e || r.chance(70) ? strf("tool%d", e) : "", out; g.lines.push_back("; @pt .exp(" + tool + ")");
		int n = (int) r.below(8);
		for (int i = 0; i < n; ++i) {
			if (r.chance(8)) { g.lines.push_back("  "); continue; }
			std::string src = ";", dst; int k = (int) r.below(6);
			while (k--) {
				switch (r.below(5)) {
				case 0: { std::string w; int m = (int) r.range(1, 8); while (m--) w += "abcXYZ0189 :,?()[].!"[r.below(20)]; src += w; dst += w; break; }
				case 1: src += "  "; dst += "  "; break;
				case 2: case 3: { const Lbl &y = all[r.below(all.size())]; int f = (int) r.below(3), m = r.chance(50) ? (int) r.below(9) : -1;
					src += std::string("%") + (f == 1 ? "0" : f == 2 ? "?" : "") + y.name; uint64_t v = y.addr;
					if (m >= 0) { src += strf(".%d", m); v &= m < 8 ? (1ull << (8 * m)) - 1 : ~0ull; }
					if (f == 0) dst += strf("%llx", (unsigned long long) v); else if (f == 1 || m < 0) dst += strf("%016llx", (unsigned long long) v);
					else { std::string h = strf("%016llx", (unsigned long long) v); for (int q = 0; q < 16 - 2 * m; ++q) h[(size_t) q] = '?'; dst += h; }
					src += " "; dst += " "; g.feat[f == 2 ? "subst_masked" : m >= 0 ? "subst_cut" : "subst"]++; break; }
				case 4: if (!g.pl.empty()) { const Lbl &y = g.pl[r.below(g.pl.size())]; bool z = r.chance(50); src += (z ? "%0" : "%") + y.name + ","; dst += strf(z ? "%016llx," : "%llx,", (unsigned long long) y.addr); g.feat["subst_packet"]++; }
				}
			}
			if (r.chance(20)) src += "# comment %x";
			size_t q = dst.find_last_not_of(' '); dst = q == std::string::npos ? "" : dst.substr(0, q + 1);
			g.lines.push_back((r.chance(10) && !usesects && !bad ? "  nop " : "") + src + (r.chance(10) ? "  " : "")); out += dst + "\n";
		}
		if (bad && badkind == 8) {
			static const char *const b[] = { "; %nolabel", "; a % b", "; 100%", "; %org.9", "; %org.x", "; %0nolabel", "; %?nolabel.2" };
			badwhat = b[r.below(7)]; g.lines.push_back(badwhat); badexp = true;
		}
		exps.push_back({ tool, out });
	}
	bool bads = bad && (badkind < 7 || badasm || badexp);
	std::string text; for (auto &l : g.lines) text += l + (r.chance(3) ? "\r\n" : "\n");
	if (r.chance(10)) text.pop_back();
	write_file(g.srcfile, text.data(), text.size());
	M.note = (bads ? "bad: " + badwhat + "\n" : "") + text + "\n--- expected " + hexs(g.trace.data(), g.trace.size()) + "\n";
	std::vector<std::string> args; if (cpu) { bool st = r.chance(50); args = { "--cpu", st ? "6/61/4" : "6/61" }; ext = st ? "-cpu_6_61_4" : "-cpu_6_61"; }
	args.push_back(g.srcfile);
	ToolRun t = run_tool("pttc", args, dir.c_str());
	if (t.crashed) return;
	bool have; std::string got = read_file(dir + "/" + g.root + ".pt", &have);
	std::string exp((const char *) g.trace.data(), g.trace.size());
	if (bads) {
		if (!t.status) { M.violation(badexp ? "accepted:exp" : badasm ? "accepted:asm" : "accepted:directive", badwhat + " was accepted"); return; }
		if (t.err.empty()) M.violation("silent", badwhat);
		if (!badexp && !badasm) {
			// what precedes the error is either written or not
			if (got.size() > traceend || exp.compare(0, got.size(), got)) M.violation("written-after-error", badwhat + ": " + hexs(got.data(), got.size()));
			size_t q = t.err.find(g.srcfile + ":");
			if (q == std::string::npos || (size_t) atoi(t.err.c_str() + q + g.srcfile.size() + 1) != badline) M.violation("wrong-line", strf("line %zu (%s): ", badline, badwhat.c_str()) + t.err);
		}
		M.count("refused"); M.nontrivial(hashs(badwhat) + 1); M.count(badexp ? "refused_exp" : badasm ? "refused_asm" : "refused_directive");
		return;
	}
	if (t.status) { M.violation("refused", strf("exit %d: ", t.status) + t.err); return; }
	if (!have || got != exp) {
		size_t d = 0; while (d < got.size() && d < exp.size() && got[d] == exp[d]) ++d;
		M.violation("trace", strf("differs at %zu: %s instead of %s", d, hexs(got.data() + d, std::min<size_t>(24, got.size() - d)).c_str(), hexs(exp.data() + d, std::min<size_t>(24, exp.size() - d)).c_str()));
		return;
	}
	M.count("traces"); M.count("packet_bytes", exp.size());
	// the names of the other outputs
	std::vector<std::string> names; { std::string w; for (char c : t.out) if (c == ' ' || c == '\n') { if (!w.empty()) names.push_back(w); w.clear(); } else w += c; if (!w.empty()) names.push_back(w); }
	if (names.size() != exps.size() + g.sb.size()) { M.violation("outputs", strf("%zu names instead of %zu: ", names.size(), exps.size() + g.sb.size()) + t.out); return; }
	for (size_t i = 0; i < exps.size(); ++i) {
		std::string n = g.root + "-" + exps[i].first + ext + ".exp", n2 = g.root + ext + ".exp";
		if (names[i] != n && !(exps[i].first.empty() && names[i] == n2)) { M.violation("exp-name", names[i] + " instead of " + n); continue; }
		bool ok; std::string c = read_file(dir + "/" + names[i], &ok);
		if (!ok || c != exps[i].second) { M.violation("exp-text", "[" + c + "] instead of [" + exps[i].second + "]"); continue; }
		M.count("expectations"); M.nontrivial(hashs(c));
	}
	for (auto &s : g.sb) {
		int hit = -1;
		for (size_t i = exps.size(); i < names.size(); ++i) if (names[i].compare(0, s.prefix.size(), s.prefix) == 0 && (names[i][s.prefix.size()] == '.' || names[i][s.prefix.size()] == ',')) hit = (int) i;
		if (hit < 0) { M.violation("sb-name", s.prefix + " is not in " + t.out); continue; }
		std::string n = names[(size_t) hit], want = s.prefix + (s.pevent ? strf(",sample-type=0x%llx,time-zero=0x0,time-shift=0x0,time-mult=0x1", (unsigned long long) s.stype) : "") + ".sb";
		if (n != want) { M.violation("sb-name", n + " instead of " + want); continue; }
		bool ok; std::string c = read_file(dir + "/" + n, &ok), e((const char *) s.data.data(), s.data.size());
		if (!ok || c != e) { M.violation("sb-data", n + ": " + hexs(c.data(), c.size()) + " instead of " + hexs(e.data(), e.size())); continue; }
		M.count("sidebands"); M.nontrivial(hashs(c));
	}
	for (auto &f : g.feat) M.count(f.first, f.second);
	M.nontrivial(hashs(exp));
	if (M.samples.size() < 3) M.sample(strf("%zu lines, %zu trace bytes, %zu labels", g.lines.size(), exp.size(), g.yl.size()));
	// arguments
	if (r.chance(5)) {
		std::vector<std::vector<std::string>> b = { {}, { "--cpu" }, { "--cpu", "x", g.srcfile }, { "--foo", g.srcfile }, { g.srcfile, g.srcfile }, { M.scratch + "/missing.ptt" }, { g.srcfile, "--cpu" }, { "--cpu", "1", g.srcfile } };
		auto &a = b[r.below(b.size())]; ToolRun u = run_tool("pttc", a, dir.c_str());
		if (!u.crashed && !u.status) M.violation("accepted:arguments", a.empty() ? "none" : a[0]);
		M.count("bad_arguments");
	}
}
