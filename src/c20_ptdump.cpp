// C20: the packet dumper's output against an independent packet model.
#include "tool.hpp"
#include "ptmodel.hpp"
#include <algorithm>

static std::vector<uint64_t> psbs(const Bytes &b)
{
	std::vector<uint64_t> v;
	for (size_t i = 0; i + 1 < b.size();) {
		if (b[i] != 0x02 || b[i + 1] != 0x82) { ++i; continue; }
		size_t j = i;
		while (j + 1 < b.size() && b[j] == 0x02 && b[j + 1] == 0x82) j += 2;
		if (j - i >= 16) v.push_back(j - 16);
		i = j;
	}
	return v;
}
struct Opt {
	bool nosync = false, quiet = false, nopad = false, notiming = false, nocyc = false, nooffset = false, raw = false, lastip = false, em = false,
		time = false, tcal = false, delta = false, notcal = false, nowall = false, keep = false, pevent = false;
	bool timing() const { return time || tcal || pevent; }
};
static uint64_t sext48(uint64_t v) { return v & (1ull << 47) ? v | ~((1ull << 48) - 1) : v & ((1ull << 48) - 1); }
static std::string H(uint64_t v, int w = 0) { return strf("%0*llx", w, (unsigned long long) v); }

// The row's name, payload and tracking columns.
struct Row { std::string op, pay, id, val; bool any_val = false; };
static Row row(const MP &p, const Opt &o)
{
	Row w; const uint64_t *f = p.f;
	auto list = [](std::initializer_list<const char *> l) { std::string s; for (auto x : l) if (x) s += (s.empty() ? "" : ", ") + std::string(x); return s; };
	switch (p.k) {
	case K_PAD: w.op = "pad"; break;
	case K_PSB: w.op = "psb"; break;
	case K_PSBEND: w.op = "psbend"; break;
	case K_OVF: w.op = "ovf"; break;
	case K_STOP: w.op = "stop"; break;
	case K_TNT8: case K_TNT64: w.op = p.k == K_TNT8 ? "tnt.8" : "tnt.64"; for (uint64_t i = f[1]; i--;) w.pay += f[0] >> i & 1 ? '!' : '.'; break;
	case K_TIP: case K_PGE: case K_PGD: case K_FUP: {
		w.op = p.k == K_TIP ? "tip" : p.k == K_PGE ? "tip.pge" : p.k == K_PGD ? "tip.pgd" : "fup";
		int nb = ipbytes((unsigned) f[0]); std::string d = nb ? H(f[1], 2 * nb) : "";
		if (f[0] == 3) d = H(sext48(f[1]), 16);
		w.pay = H(f[0]) + ": " + std::string(16 - d.size(), '?') + d;
		break; }
	case K_EXEC: w.op = "mode.exec"; w.pay = list({ f[1] ? "cs.d" : nullptr, f[0] ? "cs.l" : nullptr, f[2] ? "if" : nullptr });
		if (o.em) { w.id = "em"; w.val = f[0] ? (f[1] ? "unknown" : "64-bit") : f[1] ? "32-bit" : "16-bit"; }
		break;
	case K_TSX: w.op = "mode.tsx"; w.pay = list({ f[0] ? "intx" : nullptr, f[1] ? "abrt" : nullptr }); break;
	case K_PIP: w.op = "pip"; w.pay = H(f[0]) + (f[1] ? ", nr" : ""); w.id = "cr3"; w.val = H(f[0], 16); break;
	case K_VMCS: w.op = "vmcs"; w.pay = H(f[0]); w.id = "vmcs"; w.val = H(f[0], 16); break;
	case K_CBR: w.op = "cbr"; w.pay = H(f[0]); if (o.tcal) { w.id = "fcr"; w.any_val = true; } break;
	case K_TSC: w.op = "tsc"; w.pay = H(f[0]); if (o.time) w.id = "tsc"; if (o.tcal) w.id = "fcr"; w.any_val = true; break;
	case K_TMA: w.op = "tma"; w.pay = H(f[0]) + ", " + H(f[1]); if (o.time) w.id = "tsc"; w.any_val = true; break;
	case K_MTC: w.op = "mtc"; w.pay = H(f[0]); if (o.time) w.id = "tsc"; if (o.tcal) w.id = "fcr"; w.any_val = true; break;
	case K_CYC: w.op = "cyc"; w.pay = H(f[0]); if (o.time && !o.nocyc) w.id = "tsc"; w.any_val = true; break;
	case K_MNT: w.op = "mnt"; w.pay = H(f[0]); break;
	case K_EXSTOP: w.op = "exstop"; w.pay = f[0] ? "ip" : ""; break;
	case K_MWAIT: w.op = "mwait"; w.pay = H(f[0], 8) + ", " + H(f[1], 8); break;
	case K_PWRE: w.op = "pwre"; w.pay = strf("c%u.%u%s", (unsigned) (f[0] + 1) & 15, (unsigned) (f[1] + 1) & 15, f[2] ? ", hw" : ""); break;
	case K_PWRX: w.op = "pwrx"; w.pay = strf("%s: c%u, c%u", f[2] + f[3] + f[4] != 1 ? "bad" : f[2] ? "int" : f[3] ? " st" : " hw", (unsigned) (f[0] + 1) & 15, (unsigned) (f[1] + 1) & 15); break;
	case K_PTW: w.op = "ptw"; w.pay = H(f[0]) + ": " + H(f[2]) + (f[1] ? ", ip" : ""); break;
	case K_CFE: {
		w.op = "cfe"; w.pay = strf("%u", (unsigned) f[0]);
		// interrupts, VM exits due to interrupts and user interrupts have a vector, startup IPIs a page
		if (f[0] == 1 || f[0] == 9 || f[0] == 12) w.pay += strf(": %u", (unsigned) f[2]);
		if (f[0] == 5) w.pay += ": " + H(f[2]);
		if (f[1]) w.pay += ", ip";
		break; }
	case K_EVD: w.op = "evd"; w.pay = strf("%u: ", (unsigned) f[0]) + H(f[1]); break;
	case K_TRIG: w.op = "trig"; w.pay = H(f[0], 2) + (f[1] ? ", ip" : "") + (f[2] ? ", mult" : "") + (f[3] ? strf(", icnt: %u", (unsigned) f[4]) : ""); break;
	}
	return w;
}
static bool is_timing(int k) { return k == K_TSC || k == K_CBR || k == K_TMA || k == K_MTC || k == K_CYC; }

// The times the library reconstructs: an event after each timing packet outside of PSB+.
struct Lt { bool has; uint64_t tsc; };
static std::map<uint64_t, Lt> library_times(const std::vector<std::pair<uint64_t, MP>> &pk, const struct pt_config &cfg, const Opt &o)
{
	// Every packet that is no timing packet and not part of PSB+ is left out; the times depend on timing packets and overflows only.
	Bytes b; std::vector<uint64_t> marks; bool hdr = false; bool en = false; (void) en;
	for (auto &x : pk) {
		const MP &p = x.second;
		if (p.k == K_PSB) { mencode(p, b); hdr = true; continue; }
		if (p.k == K_PSBEND) { mencode(p, b); hdr = false; continue; }
		if (p.k == K_OVF) { if (hdr) break; mencode(p, b); continue; }
		if (!is_timing(p.k) || (p.k == K_CYC && o.nocyc)) continue;
		mencode(p, b);
		if (!hdr) { mencode(MP(K_PTW, 1, 0, marks.size()), b); marks.push_back(x.first); }
	}
	std::map<uint64_t, Lt> res;
	struct pt_config c = cfg; c.begin = b.data(); c.end = b.data() + b.size();
	c.flags.variant.event.keep_tcal_on_ovf = o.keep;
	struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
	if (!d) return res;
	int rc = pt_evt_sync_forward(d);
	while (rc >= 0) {
		struct pt_event e; rc = pt_evt_next(d, &e, sizeof e);
		if (rc >= 0 && e.type == ptev_ptwrite && e.variant.ptwrite.payload < marks.size()) res[marks[e.variant.ptwrite.payload]] = Lt{ !!e.has_tsc, e.tsc };
	}
	pt_evt_free_decoder(d);
	return res;
}

static Bytes gen(Rng &r, bool wellformed)
{
	Bytes b; int mode = wellformed ? 3 : (int) r.below(3);
	auto one = [&]() { mencode(gen_packet(r), b); };
	auto psbp = [&]() {
		mencode(MP(K_PSB), b); if (r.chance(80)) mencode(gen_packet(r, K_TSC), b); if (r.chance(50)) mencode(gen_packet(r, K_TMA), b); if (r.chance(80)) mencode(MP(K_CBR, r.range(1, 40)), b);
		if (r.chance(50)) mencode(gen_packet(r, K_FUP), b); if (r.chance(30)) mencode(gen_packet(r, K_EXEC), b);
		mencode(MP(K_PSBEND), b);
	};
	auto junk = [&]() {
		switch (r.below(5)) {
		case 0: { size_t k = r.below(30); while (k--) b.push_back((uint8_t) r.next()); break; }
		case 1: { int k = (int) r.below(20); while (k--) one(); break; }
		case 2: { Bytes P; mencode(MP(K_PSB), P); size_t k = 1 + r.below(15); b.insert(b.end(), P.begin(), P.begin() + (long) k); break; }
		case 3: { Bytes P; mencode(MP(K_PSB), P); size_t k = 1 + r.below(15); b.insert(b.end(), P.end() - (long) k, P.end()); break; }
		case 4: { Bytes P; mencode(gen_packet(r), P); P.resize(1 + r.below(P.size())); b.insert(b.end(), P.begin(), P.end()); break; }
		}
	};
	if (mode == 3) {
		if (r.chance(20)) junk();
		uint64_t tsc = r.wide(48), ctc = r.next();
		int n = (int) r.range(2, 40);
		mencode(MP(K_PSB), b);
		if (r.chance(85)) { mencode(MP(K_TSC, tsc), b); if (r.chance(80)) mencode(MP(K_TMA, ctc & 0xffff, r.below(64)), b); }
		if (r.chance(85)) mencode(MP(K_CBR, r.range(1, 40)), b);
		mencode(MP(K_PSBEND), b);
		while (n--) {
			tsc += r.wide(16);
			switch (r.below(12)) {
			case 0: mencode(MP(K_PSB), b); if (r.chance(60)) mencode(MP(K_TSC, tsc & ((1ull << 56) - 1)), b); if (r.chance(60)) mencode(MP(K_CBR, r.range(1, 40)), b); mencode(MP(K_PSBEND), b); break;
			case 1: mencode(MP(K_TSC, tsc & ((1ull << 56) - 1)), b); if (r.chance(70)) mencode(MP(K_TMA, ctc & 0xffff, r.below(64)), b); break;
			case 2: mencode(MP(K_CBR, r.range(1, 40)), b); break;
			case 3: if (r.chance(30)) mencode(MP(K_OVF), b); break;
			case 4: case 5: case 6: ctc += r.chance(80) ? 1 : r.below(5); mencode(MP(K_MTC, ctc & 0xff), b); break;
			case 7: case 8: case 9: mencode(MP(K_CYC, r.wide(12)), b); break;
			default: one(); if (b.back() == 0x82) {} break;
			}
		}
		return b;
	}
	int n = (int) r.below(4);
	if (r.chance(50)) junk();
	while (n--) {
		if (r.chance(60)) psbp(); else mencode(MP(K_PSB), b);
		int k = (int) r.below(25); while (k--) one();
		if (r.chance(50)) junk();
	}
	if (mode == 1 && !b.empty()) { int k = (int) r.range(1, 3); while (k--) b[r.below(b.size())] = (uint8_t) r.next(); }
	if (r.chance(20) && !b.empty()) b.resize(r.below(b.size() + 1));
	return b;
}

static void arguments(Rng &r, const std::string &fn, size_t sz)
{
	std::vector<std::string> a; bool ok = false;
	auto big = strf("%zu", sz + r.below(100));
	switch (r.below(24)) {
	case 0: break;
	case 1: a = { "--foo", fn }; break;
	case 2: a = { fn, fn }; break;
	case 3: a = { fn, "--raw" }; break;
	case 4: a = { fn + "x" }; break;
	case 5: a = { fn + ":" + big }; break;
	case 6: a = { fn + ":0-" + strf("%zu", sz + 1 + r.below(100)) }; break;
	case 7: a = { fn + ":3-3" }; break;
	case 8: a = { fn + ":5-2" }; break;
	case 9: a = { "--mtc-freq", "256", fn }; break;
	case 10: a = { "--nom-freq", "1x", fn }; break;
	case 11: a = { "--cpu", "6", fn }; break;
	case 12: a = { "--cpuid-0x15.eax", "4294967296", fn }; break;
	case 13: a = { "--cpuid-0x15.ebx" }; break;
	case 14: a = { "--cpuid-0x15.ebx", "--raw", fn }; break;
	case 15: a = { "--time", "--tcal", fn }; break;
	case 16: a = { "--tcal", "--time", fn }; break;
	case 17: a = { "--cpu" }; break;
	case 18: a = { fn + ":18446744073709551615" }; break;
	case 22: { uint64_t far = (1ull << 63) + r.wide(62); a = { fn + strf(":0x%llx", (unsigned long long) far) + (r.chance(50) ? strf("-0x%llx", (unsigned long long) (far + 1 + r.below(10))) : "") }; break; }
	case 23: { int n = r.chance(50) ? 256 : (int) r.range(256, 520); for (int i = 0; i < n; ++i) { a.push_back("--pevent:sample-config"); a.push_back(strf("%d:0x44", i)); } a.push_back(fn); break; }
	case 19: a = { fn + ":99999999999999999999999" }; break;
	case 20: a = { "--mtc-freq", "", fn }; break;
	case 21: a = { r.chance(50) ? "--help" : r.chance(50) ? "-h" : "--version" }; ok = true; break;
	}
	ToolRun t = run_tool("ptdump", a);
	if (t.crashed) return;
	std::string s; for (auto &x : a) s += x + " ";
	if (ok ? t.status != 0 || t.out.empty() : t.status == 0) M.violation("arguments", strf("exit %d for '%s': ", t.status, s.c_str()) + t.out.substr(0, 300));
	else if (!ok && t.err.empty()) M.violation("silent", "no error message for '" + s + "'");
	M.count("malformed");
}

void run_case(Rng &r)
{
	Opt o; bool wf = r.chance(40);
	std::vector<std::string> args;
	auto flag = [&](bool &f, const char *n, unsigned pct) { if (r.chance(pct)) { f = true; args.push_back(n); } };
	flag(o.nosync, "--no-sync", 12); flag(o.quiet, "--quiet", 4); flag(o.nopad, "--no-pad", 15); flag(o.notiming, "--no-timing", 8); flag(o.nocyc, "--no-cyc", 12);
	flag(o.nooffset, "--no-offset", 20); flag(o.raw, "--raw", 40); flag(o.lastip, "--lastip", 60); flag(o.em, "--exec-mode", 40);
	if (wf || r.chance(40)) { if (r.chance(75)) { flag(o.time, "--time", 100); } else flag(o.tcal, "--tcal", 100); }
	flag(o.delta, "--time-delta", 25); flag(o.notcal, "--no-tcal", 10); flag(o.nowall, "--no-wall-clock", 15); flag(o.keep, "--keep-tcal-on-ovf", 20);
	Bytes b = gen(r, wf);
	struct pt_config cfg; pt_config_init(&cfg);
	if (r.chance(70)) {
		cfg.cpuid_0x15_eax = (uint32_t) r.range(1, 4); cfg.cpuid_0x15_ebx = (uint32_t) r.range(1, 400); cfg.mtc_freq = (uint8_t) r.below(12);
		args.insert(args.end(), { "--cpuid-0x15.eax", strf("%u", cfg.cpuid_0x15_eax), "--cpuid-0x15.ebx", strf("0x%x", cfg.cpuid_0x15_ebx), "--mtc-freq", strf("%u", cfg.mtc_freq) });
	}
	if (r.chance(60)) { cfg.nom_freq = (uint8_t) r.range(1, 255); args.insert(args.end(), { "--nom-freq", strf("%u", cfg.nom_freq) }); }
	if (r.chance(20)) {
		if (r.chance(50)) args.insert(args.end(), { "--cpu", "none" });
		else { cfg.cpu.vendor = pcv_intel; cfg.cpu.family = 6; cfg.cpu.model = r.chance(50) ? 61 : 78; args.insert(args.end(), { "--cpu", strf("6/%u/3", cfg.cpu.model) }); pt_cpu_errata(&cfg.errata, &cfg.cpu); }
	}
	// perf sideband records, to be shown when the trace's time reaches them
	std::vector<uint64_t> sb; std::string sbfn = M.scratch + "/sb.pevent"; size_t sbn = 0;
	if (r.chance(wf ? 40 : 10)) {
		o.pevent = true; args.insert(args.end(), { "--sb:compact", "--pevent:sample-type", "4" });
		std::vector<uint64_t> at; for (size_t i = 0; i < b.size(); ++i) if (b[i] == 0x19 && b.size() - i >= 8) at.push_back(rd(&b[i + 1], 7));
		if (at.empty()) at.push_back(r.wide(40));
		uint64_t shift = r.below(2), mult = 1;
		if (shift) { mult = 2; }
		args.insert(args.end(), { "--pevent:time-shift", strf("%llu", (unsigned long long) shift), "--pevent:time-mult", strf("%llu", (unsigned long long) mult) });
		int n = (int) r.range(1, 8);
		while (n--) sb.push_back((at[r.below(at.size())] + r.wide(16) - (r.chance(30) ? r.wide(14) : 0)) & ((1ull << 60) - 1));
		std::sort(sb.begin(), sb.end());
		Bytes f; for (size_t i = 0; i < sb.size(); ++i) { put(f, 12, 4); put(f, 0, 2); put(f, 24, 2); put(f, 0x5b000001 + i, 4); put(f, 0x7c000001 + i, 4); put(f, sb[i], 8); }
		write_file(sbfn, f.data(), f.size()); args.insert(args.end(), { "--pevent", sbfn });
	}
	std::string fn = M.scratch + (r.chance(20) ? "/a:b.pt" : "/t.pt");
	// an optional range
	Bytes file = b; std::string arg = fn; size_t pre = 0;
	if (!b.empty() && r.chance(20)) {
		Bytes f2; pre = r.below(40); for (size_t i = 0; i < pre; ++i) f2.push_back((uint8_t) r.next());
		f2.insert(f2.end(), b.begin(), b.end());
		if (r.chance(50)) { size_t end = f2.size(); size_t k = r.below(30); while (k--) f2.push_back((uint8_t) r.next()); arg += strf(r.chance(50) ? ":%zu-%zu" : ":0x%zx-0x%zx", pre, end); }
		else arg += strf(r.chance(50) ? ":%zu" : ":0x%zx", pre);
		file = f2;
	}
	write_file(fn, file.data(), file.size());
	args.push_back(arg);
	std::string cl; for (auto &a : args) cl += a + " ";
	M.note = "ptdump " + cl + "\n" + hexs(b.data(), b.size()) + "\n";
	ToolRun t = run_tool("ptdump", args);
	unlink(fn.c_str()); if (o.pevent) unlink(sbfn.c_str());
	if (t.crashed) return;
	if (b.empty()) { if (!t.status) M.violation("accepted:empty", t.out); return; }
	if (t.status || !t.err.empty()) { M.violation("refused", strf("exit %d %s", t.status, t.err.c_str())); return; }
	std::vector<std::string> lines;
	for (size_t p = 0; p < t.out.size();) { size_t e = t.out.find('\n', p); if (e == std::string::npos) { M.violation("no-newline", t.out.substr(p)); return; } lines.push_back(t.out.substr(p, e - p)); p = e + 1; }
	M.note += t.out.substr(0, 6000);

	// Walk the trace with the model.
	auto pts = psbs(b); size_t li = 0;
	uint64_t pos; size_t pi = 0;
	if (o.nosync) pos = 0; else if (pts.empty()) { if (!lines.empty() && !o.pevent) M.violation("extra", "no synchronization point: " + lines[0]); return; } else pos = pts[0];
	uint64_t ip = 0; bool have_ip = false; uint64_t old = 0; bool first_seg = true; bool in_hdr = false;
	std::vector<std::pair<uint64_t, MP>> seg; std::map<uint64_t, Lt> times; bool have_times = false;
	auto scan = [&](uint64_t from) {	// packets from here to the next error
		seg.clear(); uint64_t q = from;
		while (q < b.size()) { MD m = mdecode(&b[q], b.size() - q); if (m.fail) break; seg.push_back({ q, m.p }); q += (uint64_t) m.size; }
		times.clear(); have_times = false;
		// PSB+ are complete, no errors in between
		bool h = false, good = !seg.empty() && seg[0].second.k == K_PSB;
		for (auto &x : seg) {
			if (x.second.k == K_PSB) { if (h) good = false; h = true; }
			else if (x.second.k == K_PSBEND) { if (!h) good = false; h = false; }
			else if (x.second.k == K_OVF && h) good = false;
			else if (h && (x.second.k == K_TIP || x.second.k == K_PGE || x.second.k == K_PGD)) good = false;
			// the calibration of a decoder that uses CYC only applies without "no calibration"
			else if (x.second.k == K_CYC && o.notcal && !o.nocyc) good = false;
		}
		if (h) good = false;
		if ((o.time || o.pevent) && good) { times = library_times(seg, cfg, o); have_times = true; }
	};
	auto fail = [&](const char *k, const std::string &s) { M.violation(k, s + strf(" (line %zu: ", li) + (li < lines.size() ? lines[li] : "<end>") + ")"); };
	auto is_sb = [&]() { return li < lines.size() && lines[li].find("PERF_RECORD_") != std::string::npos; };
	auto sbline = [&]() -> bool {	// the next record
		if (sbn >= sb.size()) { fail("sideband:extra", "more records than there are"); return false; }
		std::string want = strf("PERF_RECORD_ITRACE_START  %zx/%zx  { %llx }", 0x5b000001 + sbn, 0x7c000001 + sbn, (unsigned long long) sb[sbn]);
		if (lines[li] != want) { fail("sideband:line", "expected " + want); return false; }
		++sbn; ++li; M.count("sideband_records"); return true;
	};
	scan(pos);
	bool ended = false;
	while (!ended) {
		if (pos == b.size()) { ended = true; break; }
		MD m = mdecode(&b[pos], b.size() - pos);
		if (m.fail & 0x100) { M.count("ambiguous"); return; }
		// messages about time
		unsigned nm = 0; bool noip = false;
		while (li < lines.size() && lines[li][0] == '[' && lines[li].find("error decoding packet") == std::string::npos) {
			unsigned long long off = ~0ull; sscanf(lines[li].c_str(), "[%llx:", &off);
			if (off > pos && off < b.size()) break;	// a later packet's
			// nothing to suppress
			if (!m.fail && (m.p.k == K_TIP || m.p.k == K_PGE || m.p.k == K_PGD || m.p.k == K_FUP) && !m.p.f[0] && !have_ip && o.lastip && off == pos && lines[li].find("tracking last-ip") != std::string::npos) { ++li; noip = true; continue; }
			bool timing = lines[li].find("time") != std::string::npos || lines[li].find("calibrat") != std::string::npos;
			if (!timing || !o.timing()) return fail("message", "unexpected message");
			if (off != pos || m.fail || !(is_timing(m.p.k) || m.p.k == K_PSB || m.p.k == K_OVF)) return fail("message-offset", strf("message at %llx, expected at %llx", off, (unsigned long long) pos));
			++li; if (++nm > 6) return fail("messages", "too many");
			M.count("time_messages");
		}
		if (m.fail) {
			bool shown = li < lines.size() && lines[li].find("error decoding packet") != std::string::npos;
			if (!shown) {
				if (m.fail & F_END) { ended = true; M.count("truncated"); break; }
				return fail("error-missing", strf("undecodable bytes at %llx not reported", (unsigned long long) pos));
			}
			std::string want1 = strf("[%llx: error decoding packet: %s]", (unsigned long long) pos, pt_errstr(pte_bad_opc)), want2 = strf("[%llx: error decoding packet: %s]", (unsigned long long) pos, pt_errstr(pte_bad_packet));
			if (!((m.fail & F_OPC && lines[li] == want1) || (m.fail & F_PKT && lines[li] == want2))) return fail("error-line", strf("error %x at %llx", m.fail, (unsigned long long) pos));
			++li; M.count("errors");
			// continues at the next synchronization point, which may have been partially consumed
			bool found = false; uint64_t np = 0;
			for (auto p : pts) if (p > pos || (p + 15 >= pos && p > (seg.empty() ? pos : seg[0].first) && !(p == pos))) { np = p; found = true; break; }
			if (!found) { ended = true; break; }
			pos = np; M.count("resyncs"); ip = 0; have_ip = false; old = 0; first_seg = false; in_hdr = false; (void) first_seg;
			scan(pos);
			continue;
		}
		const MP &p = m.p;
		if (p.k == K_PSB) { in_hdr = true; ip = 0; have_ip = false; } else if (p.k == K_PSBEND) in_hdr = false;
		else if (p.k == K_OVF) { ip = 0; have_ip = false; }
		Row w = row(p, o);
		if (o.lastip && (p.k == K_TIP || p.k == K_PGE || p.k == K_PGD || p.k == K_FUP)) {
			w.id = "ip"; const uint64_t *f = p.f;
			switch (f[0]) {
			case 0: w.val = noip ? "<unavailable>" : "<suppressed>"; break;
			case 1: ip = (ip & ~0xffffull) | f[1]; break;
			case 2: ip = (ip & ~0xffffffffull) | f[1]; break;
			case 3: ip = sext48(f[1]); break;
			case 4: ip = (ip & ~0xffffffffffffull) | f[1]; break;
			default: ip = f[1];
			}
			if (f[0]) { w.val = H(ip, 16); have_ip = true; }
			M.count("ips_checked");
		}
		if (w.id.empty()) w.any_val = false;
		if (o.pevent && is_timing(p.k) && !(p.k == K_CYC && o.nocyc)) {
			bool known = have_times && times.count(pos) && times[pos].has; uint64_t T = known ? times[pos].tsc : 0;
			if (known) {
				while (sbn < sb.size() && sb[sbn] <= T) { if (!is_sb()) return fail("sideband:late", strf("record at %llx not shown at time %llx", (unsigned long long) sb[sbn], (unsigned long long) T)); if (!sbline()) return; M.count("sideband_timed"); }
			} else while (is_sb()) if (!sbline()) return;
		}
		bool show = !o.quiet && !(p.k == K_PAD && o.nopad) && !(o.notiming && is_timing(p.k)) && !(p.k == K_CYC && o.nocyc);
		// what the library thinks
		if (w.any_val && o.time && have_times && times.count(pos) && show) {
			Lt l = times[pos];
			if (l.has) {
				if (o.delta) w.val = (l.tsc >= old ? "+" : "-") + H(l.tsc >= old ? l.tsc - old : old - l.tsc); else w.val = H(l.tsc, 16);
				w.any_val = false; M.count("times_checked");
			} else if (!o.nowall) { w.val = "<unavailable>"; w.any_val = false; M.count("unavailable_checked"); }
		}
		if (o.tcal && p.k == K_CBR && !o.notcal && !o.delta && cfg.nom_freq && p.f[0] && !nm) {
			// the ratio of the nominal to the current frequency in steps of 1/2^n: n is at least 8
			w.val.clear(); M.count("ratios_checked");
		}
		if (show) {
			if (is_sb()) return fail("sideband:early", strf("record at %llx shown", (unsigned long long) (sbn < sb.size() ? sb[sbn] : 0)));
			if (li >= lines.size()) return fail("missing", strf("packet %s at %llx", p.str().c_str(), (unsigned long long) pos));
			std::string x;
			if (!o.nooffset) x += H(pos, 16) + " ";
			if (o.raw) { std::string h; for (int i = 0; i < m.size; ++i) h += H(b[pos + (size_t) i], 2); if (!o.nooffset) x += " "; x += strf("%-33s", h.c_str()); }
			if (!x.empty()) x += " ";
			const std::string &l = lines[li];
			if (l.compare(0, x.size(), x)) return fail("columns", strf("expected '%s' for %s", x.c_str(), p.str().c_str()));
			// Columns are separated by white space; their alignment is not checked.
			auto words = [](const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') ++i; size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; };
			std::string e = w.op + " " + w.pay + " " + w.id + " " + (w.any_val ? "" : w.val);
			auto a = words(l.substr(x.size())), q = words(e);
			std::string last;
			if (w.any_val) { if (a.empty()) return fail("row", "empty"); last = a.back(); a.pop_back(); }
			if (a != q) return fail(std::string("row:").append(kind_name[p.k]).c_str(), strf("expected '%s' at %llx", e.c_str(), (unsigned long long) pos));
			if (w.any_val && o.tcal && p.k == K_CBR && !o.notcal && !o.delta && cfg.nom_freq && p.f[0]) {
				double got = atof(last.c_str()), want = (double) cfg.nom_freq / (double) p.f[0];
				if (got > want + 0.001 || got < want - 0.006) return fail("ratio", strf("expected %.3f", want));
			}
			if (w.any_val && o.time && last != "<unavailable>" && !o.delta && strspn(last.c_str(), "0123456789abcdef") != 16) return fail("time-format", last);
			if (w.id == "tsc" && o.delta) {
				std::string v = w.any_val ? last : w.val;
				if (v != "<unavailable>") { unsigned long long d = strtoull(v.c_str() + 1, nullptr, 16); if (v[0] == '-') old -= d; else if (v[0] == '+') old += d; else return fail("delta-format", v); }
			}
			++li; M.count("rows");
			M.nontrivial(hash64(&b[pos], (size_t) m.size, (uint64_t) o.lastip * 2 + o.raw));
		}
		pos += (uint64_t) m.size;
	}
	while (is_sb()) if (!sbline()) return;
	if (o.pevent && !o.quiet && sbn != sb.size()) return fail("sideband:missing", strf("%zu of %zu records shown", sbn, sb.size()));
	if (li != lines.size()) return fail("extra", "more lines than packets");
	M.count("dumps"); (void) in_hdr; (void) pi;
	if (r.chance(15)) { write_file(fn, b.data(), b.size()); arguments(r, fn, b.size()); unlink(fn.c_str()); }
	if (M.samples.size() < 3) M.sample(cl + ": " + t.out.substr(0, 200));
}
