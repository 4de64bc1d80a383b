// C07: decoding from a sync point does not depend on decoder history.
// The same decoder calls are made on a fresh decoder and on one with an arbitrary past
// (and other memory contents); the transcripts of everything reported must be equal.
#include "hostile.hpp"

static uint8_t fillbyte; static uint64_t fillrnd; static bool fillrandom;
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n)
{
	uint8_t *p = (uint8_t *) __real_malloc(n);
	if (!p) return p;
#ifdef VG
	return p;	// memcheck tracks what was never written
#endif
	if (!fillrandom) memset(p, fillbyte, n);
	else for (size_t i = 0; i < n; ++i) { fillrnd = fillrnd * 6364136223846793005ull + 1442695040888963407ull; p[i] = (uint8_t) (fillrnd >> 33); }
	return p;
}
__attribute__((noinline, no_sanitize("address"))) static void dirty(uint8_t pat)
{
	volatile uint8_t a[12288]; for (size_t i = 0; i < sizeof a; i += 8) *(volatile uint64_t *) (a + i) = 0x0101010101010101ull * pat;
}
static std::vector<uint64_t> psbs(const Bytes &b)
{
	std::vector<uint64_t> v;
	for (size_t i = 0; i + 1 < b.size();) {
		if (b[i] != 0x02 || b[i + 1] != 0x82) { ++i; continue; }
		size_t j = i;
		while (j + 1 < b.size() && b[j] == 0x02 && b[j + 1] == 0x82) j += 2;
		if (j - i >= 16) v.push_back(j - 16);
		i = j;
	}
	return v;
}

typedef std::vector<std::string> Log;
static void follow(Dec &d, uint64_t seed, size_t steps, bool wild, uint8_t pat, Log &log)
{
	Rng r(seed); std::string s; size_t syncs = 0; uint64_t n0 = d.ninsn;
	d.strict = false;
	log.push_back(d.query());
	while (steps--) {
		s.clear(); dirty(pat);
		int x = d.step(r, s, wild); log.push_back(s);
		if (r.chance(40)) log.push_back(d.query());
		if (d.ninsn - n0 > 100000) break;
		if (x < 0 || ((x & pts_eos) && !(x & pts_event_pending))) {
			// what follows an error counts, too
			if (r.chance(30)) { s.clear(); d.step(r, s, wild); log.push_back(s); }
			if (++syncs > 3) break;
			int y = d.sync(0, 0, &s); log.push_back(s + d.query());
			if (y < 0 && y == -pte_eos) break;
		}
	}
}

void run_case(Rng &r)
{
	int kind = (int) r.below(5);
	HImage h; Bytes t; std::string desc;
	fillrandom = false; fillbyte = 0;
	if (r.chance(35)) { h.gen(r); t = soup(r, h.ips, (int) r.range(10, 80), nullptr, true); desc = "soup "; }
	else if (r.chance(75)) { ProgSim p(r); p.simple = r.chance(20); p.generate(); t = p.out; if (t.size() > 5000) t.resize(5000); h.from(r, p, 0); desc = "program "; }
	else { EvGen g(r, r.chance(50)); g.cyc = r.chance(50); g.generate((int) r.range(5, 60)); t = g.out; h.gen(r); desc = "scenario "; }
	// With the address space unknown, code must not depend on it.
	for (size_t i = 0; i < h.reg.size(); ++i) for (size_t j = i + 1; j < h.reg.size();) {
		Region &a = h.reg[i], &b = h.reg[j];
		if (a.cr3 != b.cr3 && a.va < b.end() && b.va < a.end()) h.reg.erase(h.reg.begin() + (long) j); else ++j;
	}
	if (r.chance(40)) { mutate(r, t, (unsigned) r.range(1, 6)); desc += "mutated "; }
	auto P = psbs(t);
	if (P.empty()) return;
	GuardBuf buf(t.data(), t.size(), r.chance(50));
	struct pt_config c; hostile_config(r, c, buf.begin, buf.end(), kind);
	bool tcal = r.chance(50);
	if (tcal) { c.mtc_freq = (uint8_t) r.below(8); c.nom_freq = (uint8_t) r.range(8, 40); c.cpuid_0x15_eax = (uint32_t) r.range(1, 4); c.cpuid_0x15_ebx = (uint32_t) r.range(1, 300); }
	M.note = strf("%s\n%s\n", deckind[kind], desc.c_str()) + cfg_str(c) + h.desc + hexs(t.data(), t.size()) + "\n";
	uint64_t X = P[r.below(P.size())]; size_t xi = (size_t) (std::find(P.begin(), P.end(), X) - P.begin());
	uint64_t fseed = r.next(), iseed = r.next(); size_t steps = r.range(20, 250); bool wild = r.chance(30);
	static const uint8_t pats[] = { 0x00, 0xff, 0x01, 0xa5, 0x7f, 0x80 };

	// reference: a fresh decoder
	Log ref, got; std::string s0, s1;
	h.drop(); h.build(iseed); h.cb_hostile = false;
	fillrandom = false; fillbyte = 0;
	{
		Dec d(kind, c, h.image); if (!d.ok()) { M.violation("alloc", "no decoder"); return; }
		dirty(0); d.sync(2, X, &s0); follow(d, fseed, steps, wild, 0, ref);
	}
	// one with a past; blocks may be cut differently when the code is cached already
	bool shared = r.chance(50) && kind != 4; HImage h2;
	if (!shared) { h.drop(); h.build(iseed); h.cb_hostile = false; h2.reg = h.reg; h2.cbseed = h.cbseed; h2.file = h.file + "2"; h2.build(r.chance(50) ? iseed : r.next()); }
	fillbyte = pats[r.below(6)]; fillrandom = r.chance(40); fillrnd = r.next(); uint8_t pat = (uint8_t) r.next();
	std::string how;
	{
		Dec d(kind, c, shared ? h.image : h2.image); if (!d.ok()) { M.violation("alloc", "no decoder"); return; }
		d.strict = false; std::string s;
		int nh = (int) r.below(6), errors = 0; size_t nst = 0;
		while (nh--) {
			int m = (int) r.below(3);
			dirty(pat); int rc = d.sync(m, m == 2 && r.chance(80) ? P[r.below(P.size())] : r.below(t.size() + 1));
			how += strf("sync%d:%d ", m, rc);
			size_t n = r.below(60); uint64_t n0 = d.ninsn;
			while (n-- && d.ninsn - n0 < 50000) { s.clear(); int x = d.step(r, s, r.chance(20)); ++nst; if (r.chance(10)) d.query(); if (x < 0) { errors++; if (r.chance(70)) break; } }
			if (r.chance(10) && kind >= 3) { if (kind == 3) { pt_insn_set_image(d.i, nullptr); pt_insn_set_image(d.i, shared ? h.image : h2.image); } else { pt_blk_set_image(d.b, nullptr); pt_blk_set_image(d.b, h2.image); } }
		}
		int reach = (int) r.below(3); int rc = 0;
		auto final_image = [&]() { if (!shared) { if (kind == 3) pt_insn_set_image(d.i, h.image); if (kind == 4) pt_blk_set_image(d.b, h.image); } };
		final_image();
		if (reach == 0 && xi > 0) { dirty(pat); d.sync(2, P[xi - 1]); dirty(pat); rc = d.sync(0, 0, &s1); how += "forward "; }
		else if (reach == 0 && xi == 0 && how.empty()) { rc = d.sync(0, 0, &s1); how += "first "; }
		else if (reach == 1 && xi + 1 < P.size()) { dirty(pat); d.sync(2, P[xi + 1]); dirty(pat); rc = d.sync(1, 0, &s1); how += "backward "; }
		else { dirty(pat); rc = d.sync(2, X, &s1); how += "set "; }
		uint64_t at = 0;
		if (rc >= 0 && s0.compare(0, 6, "sync -") && d.get_sync(&at) >= 0 && at == X) { follow(d, fseed, steps, wild, pat, got); }
		else { // the point itself is C06's business; a different result is ours
			if (rc >= 0) { M.count("other_point"); return; }
			if (reach >= 1 || xi == 0 ? s0 != s1 && how.find("set ") != how.npos : false) M.violation(strf("sync:%s", deckind[kind]), "fresh: " + s0 + ", with a past " + how + ": " + s1);
			M.count("unreached"); return;
		}
		how += strf("(%zu steps, %d errors before)", nst, errors);
		if (nst) M.count("with_past"); if (errors) M.count("with_errors");
	}
	fillrandom = false; fillbyte = 0;
	auto where = [&](size_t i) { std::string x; for (size_t k = i >= 3 ? i - 3 : 0; k < i; ++k) x += ref[k] + " | "; return x; };
	if (s0 != s1) M.violation(strf("sync:%s", deckind[kind]), "fresh: " + s0 + ", with a past " + how + ": " + s1);
	size_t n = std::min(ref.size(), got.size());
	size_t i = 0; while (i < n && ref[i] == got[i]) ++i;
	if (i < n || ref.size() != got.size()) M.violation(strf("differs:%s:%s", deckind[kind], i < n ? ref[i].substr(0, ref[i].find(' ', 1)).c_str() : "length"), strf("step %zu: fresh: ", i) + (i < n ? ref[i] + "\n   with a past " + how + ": " + got[i] : strf("%zu/%zu lines", ref.size(), got.size())) + "\n   after: " + where(i));
	M.count("transcripts_compared"); M.count("lines_compared", n); M.count(strf("%s_cases", deckind[kind])); M.count(how.find("forward") != how.npos ? "by_forward" : how.find("backward") != how.npos ? "by_backward" : "by_set");
	uint64_t hh = (uint64_t) kind; for (auto &x : ref) hh = hash64(x.data(), std::min<size_t>(x.size(), 14), hh);
	M.nontrivial(hh);
	if (M.cur % 4999 == 0) M.sample(how + " " + where(std::min<size_t>(n, 3)).substr(0, 400));
}
