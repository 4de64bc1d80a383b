// Coverage-guided companion of c01_hostile and c02_hostile (thorough tier): the same
// driver and monitors, input bytes chosen by libFuzzer.
#include "hostile.hpp"
Mon M;
static bool flow;
extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv)
{
	flow = getenv("FUZZ_FLOW") != nullptr; M.outdir = getenv("FUZZ_OUT") ? getenv("FUZZ_OUT") : "/tmp"; M.prop = flow ? "C02" : "C01"; M.harness = "fuzz_dec";
	M.scratch = M.outdir + strf("/scratch-fuzz-%d", (int) getpid()); mkdir(M.scratch.c_str(), 0700);
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n)
{
	if (n < 10 || n > 4096) return 0;
	uint64_t seed = rd(p, 8); unsigned kind = p[8] % (flow ? 2 : 3); if (flow) kind += 3; bool wild = p[8] & 0x80; p += 9; n -= 9;
	Rng r(seed);
	HImage *h = nullptr;
	if (flow) {
		size_t k = std::min<size_t>(n, 1 + p[0] % 96); h = new HImage; Region g; g.va = 0x1000; g.bytes.assign(p, p + k); h->reg.push_back(g); h->file = M.scratch + "/f"; h->total = k; h->build(seed); p += k; n -= k;
	}
	GuardBuf buf(p, n, true); struct pt_config c; hostile_config(r, c, buf.begin, buf.end(), (int) kind);
	{
		Dec d((int) kind, c, h ? h->image : nullptr); std::string s; size_t steps = 0, syncs = 0;
		int rc = d.sync(0, 0);
		for (;;) {
			if (++syncs > n / 16 + 20) { M.violation("endless-sync", "no end"); break; }
			if (rc >= 0) { d.query(); for (;;) { if (++steps > 8 * n + 64 && !flow) { M.violation("endless", s); break; } if (steps > 2000 || d.ninsn > 200000) break; s.clear(); int x = d.step(r, s, wild); if (x < 0 || ((x & pts_eos) && !(x & pts_event_pending))) break; } d.query(); if (wild) { d.strict = false; d.step(r, s, true); d.strict = true; } }
			else if (rc == -pte_eos && syncs > 1) break;
			if (steps > 2000 && flow) break;
			rc = d.sync(0, 0);
		}
	}
	delete h;
	if (M.nviol) abort();
	return 0;
}
