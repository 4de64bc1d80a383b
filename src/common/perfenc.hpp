// An independent encoder of perf records and their configuration.
#pragma once
#include "mon.hpp"
extern "C" {
#include "pevent.h"
#include "intel-pt.h"
}
#include <algorithm>
typedef std::vector<uint8_t> Bytes;
typedef unsigned __int128 u128;
template <class T> static void add(Bytes &b, T v) { const uint8_t *p = (const uint8_t *) &v; b.insert(b.end(), p, p + sizeof v); }

// ------------------------------------------------------------ the record format, as perf_event.h documents it
enum { F_U32, F_U64, F_STR };
struct Fmt { uint32_t type; const char *name; std::vector<int> f; };
static const std::vector<Fmt> FMT = {
	{ 1, "mmap", { F_U32, F_U32, F_U64, F_U64, F_U64, F_STR } },
	{ 2, "lost", { F_U64, F_U64 } },
	{ 3, "comm", { F_U32, F_U32, F_STR } },
	{ 4, "exit", { F_U32, F_U32, F_U32, F_U32, F_U64 } },
	{ 5, "throttle", { F_U64, F_U64, F_U64 } },
	{ 6, "unthrottle", { F_U64, F_U64, F_U64 } },
	{ 7, "fork", { F_U32, F_U32, F_U32, F_U32, F_U64 } },
	{ 10, "mmap2", { F_U32, F_U32, F_U64, F_U64, F_U64, F_U32, F_U32, F_U64, F_U64, F_U32, F_U32, F_STR } },
	{ 11, "aux", { F_U64, F_U64, F_U64 } },
	{ 12, "itrace_start", { F_U32, F_U32 } },
	{ 13, "lost_samples", { F_U64 } },
	{ 14, "switch", { } },
	{ 15, "switch_cpu_wide", { F_U32, F_U32 } },
};
static const Fmt *fmt_of(uint32_t type) { for (auto &f : FMT) if (f.type == type) return &f; return nullptr; }
static size_t fixed_size(const Fmt &f) { size_t n = 0; for (int k : f.f) n += k == F_U32 ? 4 : k == F_U64 ? 8 : 0; return n; }
static bool has_str(const Fmt &f) { return !f.f.empty() && f.f.back() == F_STR; }
struct Smp { uint32_t pid = 0, tid = 0, cpu = 0; uint64_t time = 0, id = 0, stream = 0, ident = 0; };
static const uint64_t STYPES[] = { PERF_SAMPLE_TID, PERF_SAMPLE_TIME, PERF_SAMPLE_ID, PERF_SAMPLE_STREAM_ID, PERF_SAMPLE_CPU, PERF_SAMPLE_IDENTIFIER };
static void put_samples(Bytes &b, uint64_t st, const Smp &s)
{
	if (st & PERF_SAMPLE_TID) { add(b, s.pid); add(b, s.tid); }
	if (st & PERF_SAMPLE_TIME) add(b, s.time);
	if (st & PERF_SAMPLE_ID) add(b, s.id);
	if (st & PERF_SAMPLE_STREAM_ID) add(b, s.stream);
	if (st & PERF_SAMPLE_CPU) { add(b, s.cpu); add<uint32_t>(b, 0); }
	if (st & PERF_SAMPLE_IDENTIFIER) add(b, s.ident);
}
static size_t samples_size(uint64_t st) { size_t n = 0; for (uint64_t t : STYPES) if (st & t) n += 8; return n; }

// ------------------------------------------------------------ configuration
struct Conf {
	struct pev_config c; std::vector<uint8_t> mem; struct pev_sample_config *sc = nullptr;
	std::vector<std::pair<uint64_t, uint64_t>> ids; uint64_t def = 0;
	// the sample type that belongs to an identifier
	bool stype(const uint64_t *ident, uint64_t &st) const
	{
		st = def;
		if (ident) for (auto &p : ids) if (p.first == *ident) { st = p.second; return st & PERF_SAMPLE_IDENTIFIER; }
		return true;
	}
};
static uint64_t gen_stype(Rng &r) { uint64_t st = 0; for (uint64_t t : STYPES) if (r.chance(55)) st |= t; if (r.chance(10)) st |= PERF_SAMPLE_ADDR | PERF_SAMPLE_IP; return st; }
static void gen_conf(Rng &r, Conf &k)
{
	pev_config_init(&k.c); k.def = gen_stype(r); k.c.sample_type = k.def;
	k.c.time_shift = (uint16_t) r.below(32); k.c.time_mult = (uint32_t) (r.chance(90) ? r.range(1, 0xffffffff) >> r.below(20) : r.wide(32)); if (!k.c.time_mult && r.chance(95)) k.c.time_mult = 1;
	k.c.time_zero = r.chance(50) ? r.wide(40) : 0;
	if (r.chance(50)) {
		int n = (int) r.below(4); k.mem.resize(sizeof(struct pev_sample_config) + (size_t) n * sizeof(struct pev_sample_type) + 16);
		k.sc = (struct pev_sample_config *) k.mem.data(); memset(k.sc, 0, k.mem.size()); k.sc->nstypes = (uint8_t) n;
		for (int i = 0; i < n; ++i) {
			uint64_t id = r.chance(70) ? r.below(6) : r.wide(64), st = gen_stype(r); if (r.chance(90)) st |= PERF_SAMPLE_IDENTIFIER;
			k.sc->stypes[i].identifier = id; k.sc->stypes[i].sample_type = st;
			k.ids.push_back({ id, st });
		}
		k.c.sample_config = k.sc;
	}
}
static bool tsc_of(const struct pev_config &c, uint64_t time, uint64_t &tsc)
{
	if (!time) { tsc = 0; return true; }
	if (!c.time_mult) return false;
	u128 t = (uint64_t) (time - c.time_zero);
	tsc = (uint64_t) ((t << c.time_shift) / c.time_mult);	// exact
	return true;
}

struct Rec { const Fmt *f; uint16_t misc; Bytes payload; std::string str; Smp s; };
static void gen_rec(Rng &r, Rec &k, const Conf &c)
{
	k.f = &FMT[r.below(FMT.size())]; k.misc = (uint16_t) (r.chance(50) ? r.next() : r.below(8));
	k.payload.clear(); k.str.clear();
	for (int f : k.f->f) { if (f == F_U32) add(k.payload, (uint32_t) r.wide(32)); else if (f == F_U64) add(k.payload, r.wide(64)); }
	if (has_str(*k.f)) { size_t n = r.chance(80) ? r.below(30) : r.chance(90) ? r.below(300) : r.range(65300, 65600); while (k.str.size() < n) k.str += (char) r.range(1, 255); }
	k.s.pid = (uint32_t) r.wide(32); k.s.tid = (uint32_t) r.wide(32); k.s.cpu = (uint32_t) r.wide(32); k.s.id = r.wide(64); k.s.stream = r.wide(64);
	k.s.time = r.chance(10) ? 0 : c.c.time_zero + r.wide(52); if (k.s.time < c.c.time_zero && k.s.time) k.s.time = c.c.time_zero;
	k.s.ident = !c.ids.empty() && r.chance(80) ? c.ids[r.below(c.ids.size())].first : r.chance(50) ? r.below(8) : r.wide(64);
}
static Bytes encode(const Rec &k, uint64_t st)
{
	Bytes b; add(b, k.f->type); add(b, k.misc); add<uint16_t>(b, 0);
	b.insert(b.end(), k.payload.begin(), k.payload.end());
	if (has_str(*k.f)) { b.insert(b.end(), k.str.begin(), k.str.end()); b.push_back(0); while ((b.size() - 8 - fixed_size(*k.f)) & 7) b.push_back(0); }
	put_samples(b, st, k.s);
	uint16_t n = (uint16_t) b.size(); memcpy(&b[6], &n, 2);
	return b;
}
