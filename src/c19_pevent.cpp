// C19: perf records are parsed and produced exactly.
#include "perfenc.hpp"

// an exact-size heap copy: reads beyond it are detected
struct Exact { uint8_t *p; size_t n; Exact(const uint8_t *b, size_t k) : p((uint8_t *) malloc(k ? k : 1)), n(k) { if (k) memcpy(p, b, k); } ~Exact() { free(p); } uint8_t *end() { return p + n; } };

static std::string ctxs;
static void bad(const char *key, const std::string &m) { M.violation(key, m + " | " + ctxs); }
// The content of an accepted record against the bytes it was read from.
static bool check_read(const struct pev_event &e, const uint8_t *b, const Conf &c, size_t size)
{
	uint32_t type; uint16_t misc; memcpy(&type, b, 4); memcpy(&misc, b + 4, 2);
	if (e.type != type || e.misc != misc) { bad("read:header", strf("type %u misc %u", e.type, e.misc)); return false; }
	const Fmt *f = fmt_of(type);
	if (!f) {
		if (e.sample.pid || e.sample.tid || e.sample.time || e.sample.id || e.sample.stream_id || e.sample.cpu || e.sample.identifier) { bad("read:unknown-samples", "samples in an unknown record"); return false; }
		return true;
	}
	size_t pos = 8 + fixed_size(*f);
	if (has_str(*f)) {
		size_t z = pos; while (z < size && b[z]) ++z;
		if (z >= size) { bad("read:string", strf("unterminated %s string accepted", f->name)); return false; }
		pos += (z + 1 - pos + 7) & ~(size_t) 7;
	}
	uint64_t ident, st; bool hi = size >= 16; if (hi) memcpy(&ident, b + size - 8, 8);
	if (!c.stype(pos + 8 <= size ? &ident : nullptr, st)) { bad("read:stype", "record with an inconsistent sample type accepted"); return false; }
	if (pos + samples_size(st) != size) { bad("read:size", strf("%s of size %zu accepted, content needs %zu", f->name, size, pos + samples_size(st))); return false; }
	if (fixed_size(*f) && (const uint8_t *) e.record.mmap != b + 8) { bad("read:record", "record does not point to the payload"); return false; }
	const uint8_t *q = b + pos; bool ok = true;
	auto at = [&](const void *p, uint64_t t, size_t off) { if (st & t ? p != q + off : p != nullptr) ok = false; };
	at(e.sample.pid, PERF_SAMPLE_TID, 0); at(e.sample.tid, PERF_SAMPLE_TID, 4); if (st & PERF_SAMPLE_TID) q += 8;
	uint64_t time = 0; bool ht = st & PERF_SAMPLE_TIME; if (ht) memcpy(&time, q, 8);
	at(e.sample.time, PERF_SAMPLE_TIME, 0); if (ht) q += 8;
	at(e.sample.id, PERF_SAMPLE_ID, 0); if (st & PERF_SAMPLE_ID) q += 8;
	at(e.sample.stream_id, PERF_SAMPLE_STREAM_ID, 0); if (st & PERF_SAMPLE_STREAM_ID) q += 8;
	at(e.sample.cpu, PERF_SAMPLE_CPU, 0); if (st & PERF_SAMPLE_CPU) q += 8;
	at(e.sample.identifier, PERF_SAMPLE_IDENTIFIER, 0);
	if (!ok) { bad("read:samples", strf("samples of %s (type %llx) in the wrong place", f->name, (unsigned long long) st)); return false; }
	if (ht) {
		uint64_t tsc = 0; bool good = tsc_of(c.c, time, tsc);
		bool sane = !time || time >= c.c.time_zero;
		if (!good) { bad("read:tsc", "time accepted without multiplier"); return false; }
		if (sane && (u128) (time - c.c.time_zero) << c.c.time_shift >> 64 == 0 && e.sample.tsc != tsc) { bad("read:tsc", strf("tsc %llx instead of %llx", (unsigned long long) e.sample.tsc, (unsigned long long) tsc)); return false; }
		M.count("times");
	}
	return true;
}
static void roundtrip(Rng &r)
{
	Conf c; gen_conf(r, c);
	Bytes stream; struct Item { Rec k; uint64_t st; size_t off, size; }; std::vector<Item> items;
	int n = (int) r.range(1, 8);
	Bytes out(1 << 18, 0);
	for (int i = 0; i < n; ++i) {
		Rec k; gen_rec(r, k, c);
		uint64_t st; bool okst;
		// which samples does such a record have?  An identifier decides if there is one.
		st = c.def; okst = true; bool withid;
		uint64_t ist; bool iok = c.stype(&k.s.ident, ist);
		withid = (ist & PERF_SAMPLE_IDENTIFIER) && iok;
		if (withid) st = ist; else { if (c.def & PERF_SAMPLE_IDENTIFIER) { st = ist; okst = iok; } else st = c.def; }
		uint64_t give = st; if (r.chance(8)) give ^= STYPES[r.below(6)];
		struct pev_event e; pev_event_init(&e); e.type = k.f->type; e.misc = k.misc;
		Bytes pl = k.payload; if (has_str(*k.f)) { pl.insert(pl.end(), k.str.begin(), k.str.end()); pl.push_back(0); }
		Exact plx(pl.data(), pl.size()); e.record.mmap = (const struct pev_record_mmap *) plx.p;
		if (give & PERF_SAMPLE_TID) { e.sample.pid = &k.s.pid; e.sample.tid = &k.s.tid; }
		if (give & PERF_SAMPLE_TIME) e.sample.time = &k.s.time;
		if (give & PERF_SAMPLE_ID) e.sample.id = &k.s.id;
		if (give & PERF_SAMPLE_STREAM_ID) e.sample.stream_id = &k.s.stream;
		if (give & PERF_SAMPLE_CPU) e.sample.cpu = &k.s.cpu;
		if (give & PERF_SAMPLE_IDENTIFIER) e.sample.identifier = &k.s.ident;
		uint64_t cst; bool conf = c.stype(give & PERF_SAMPLE_IDENTIFIER ? &k.s.ident : nullptr, cst);
		const uint64_t known = PERF_SAMPLE_TID | PERF_SAMPLE_TIME | PERF_SAMPLE_ID | PERF_SAMPLE_STREAM_ID | PERF_SAMPLE_CPU | PERF_SAMPLE_IDENTIFIER;
		bool valid = conf && cst == (give & known);
		Rec kk = k; Bytes want = encode(kk, give & known);
		size_t full = 8 + fixed_size(*k.f) + (has_str(*k.f) ? (k.str.size() + 8) & ~(size_t) 7 : 0) + samples_size(give & known);
		bool fits = full <= 65535;
		size_t space = r.chance(75) ? full + r.below(20) : r.below(full + 1); if (!fits) space = full + 8;
		Exact o(out.data(), space); memset(o.p, 0xee, space);
		ctxs = strf("%s misc=%u samples=%llx str=%zu space=%zu/%zu", k.f->name, k.misc, (unsigned long long) give, k.str.size(), space, full);
		int rc = pev_write(&e, o.p, o.end(), &c.c);
		if (!fits || space < full || !valid) {
			if (rc >= 0) bad(!fits ? "write:too-big" : !valid ? "write:wrong-samples" : "write:no-space", strf("accepted: %d", rc));
			else if (fits && valid && rc != -pte_eos) bad("write:no-space-code", strf("%d instead of -pte_eos", rc));
			M.count(!fits ? "refused_big" : !valid ? "refused_samples" : "refused_space"); M.nontrivial(hashs(ctxs));
			continue;
		}
		if (rc != (int) full) { bad("write:result", strf("%d", rc)); continue; }
		if (give & PERF_SAMPLE_CPU) {	// the reserved half of the CPU sample
			size_t q = full - ((give & PERF_SAMPLE_IDENTIFIER) ? 8 : 0) - 4; uint32_t res; memcpy(&res, o.p + q, 4);
			if (res) bad("write:cpu-reserved", strf("reserved bytes %08x", res));
			memset(o.p + q, 0, 4);
		}
		if (memcmp(o.p, want.data(), full)) { size_t d = 0; while (o.p[d] == want[d]) ++d; bad("write:bytes", strf("byte %zu is %02x instead of %02x", d, o.p[d], want[d])); continue; }
		for (size_t d = full; d < space; ++d) if (o.p[d] != 0xee) { bad("write:beyond", strf("byte %zu written", d)); break; }
		M.count("written"); M.count(strf("type:%s", k.f->name));
		Item it; it.k = k; it.st = give & known; it.off = stream.size(); it.size = full; items.push_back(it);
		stream.insert(stream.end(), o.p, o.p + full);
		(void) okst;
	}
	// read the whole stream back
	Exact s(stream.data(), stream.size()); const uint8_t *p = s.p;
	for (auto &it : items) {
		ctxs = strf("%s misc=%u samples=%llx str=%zu size %zu", it.k.f->name, it.k.misc, (unsigned long long) it.st, it.k.str.size(), it.size);
		struct pev_event e; memset(&e, 0x5a, sizeof e);
		int rc = pev_read(&e, p, s.end(), &c.c);
		uint64_t st2, ident; memcpy(&ident, p + it.size - 8, 8);
		bool amb = !c.stype(samples_size(it.st) ? &ident : nullptr, st2) || st2 != it.st;	// the last eight bytes look like another identifier
		uint64_t dummy; bool tok = !(it.st & PERF_SAMPLE_TIME) || tsc_of(c.c, it.k.s.time, dummy);
		if (amb) { p += it.size; M.count("ambiguous"); continue; }
		if (!tok) { if (rc != -pte_bad_config) bad("read:no-mult", strf("%d", rc)); p += it.size; continue; }
		if (rc != (int) it.size) { bad("read:result", strf("%d", rc)); return; }
		if (!check_read(e, p, c, it.size)) return;
		M.count("read_back"); M.nontrivial(hash64(p, it.size));
		// any truncation of it
		size_t cut = r.below(it.size); { Exact t(p, cut); struct pev_event e2; int rc2 = pev_read(&e2, t.p, t.end(), &c.c); if (rc2 != -pte_eos) bad("read:truncated", strf("%zu of %zu bytes: %d", cut, it.size, rc2)); M.count("truncated"); }
		p += it.size;
	}
}
static void arbitrary(Rng &r)
{
	Conf c; gen_conf(r, c);
	for (int i = 0, n = (int) r.range(1, 10); i < n; ++i) {
		Bytes b;
		if (r.chance(60)) { Rec k; do gen_rec(r, k, c); while (k.str.size() > 1000); uint64_t st = c.def; uint64_t ist; if (r.chance(50) && c.stype(&k.s.ident, ist)) st = ist; b = encode(k, st);
			int m = (int) r.below(4); while (m--) switch (r.below(6)) {
			case 0: b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); break;
			case 1: b[r.below(b.size())] = (uint8_t) r.next(); break;
			case 2: { uint16_t z; memcpy(&z, &b[6], 2); z = (uint16_t) (z + r.range(0, 16) - 8); memcpy(&b[6], &z, 2); break; }
			case 3: { uint32_t z = (uint32_t) r.below(18); memcpy(&b[0], &z, 4); break; }
			case 4: { size_t g = r.below(20); while (g--) b.push_back((uint8_t) r.next()); uint16_t z = (uint16_t) b.size(); memcpy(&b[6], &z, 2); break; }
			case 5: if (b.size() > 8 && r.chance(50)) { b.resize(8 + r.below(b.size() - 8)); uint16_t z = (uint16_t) b.size(); memcpy(&b[6], &z, 2); } break;
			} }
		else { size_t g = r.below(120); while (g--) b.push_back((uint8_t) (r.chance(30) ? 0 : r.next())); if (b.size() >= 8) { uint32_t t = (uint32_t) r.below(18); memcpy(&b[0], &t, 4); uint16_t z = (uint16_t) (r.chance(70) ? b.size() : r.below(b.size() + 8)); memcpy(&b[6], &z, 2); } }
		Exact x(b.data(), b.size()); struct pev_event e; ctxs = hexs(b.data(), std::min<size_t>(b.size(), 200)); M.note = ctxs;
		int rc = pev_read(&e, x.p, x.end(), &c.c);
		uint16_t size = 0; uint32_t type = 0; if (b.size() >= 8) { memcpy(&size, &b[6], 2); memcpy(&type, &b[0], 4); }
		if (rc < 0) {
			if (rc < -(int) pte_bad_cpu) bad("read:code", strf("%d", rc));
			M.count(strf("rejected:%d", -rc)); M.nontrivial(hash64(b.data(), b.size()));
			// whatever is a well-formed record must be accepted
			const Fmt *f = fmt_of(type);
			if (b.size() >= 8 && size >= 8 && size <= b.size() && type && !f) bad("read:unknown-rejected", strf("%d", rc));
			if (f && size >= 8 && size <= b.size() && !has_str(*f)) {
				size_t pos = 8 + fixed_size(*f); uint64_t ident, st; if (size >= 16) memcpy(&ident, &b[size - 8u], 8);
				bool ok = c.stype(pos + 8 <= size ? &ident : nullptr, st);
				if (ok && pos + samples_size(st) == size && (c.c.time_mult || !(st & PERF_SAMPLE_TIME))) bad("read:rejected", strf("well-formed %s rejected: %d", f->name, rc));
			}
			continue;
		}
		M.count("accepted_arbitrary");
		if (b.size() < 8 || rc != size || (size_t) rc > b.size()) { bad("read:size", strf("result %d, declared size %u, buffer %zu", rc, size, b.size())); continue; }
		check_read(e, x.p, c, size); M.nontrivial(hash64(b.data(), b.size()));
	}
}
static void times(Rng &r)
{
	struct pev_config c; pev_config_init(&c); c.time_shift = (uint16_t) r.below(32); c.time_mult = (uint32_t) (r.range(1, 0xffffffffu) >> r.below(28)); if (!c.time_mult) c.time_mult = 1; c.time_zero = r.chance(70) ? r.wide(50) : 0;
	ctxs = strf("shift %u mult %u zero %llx", c.time_shift, c.time_mult, (unsigned long long) c.time_zero);
	for (int i = 0; i < 20; ++i) {
		uint64_t tsc = r.wide(50), time = 77;
		int rc = pev_time_from_tsc(&time, tsc, &c);
		u128 w = ((u128) tsc * c.time_mult >> c.time_shift) + c.time_zero;
		if (rc < 0) { bad("time:from", strf("%d", rc)); continue; }
		if (w >> 64) continue;
		if (time != (uint64_t) w) { bad("time:from", strf("tsc %llx -> %llx instead of %llx", (unsigned long long) tsc, (unsigned long long) time, (unsigned long long) (uint64_t) w)); continue; }
		uint64_t back = 77, exact; if (!time) continue;
		rc = pev_time_to_tsc(&back, time, &c); tsc_of(c, time, exact);
		if ((u128) (time - c.time_zero) << c.time_shift >> 64) continue;
		if (rc < 0 || back != exact) { bad("time:to", strf("time %llx -> %d %llx instead of %llx", (unsigned long long) time, rc, (unsigned long long) back, (unsigned long long) exact)); continue; }
		// within the resolution of the conversion
		uint64_t tol = ((1ull << c.time_shift) / c.time_mult) + 1, d = back > tsc ? back - tsc : tsc - back;
		if (back > tsc || d > tol) bad("time:inverse", strf("tsc %llx -> time %llx -> tsc %llx", (unsigned long long) tsc, (unsigned long long) time, (unsigned long long) back));
		uint64_t again = 0; pev_time_from_tsc(&again, back, &c); uint64_t tolt = ((uint64_t) c.time_mult >> c.time_shift) + 1;
		if (again > time || time - again > tolt) bad("time:inverse2", strf("time %llx -> tsc %llx -> time %llx", (unsigned long long) time, (unsigned long long) back, (unsigned long long) again));
		M.count("conversions"); M.nontrivial(tsc * 31 + c.time_mult * 7 + c.time_shift);
	}
	uint64_t x = 9;
	if (pev_time_to_tsc(&x, 0, &c) < 0 || x) bad("time:zero", "time zero is not the beginning of time");
	struct pev_config small = c; small.size = r.below(offsetof(struct pev_config, time_zero) + 8);
	if (pev_time_to_tsc(&x, 1 + r.next() % 1000, &small) != -pte_bad_config || pev_time_from_tsc(&x, 1, &small) != -pte_bad_config) bad("time:small-config", strf("config size %zu", small.size));
	c.time_mult = 0; if (pev_time_to_tsc(&x, 5, &c) != -pte_bad_config || pev_time_from_tsc(&x, 5, &c) != -pte_bad_config) bad("time:no-mult", "zero multiplier accepted");
}
void run_case(Rng &r)
{
	switch (r.below(3)) { case 0: roundtrip(r); break; case 1: arbitrary(r); break; case 2: times(r); break; }
	if (M.samples.size() < 4) M.sample(ctxs.substr(0, 200));
}
