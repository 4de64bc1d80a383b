// C21: structures of older and newer callers are honoured.
// A twin decoder is driven with the same calls, but each structure it fills has its own
// stated size, lying in a heap block of exactly that size; what it got must be the prefix of
// what the full-size caller got, the rest of a bigger structure zero.
#include "hostile.hpp"

struct Sized {		// a caller structure of a given size
	uint8_t *p; size_t n; uint8_t pat;
	Sized(size_t size, uint8_t pattern) : p((uint8_t *) malloc(size ? size : 1)), n(size), pat(pattern) { memset(p, pat, n); }
	~Sized() { free(p); }
	bool untouched() const { for (size_t i = 0; i < n; ++i) if (p[i] != pat) return false; return true; }
	template <class T> T *as() { return (T *) p; }
};
static size_t pick_size(Rng &r, size_t full, size_t low)
{
	switch (r.below(6)) {
	case 0: return full;
	case 1: return full + r.range(1, 8);
	case 2: return full + r.range(1, 100);
	case 3: return low + r.below(full - low + 1);
	case 4: return full - r.below(std::min<size_t>(full - low, 17) + 1);
	default: return low + r.below(25);
	}
}
static std::string ctx;
static void check(const char *fn, int rc, const void *full, size_t fullsize, const Sized &s, int rcs, const void *full2 = nullptr)
{
	std::string w = strf("%s with size %zu of %zu", fn, s.n, fullsize);
	if (rc != rcs) { M.violation(strf("%s:result", fn), w + strf(" returned %d instead of %d ", rcs, rc) + ctx); return; }
	if (rc < 0 && s.untouched()) return;
	size_t k = std::min(s.n, fullsize);
	for (size_t i = 0; i < k; ++i) if (s.p[i] != ((const uint8_t *) full)[i]) {
		if (full2 && ((const uint8_t *) full2)[i] != ((const uint8_t *) full)[i]) continue;	// not part of this packet
		 M.violation(strf("%s:prefix", fn), w + strf(": byte %zu is %02x instead of %02x (result %d) ", i, s.p[i], ((const uint8_t *) full)[i], rc) + ctx); return; }
	bool any = s.n > k && s.p[k] == s.pat && (!strcmp(fn, "qry_event") || !strcmp(fn, "insn_event") || !strcmp(fn, "blk_event"));	// zeroed or left alone
	for (size_t i = k; i < s.n; ++i) if (s.p[i] != (any ? s.pat : 0)) { M.violation(strf("%s:rest", fn), w + strf(": unknown byte %zu is %02x (result %d) ", i, s.p[i], rc) + ctx); return; }
	M.count(s.n < fullsize ? strf("smaller:%s", fn) : s.n > fullsize ? strf("larger:%s", fn) : strf("same:%s", fn));
	M.nontrivial(hashs(fn) * 31 + s.n * 1000 + (rc < 0 ? (uint64_t) -rc : 100 + ((uint64_t) rc & 15)) + (rc >= 0 ? hash64(full, std::min<size_t>(8, fullsize)) * 7 : 0));
}
// The user's configuration as seen by a caller that knows only @size bytes (or more than we do).
static struct pt_config *user_config(Rng &r, struct pt_config &full, size_t size, uint8_t *&mem)
{
	mem = (uint8_t *) malloc(size);
	for (size_t i = 0; i < size; ++i) mem[i] = (uint8_t) (r.next() | 1);
	memcpy(mem, &full, std::min(size, sizeof full));
	((struct pt_config *) mem)->size = size;
	if (size < sizeof full) memset((uint8_t *) &full + size, 0, sizeof full - size);
	return (struct pt_config *) mem;
}
static bool same_config(const struct pt_config *a, const struct pt_config *b)
{
	return a && b && !memcmp((const uint8_t *) a + sizeof a->size, (const uint8_t *) b + sizeof b->size, sizeof *a - sizeof a->size);
}
static void bad_configs(Rng &r, const struct pt_config &good)
{
	struct pt_config c = good; size_t size = sizeof c; const char *what;
	switch (r.below(6)) {
	case 0: size = 8 + r.below(offsetof(struct pt_config, decode) - 8); what = "tiny"; break;
	case 1: c.begin = nullptr; what = "no begin"; break;
	case 2: c.end = nullptr; what = "no end"; break;
	case 3: c.end = c.begin; c.begin = c.begin + 1; what = "inverted"; break;
	case 4: size = 0; what = "zero size"; break;
	default: size = offsetof(struct pt_config, decode) - 1; what = "too small by one"; break;
	}
	uint8_t *mem = (uint8_t *) malloc(std::max<size_t>(size, 8)); c.size = size; memcpy(mem, &c, std::max<size_t>(size, 8));
	const struct pt_config *u = (struct pt_config *) mem;
	const char *who = nullptr;
	if (auto *d = pt_pkt_alloc_decoder(u)) { who = "packet decoder"; pt_pkt_free_decoder(d); }
	if (auto *d = pt_evt_alloc_decoder(u)) { who = "event decoder"; pt_evt_free_decoder(d); }
	if (auto *d = pt_qry_alloc_decoder(u)) { who = "query decoder"; pt_qry_free_decoder(d); }
	if (auto *d = pt_insn_alloc_decoder(u)) { who = "instruction decoder"; pt_insn_free_decoder(d); }
	if (auto *d = pt_blk_alloc_decoder(u)) { who = "block decoder"; pt_blk_free_decoder(d); }
	if (auto *d = pt_alloc_encoder(u)) { who = "encoder"; pt_free_encoder(d); }
	if (who) M.violation("config:accepted", strf("%s accepted a configuration that is %s", who, what));
	M.count("configs_refused"); free(mem);
}
static void image_asids(Rng &r)
{
	// sections tagged with short and long address space identifiers, told apart by removal
	std::string fn = M.scratch + "/asid"; FILE *f = fopen(fn.c_str(), "w"); for (int i = 0; i < 64; ++i) fputc(0x90, f); fclose(f);
	struct pt_image *im = pt_image_alloc(nullptr);
	struct A { uint64_t cr3, vmcs; }; std::vector<A> model; uint64_t base = 0x1000;
	uint64_t vals[3] = { 0x1000, 0x2000, r.wide(64) };
	auto match = [](uint64_t a, uint64_t b) { return a == b || a == pt_asid_no_cr3 || b == pt_asid_no_cr3; };
	for (int i = 0, n = (int) r.range(1, 6); i < n; ++i) {
		struct pt_asid a; pt_asid_init(&a); a.cr3 = vals[r.below(3)]; a.vmcs = vals[r.below(3)];
		size_t size = r.chance(50) ? 8 * r.range(0, 3) : sizeof a + r.below(40);
		A m; m.cr3 = size >= 16 ? a.cr3 : pt_asid_no_cr3; m.vmcs = size >= 24 ? a.vmcs : pt_asid_no_vmcs;
		a.size = size; uint8_t *mem = (uint8_t *) malloc(std::max<size_t>(size, 8)); memset(mem, 0xee, std::max<size_t>(size, 8)); memcpy(mem, &a, std::max<size_t>(8, std::min(size, sizeof a)));
		bool add = model.empty() || r.chance(60);
		if (add) {
			int rc = pt_image_add_file(im, fn.c_str(), 0, 16, (struct pt_asid *) mem, base); base += 0x100;
			if (rc < 0) M.violation("asid:add", strf("asid of size %zu: %d", size, rc)); else model.push_back(m);
		} else {
			int want = 0; std::vector<A> keep;
			for (auto &x : model) if (match(x.cr3, m.cr3) && match(x.vmcs, m.vmcs)) ++want; else keep.push_back(x);
			int rc = pt_image_remove_by_asid(im, (struct pt_asid *) mem);
			if (rc != want) M.violation("asid:remove", strf("asid of size %zu removed %d sections instead of %d", size, rc, want));
			model = keep; M.count("asid_removals");
		}
		free(mem);
	}
	pt_image_free(im); unlink(fn.c_str());
}

void run_case(Rng &r)
{
	int kind = (int) r.below(5); ctx.clear();
	HImage h, h2; Bytes t; std::string desc;
	if (r.chance(40)) { h.gen(r); t = soup(r, h.ips, (int) r.range(10, 80), nullptr, true); desc = "soup "; }
	else if (r.chance(60)) { ProgSim p(r); p.simple = r.chance(20); p.generate(); t = p.out; if (t.size() > 3000) t.resize(3000); h.from(r, p, 0); desc = "program "; }
	else { EvGen g(r, r.chance(50)); g.cyc = r.chance(50); g.generate((int) r.range(5, 60)); t = g.out; h.gen(r); desc = "scenario "; }
	if (r.chance(25)) { mutate(r, t, (unsigned) r.range(1, 4)); desc += "mutated "; }
	GuardBuf buf(t.data(), t.size(), r.chance(50));
	struct pt_config c; hostile_config(r, c, buf.begin, buf.end(), kind);
	if (r.chance(20)) bad_configs(r, c);
	if (r.chance(10)) image_asids(r);
	h.drop(); uint64_t iseed = r.next(); h.build(iseed); h.cb_hostile = false;
	h2.reg = h.reg; h2.cbseed = h.cbseed; h2.file = h.file + "2"; h2.build(iseed); h2.cb_hostile = false;
	// the configurations
	size_t cs = r.chance(40) ? sizeof c : pick_size(r, sizeof c, offsetof(struct pt_config, decode));
	size_t cbend = offsetof(struct pt_config, decode) + sizeof c.decode;
	if (cs < cbend && cs > offsetof(struct pt_config, decode)) memset(&c.decode, 0, sizeof c.decode);
	uint8_t *mem; struct pt_config *u = user_config(r, c, cs, mem);
	M.note = strf("%s %s config size %zu\n", deckind[kind], desc.c_str(), cs) + cfg_str(c) + h.desc + hexs(t.data(), t.size()) + "\n";
	M.count(cs < sizeof c ? "configs_smaller" : cs > sizeof c ? "configs_larger" : "configs_same");
	{
		Dec a2(0, c, nullptr);	// tells the bytes of a packet that mean something
		Dec a(kind, c, h.image), b(kind, *u, h2.image);
		if (!a.ok() || !b.ok()) { M.violation("config:refused", strf("configuration of size %zu refused", a.ok() ? cs : sizeof c)); free(mem); return; }
		auto gc = [&](Dec &d) { return kind == 0 ? pt_pkt_get_config(d.p) : kind == 1 ? pt_evt_get_config(d.e) : kind == 2 ? pt_qry_get_config(d.q) : kind == 3 ? pt_insn_get_config(d.i) : pt_blk_get_config(d.b); };
		const struct pt_config *g = gc(b), *ga = gc(a);
		if (!same_config(ga, g) || g->begin != c.begin || g->end != c.end || (kind == 0 && !same_config(&c, g))) M.violation("config:content", strf("a configuration of size %zu is not used as given", cs));
		a.strict = b.strict = false;
		memset(mem, 0xdd, cs); free(mem);	// the decoder has its own copy
		uint64_t insns = 0; int syncs = 0; int x = a.sync(0, 0), y = b.sync(0, 0); if (a2.ok()) a2.sync(0, 0);
		if (x != y) M.violation("sync", strf("%d instead of %d", y, x));
		uint8_t pat = (uint8_t) (r.next() | 1);
		for (size_t step = 0; step < 400 && insns < 20000 && x == y; ++step) {
			if (x < 0 || ((x & pts_eos) && kind >= 2 && !(x & pts_event_pending))) {
				if (++syncs > 6) break;
				x = a.sync(0, 0); y = b.sync(0, 0); if (a2.ok()) a2.sync(0, 0);
				if (x != y) M.violation("sync", strf("%d instead of %d", y, x));
				if (x < 0) break;
				continue;
			}
			pat = (uint8_t) (pat * 5 + 2) | 1;
			const size_t evl = offsetof(struct pt_event, variant);
			switch (kind) {
			case 0: { struct pt_packet k; struct pt_packet k2; memset(&k, pat ^ 0xff, sizeof k); memset(&k2, pat ^ 0x55, sizeof k2); Sized s(pick_size(r, sizeof k, 0), pat); x = pt_pkt_next(a.p, &k, sizeof k); pt_pkt_next(a2.p, &k2, sizeof k2); y = pt_pkt_next(b.p, s.as<struct pt_packet>(), s.n); check("pkt_next", x, &k, sizeof k, s, y, &k2); break; }
			case 1: { struct pt_event k; memset(&k, pat ^ 0xff, sizeof k); Sized s(pick_size(r, sizeof k, 0), pat); x = pt_evt_next(a.e, &k, sizeof k); y = pt_evt_next(b.e, s.as<struct pt_event>(), s.n); check("evt_next", x, &k, sizeof k, s, y); break; }
			case 2: {
				if (a.status >= 0 && (a.status & pts_event_pending)) {
					struct pt_event k; memset(&k, pat ^ 0xff, sizeof k);
					if (r.chance(20)) { Sized s(r.below(evl), pat); y = pt_qry_event(b.q, s.as<struct pt_event>(), s.n); if (y != -pte_invalid || !s.untouched()) M.violation("qry_event:tiny", strf("size %zu: %d", s.n, y)); M.count("refused_sizes"); }
					Sized s(pick_size(r, sizeof k, evl), pat);
					x = pt_qry_event(a.q, &k, sizeof k); y = pt_qry_event(b.q, s.as<struct pt_event>(), s.n); check("qry_event", x, &k, sizeof k, s, y);
				} else {
					int t1 = 5, t2 = 5; uint64_t i1 = 5, i2 = 5;
					x = pt_qry_cond_branch(a.q, &t1); y = pt_qry_cond_branch(b.q, &t2);
					if (x == y && x == -pte_bad_query) { x = pt_qry_indirect_branch(a.q, &i1); y = pt_qry_indirect_branch(b.q, &i2); }
					if (x != y || t1 != t2 || i1 != i2) M.violation("qry:diverged", "branch queries differ after event queries of different sizes");
				}
				a.status = x; break; }
			case 3: {
				if (a.status >= 0 && (a.status & pts_event_pending)) {
					struct pt_event k; memset(&k, pat ^ 0xff, sizeof k); Sized s(pick_size(r, sizeof k, evl), pat);
					x = pt_insn_event(a.i, &k, sizeof k); y = pt_insn_event(b.i, s.as<struct pt_event>(), s.n); check("insn_event", x, &k, sizeof k, s, y);
				} else {
					struct pt_insn k; memset(&k, pat ^ 0xff, sizeof k); Sized s(pick_size(r, sizeof k, 0), pat); insns++;
					x = pt_insn_next(a.i, &k, sizeof k); y = pt_insn_next(b.i, s.as<struct pt_insn>(), s.n);
					if (x >= 0 || x != y || s.n >= sizeof k) check("insn_next", x, &k, sizeof k, s, y);
				}
				a.status = x; break; }
			default: {
				if (a.status >= 0 && (a.status & pts_event_pending)) {
					struct pt_event k; memset(&k, pat ^ 0xff, sizeof k); Sized s(pick_size(r, sizeof k, evl), pat);
					x = pt_blk_event(a.b, &k, sizeof k); y = pt_blk_event(b.b, s.as<struct pt_event>(), s.n); check("blk_event", x, &k, sizeof k, s, y);
					if (x >= 0 && k.type == ptev_tick) M.count("ticks");
				} else {
					struct pt_block k; memset(&k, pat ^ 0xff, sizeof k); Sized s(pick_size(r, sizeof k, 0), pat);
					x = pt_blk_next(a.b, &k, sizeof k); y = pt_blk_next(b.b, s.as<struct pt_block>(), s.n); check("blk_next", x, &k, sizeof k, s, y); insns += k.ninsn;
				}
				a.status = x; break; }
			}
			if (kind >= 3 && r.chance(20)) {
				struct pt_asid k; memset(&k, pat ^ 0xff, sizeof k); size_t n = r.below(sizeof k + 40); Sized s(n, pat);
				int p = kind == 3 ? pt_insn_asid(a.i, &k, sizeof k) : pt_blk_asid(a.b, &k, sizeof k), q = kind == 3 ? pt_insn_asid(b.i, s.as<struct pt_asid>(), n) : pt_blk_asid(b.b, s.as<struct pt_asid>(), n);
				size_t m = std::min(n, sizeof k);
				if (n < 8) { if (q != -pte_invalid || !s.untouched()) M.violation("asid:tiny", strf("size %zu: %d", n, q)); }
				else if (p != 0 || q != 0) M.violation("asid:result", strf("%d/%d", p, q));
				else if (k.size != sizeof k || s.as<struct pt_asid>()->size != m) M.violation("asid:size", strf("asid of size %zu reports %zu", n, s.as<struct pt_asid>()->size));
				else if (memcmp(s.p + 8, (uint8_t *) &k + 8, m - 8)) M.violation("asid:prefix", strf("asid of size %zu", n));
				M.count("asids");
			}
		}
	}
	if (M.samples.size() < 3) M.sample(M.note.substr(0, 300));
}
