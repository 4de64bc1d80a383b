// C06: synchronization visits exactly the PSB packets, in order, both ways.
#include "ptmodel.hpp"
#include <algorithm>

// The PSB packets of a buffer.  PSB is a fixed pattern; several of them directly abutting form one run
// of the alternating pattern, of which only the last 16 bytes count.
static std::vector<uint64_t> psbs(const Bytes &b)
{
	std::vector<uint64_t> v;
	for (size_t i = 0; i + 1 < b.size();) {
		if (b[i] != 0x02 || b[i + 1] != 0x82) { ++i; continue; }
		size_t j = i;
		while (j + 1 < b.size() && b[j] == 0x02 && b[j + 1] == 0x82) j += 2;
		if (j - i >= 16) v.push_back(j - 16);
		i = j;
	}
	return v;
}
static bool psb_at(const Bytes &b, uint64_t o)
{
	if (o + 16 > b.size()) return false;
	for (int i = 0; i < 16; ++i) if (b[o + (size_t) i] != (i & 1 ? 0x82 : 0x02)) return false;
	return true;
}
static std::string list(const std::vector<uint64_t> &v) { std::string s; for (auto x : v) s += strf("%llu ", (unsigned long long) x); return s; }

static Bytes junk(Rng &r)
{
	Bytes b;
	int n = (int) r.range(0, 12);
	for (int i = 0; i < n; ++i) {
		switch (r.below(9)) {
		case 0: case 1: { size_t k = r.below(40); while (k--) b.push_back((uint8_t) r.next()); break; }
		case 2: case 3: mencode(MP(K_PSB), b); if (r.chance(40)) mencode(MP(K_PSBEND), b); break;
		case 4: { size_t k = r.range(1, 20); while (k--) put(b, 0x8202, 2); break; }			// partial or over-long pattern
		case 5: { size_t k = r.range(1, 24); uint8_t x = r.chance(50) ? 0x02 : 0x82; while (k--) { b.push_back(x); x ^= 0x80; } break; }
		case 6: { mencode(MP(K_PSB), b); size_t p = b.size() - 16 + r.below(16); b[p] ^= (uint8_t) (1 << r.below(8)); break; }
		case 7: { size_t k = r.below(6); while (k--) b.push_back(0); break; }
		case 8: mencode(gen_packet(r), b); break;
		}
	}
	if (r.chance(30) && b.size()) b.resize(r.range(1, b.size()));
	if (b.empty()) b.push_back(0);
	return b;
}

static void pkt_case(Rng &r)
{
	Bytes b = junk(r);
	auto P = psbs(b);
	M.note = hexs(b.data(), b.size()) + " psb at: " + list(P) + "\n";
	GuardBuf buf(b.data(), b.size(), r.chance(30));
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c);
	int64_t pos = -1, sync = -1;
	uint64_t size = b.size();
	int nops = (int) r.range(4, 40);
	int bias = (int) r.below(3);
	for (int i = 0; i < nops; ++i) {
		unsigned op = (unsigned) r.below(10);
		if (bias == 0 && op < 7) op = 0; else if (bias == 1 && op < 7) op = 4;
		uint64_t so = 7777, go = 7777; int e; std::string what;
		if (op < 4) {
			what = "forward"; e = pt_pkt_sync_forward(d);
			std::vector<uint64_t> ok; bool eos_ok = true;
			uint64_t from = pos < 0 ? 0 : (uint64_t) pos;
			for (auto p : P) {
				if (pos >= 0 && pos == sync) {
					// beyond the current point
					if ((int64_t) p > pos && !(p < from + 16 && !psb_at(b, from) )) { ok.push_back(p); eos_ok = false; break; }
					// positioned on something else that overlaps a PSB: may be found or passed
					if ((int64_t) p > pos) ok.push_back(p);
				} else if (p >= from) { ok.push_back(p); eos_ok = false; break; }
				else if (p + 16 > from) ok.push_back(p);	// partially consumed
			}
			if (e < 0) {
				if (!eos_ok) M.violation("forward:missed", strf("%s from %lld (sync %lld) -> %d, PSB at %s", what.c_str(), (long long) pos, (long long) sync, e, list(P).c_str()));
				else if (e != -pte_eos) M.violation("forward:error", strf("from %lld (sync %lld): %d", (long long) pos, (long long) sync, e));
				M.count("forward_eos");
			} else {
				pt_pkt_get_sync_offset(d, &so);
				if (std::find(ok.begin(), ok.end(), so) == ok.end())
					{ M.violation("forward:wrong", strf("from %lld (sync %lld) -> sync %llu, PSB at %s", (long long) pos, (long long) sync, (unsigned long long) so, list(P).c_str())); break; }
				pos = sync = (int64_t) so; M.count("forward_ok");
				M.nontrivial(hash64(b.data(), b.size(), so * 2 + 1));
			}
		} else if (op < 8) {
			what = "backward"; e = pt_pkt_sync_backward(d);
			int64_t from = pos < 0 ? (int64_t) size : pos;
			int64_t best = -1; std::vector<uint64_t> ok;
			for (auto p : P) { if ((int64_t) p + 16 <= from) best = (int64_t) p; else if ((int64_t) p < from) ok.push_back(p); }
			// from a sync point, everything before it is complete
			if (e < 0) {
				if (best >= 0) M.violation("backward:missed", strf("from %lld -> %d, PSB at %s", (long long) from, e, list(P).c_str()));
				else if (e != -pte_eos) M.violation("backward:error", strf("from %lld: %d", (long long) from, e));
				M.count("backward_eos");
			} else {
				pt_pkt_get_sync_offset(d, &so);
				if ((int64_t) so != best && std::find(ok.begin(), ok.end(), so) == ok.end())
					{ M.violation("backward:wrong", strf("from %lld -> sync %llu, PSB at %s", (long long) from, (unsigned long long) so, list(P).c_str())); break; }
				pos = sync = (int64_t) so; M.count("backward_ok");
				M.nontrivial(hash64(b.data(), b.size(), so * 2));
			}
		} else if (op == 8) {
			uint64_t o = r.chance(80) ? r.below(size + 1) : r.chance(50) ? size + 1 + r.below(40) : r.wide(64);
			e = pt_pkt_sync_set(d, o);
			what = strf("set(%llu)", (unsigned long long) o);
			if (o > size) { if (e != -pte_eos) M.violation("set:range", what + strf(" of %llu -> %d", (unsigned long long) size, e)); }
			else if (e) { M.violation("set:refused", what + strf(" -> %d", e)); }
			else pos = sync = (int64_t) o;
			if (e >= 0 && o > size) break;
		} else {
			struct pt_packet q; e = pt_pkt_next(d, &q, sizeof q); what = "next";
			if (e > 0) pos += e;
			else if (e < 0 && pos < 0 && e != -pte_nosync) M.violation("next:unsynced", strf("%d", e));
		}
		int e1 = pt_pkt_get_offset(d, &go), e2 = pt_pkt_get_sync_offset(d, &so);
		M.note += what + strf("=%d->%llu/%llu ", e, (unsigned long long) go, (unsigned long long) so);
		if (pos < 0) {
			if (e1 != -pte_nosync || e2 != -pte_nosync) M.violation("offset:unsynced", what + strf(": %d %d", e1, e2));
		} else {
			if (e1 || (int64_t) go != pos) { M.violation("offset", what + strf(": %d %llu want %lld", e1, (unsigned long long) go, (long long) pos)); break; }
			if (e2 || (int64_t) so != sync) { M.violation("sync_offset", what + strf(": %d %llu want %lld", e2, (unsigned long long) so, (long long) sync)); break; }
		}
	}
	pt_pkt_free_decoder(d);
	if (M.cur % 1999 == 0) M.sample(M.note.substr(0, 300));
}

// A uniform view of the event, query, instruction and block decoders.
struct AnyDec {
	int kind; void *d;
	AnyDec(int k, const struct pt_config *c) : kind(k)
	{
		d = k == 0 ? (void *) pt_evt_alloc_decoder(c) : k == 1 ? (void *) pt_qry_alloc_decoder(c) : k == 2 ? (void *) pt_insn_alloc_decoder(c) : (void *) pt_blk_alloc_decoder(c);
	}
	~AnyDec()
	{
		if (kind == 0) pt_evt_free_decoder((pt_event_decoder *) d); else if (kind == 1) pt_qry_free_decoder((pt_query_decoder *) d);
		else if (kind == 2) pt_insn_free_decoder((pt_insn_decoder *) d); else pt_blk_free_decoder((pt_block_decoder *) d);
	}
	int fwd() { uint64_t ip; return kind == 0 ? pt_evt_sync_forward((pt_event_decoder *) d) : kind == 1 ? pt_qry_sync_forward((pt_query_decoder *) d, &ip) : kind == 2 ? pt_insn_sync_forward((pt_insn_decoder *) d) : pt_blk_sync_forward((pt_block_decoder *) d); }
	int bwd() { uint64_t ip; return kind == 0 ? pt_evt_sync_backward((pt_event_decoder *) d) : kind == 1 ? pt_qry_sync_backward((pt_query_decoder *) d, &ip) : kind == 2 ? pt_insn_sync_backward((pt_insn_decoder *) d) : pt_blk_sync_backward((pt_block_decoder *) d); }
	int set(uint64_t o) { uint64_t ip; return kind == 0 ? pt_evt_sync_set((pt_event_decoder *) d, o) : kind == 1 ? pt_qry_sync_set((pt_query_decoder *) d, &ip, o) : kind == 2 ? pt_insn_sync_set((pt_insn_decoder *) d, o) : pt_blk_sync_set((pt_block_decoder *) d, o); }
	int off(uint64_t *o) { return kind == 0 ? pt_evt_get_offset((pt_event_decoder *) d, o) : kind == 1 ? pt_qry_get_offset((pt_query_decoder *) d, o) : kind == 2 ? pt_insn_get_offset((pt_insn_decoder *) d, o) : pt_blk_get_offset((pt_block_decoder *) d, o); }
	int soff(uint64_t *o) { return kind == 0 ? pt_evt_get_sync_offset((pt_event_decoder *) d, o) : kind == 1 ? pt_qry_get_sync_offset((pt_query_decoder *) d, o) : kind == 2 ? pt_insn_get_sync_offset((pt_insn_decoder *) d, o) : pt_blk_get_sync_offset((pt_block_decoder *) d, o); }
	int step()
	{
		struct pt_event ev; uint64_t ip; struct pt_insn in; struct pt_block bl;
		if (kind == 0) return pt_evt_next((pt_event_decoder *) d, &ev, sizeof ev);
		if (kind == 1) { int s = pt_qry_event((pt_query_decoder *) d, &ev, sizeof ev); if (s < 0) { int t; s = pt_qry_cond_branch((pt_query_decoder *) d, &t); } if (s < 0) s = pt_qry_indirect_branch((pt_query_decoder *) d, &ip); return s; }
		if (kind == 2) { int s = pt_insn_event((pt_insn_decoder *) d, &ev, sizeof ev); if (s < 0) s = pt_insn_next((pt_insn_decoder *) d, &in, sizeof in); return s; }
		int s = pt_blk_event((pt_block_decoder *) d, &ev, sizeof ev); if (s < 0) s = pt_blk_next((pt_block_decoder *) d, &bl, sizeof bl); return s;
	}
};
static const char *const dname[] = { "evt", "qry", "insn", "blk" };

static void flow_case(Rng &r)
{
	Bytes b;
	int nseg = (int) r.range(1, 7);
	if (r.chance(50)) { size_t k = r.below(30); while (k--) b.push_back((uint8_t) (r.chance(50) ? 0 : 0x04)); }
	bool on = r.chance(60);
	uint64_t tsc = r.wide(40);
	for (int i = 0; i < nseg; ++i) {
		mencode(MP(K_PSB), b);
		if (r.chance(30)) mencode(MP(K_PAD), b);
		if (r.chance(50)) mencode(MP(K_TSC, tsc += r.below(1000)), b);
		if (r.chance(30)) mencode(MP(K_CBR, r.range(1, 60)), b);
		if (on) mencode(MP(K_FUP, 3, 0x1000 + r.below(64)), b);
		if (on && r.chance(60)) mencode(MP(K_EXEC, 1, 0, 1), b);
		if (r.chance(30)) mencode(MP(K_PIP, 0x1000), b);
		mencode(MP(K_PSBEND), b);
		int k = (int) r.below(6);
		while (k--) {
			switch (r.below(7)) {
			case 0: if (on) mencode(gen_packet(r, K_TNT8), b); break;
			case 1: if (on) mencode(MP(K_TIP, 3, 0x1000 + r.below(64)), b); break;
			case 2: mencode(MP(K_TSC, tsc += r.below(1000)), b); break;
			case 3: { int z = (int) r.below(20); while (z--) mencode(MP(K_PAD), b); break; }
			case 4: mencode(MP(K_CBR, 3), b); break;
			case 5: if (on) { mencode(MP(K_PGD, r.chance(50) ? 0 : 3, 0x1000), b); on = false; } else { mencode(MP(K_EXEC, 1, 0, 1), b); mencode(MP(K_PGE, 3, 0x1000), b); on = true; } break;
			case 6: mencode(MP(K_MNT, r.next()), b); break;
			}
		}
	}
	auto P = psbs(b);
	int kind = (int) r.below(4);
	M.note = strf("%s trace %s psb at %s\n", dname[kind], hexs(b.data(), b.size()).c_str(), list(P).c_str());
	GuardBuf buf(b.data(), b.size(), r.chance(30));
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	AnyDec d(kind, &c);
	uint64_t go = 0, so = 0;
	auto where = [&](const char *op, int e) { return strf("%s %s -> %d", dname[kind], op, e); };
	std::string K = dname[kind];
	if (d.off(&go) != -pte_nosync || d.soff(&so) != -pte_nosync) M.violation(K + ":offset:unsynced", "fresh decoder reports offsets");
	int idx = -1;		// index of the current sync point; -1: none
	bool fresh = true, stepped = false, was_bwd = false;
	int nops = (int) r.range(3, 30), bias = (int) r.below(3);
	for (int i = 0; i < nops; ++i) {
		unsigned op = (unsigned) r.below(10);
		if (bias == 0 && op < 6) op = 0; else if (bias == 1 && op < 6) op = 4;
		int e; int want;
		if (op < 3 && !stepped) {
			e = d.fwd(); want = fresh ? 0 : idx + 1;
			M.note += strf("fwd=%d ", e);
			if (want >= (int) P.size()) {
				if (e != -pte_eos) { M.violation(K + ":forward:no-eos", where("forward", e)); break; }
				if (!d.off(&go) && go > b.size()) M.violation(K + ":offset:after-eos", strf("%llx", (unsigned long long) go));
				M.count("flow_forward_eos"); break;	// position unspecified
			}
			if (e < 0) { M.violation(K + ":forward:error", where("forward", e) + strf(" want psb %llu", (unsigned long long) P[want])); break; }
			idx = want; fresh = was_bwd = false; M.count("flow_forward_ok");
		} else if (op < 6 && !stepped) {
			e = d.bwd(); want = fresh ? (int) P.size() - 1 : idx - 1;
			M.note += strf("bwd=%d ", e);
			d.soff(&so);
			bool same = e >= 0 && !was_bwd && idx >= 0 && so == P[(size_t) idx];
			was_bwd = true;
			if (want < 0 && !same) {
				if (e != -pte_eos) { M.violation(K + ":backward:no-eos", where("backward", e)); break; }
				if (!d.off(&go) && go > b.size()) M.violation(K + ":offset:after-eos", strf("%llx", (unsigned long long) go));
				M.count("flow_backward_eos"); break;
			}
			// the position is after the header by now; the segment's own PSB may be found again
			if (e < 0) { M.violation(K + ":backward:error", where("backward", e) + strf(" want psb %llu", (unsigned long long) P[want])); break; }
			if (same) { want = idx; M.count("flow_backward_same"); }
			idx = want; fresh = false; M.count("flow_backward_ok");
		} else if (op < 8) {
			bool good = r.chance(60);
			uint64_t o = good ? P[r.below(P.size())] : r.chance(70) ? r.below(b.size() + 1) : r.wide(64);
			e = d.set(o); M.note += strf("set(%llx)=%d ", (unsigned long long) o, e);
			auto it = std::find(P.begin(), P.end(), o);
			if (it == P.end()) {
				if (!d.off(&go) && go > b.size()) M.violation(K + ":offset:after-refusal", strf("%llx", (unsigned long long) go));
				if (e >= 0) { M.violation(K + ":set:accepted", where("set", e) + strf(" offset %llx", (unsigned long long) o)); break; }
				M.count("flow_set_refused");
				// the decoder is unsynchronized or where it was: either way a fresh set works
				idx = -1; stepped = true; fresh = false;
				continue;
			}
			if (e < 0) { M.violation(K + ":set:refused", where("set", e) + strf(" offset %llx", (unsigned long long) o)); break; }
			idx = (int) (it - P.begin()); fresh = false; stepped = was_bwd = false; M.count("flow_set_ok");
		} else {
			if (idx < 0) continue;
			int k = (int) r.range(1, 10); while (k-- && d.step() >= 0) {}
			stepped = true;
			uint64_t s2 = 0, g2 = 0;
			if (d.soff(&s2) || std::find(P.begin(), P.end(), s2) == P.end() || s2 < P[(size_t) idx]) { M.violation(K + ":sync_offset:after-decode", strf("%llu", (unsigned long long) s2)); break; }
			if (d.off(&g2) || g2 > b.size()) { M.violation(K + ":offset:after-decode", strf("%llu of %zu", (unsigned long long) g2, b.size())); break; }
			continue;
		}
		if (idx >= 0 && !stepped) {
			int e1 = d.soff(&so), e2 = d.off(&go);
			if (e1 || so != P[(size_t) idx]) { M.violation(K + ":sync_offset", strf("%d %llu want %llu", e1, (unsigned long long) so, (unsigned long long) P[(size_t) idx])); break; }
			if (e2 || go < so || go > b.size()) { M.violation(K + ":offset", strf("%d %llu, sync %llu, size %zu", e2, (unsigned long long) go, (unsigned long long) so, b.size())); break; }
			M.nontrivial(hash64(b.data(), b.size(), (uint64_t) kind * 1000 + (uint64_t) idx));
		}
	}
	// full enumeration both ways with a fresh decoder each
	for (int dir = 0; dir < 2; ++dir) {
		AnyDec f(kind, &c);
		std::vector<uint64_t> seen; int e;
		while ((e = dir ? f.bwd() : f.fwd()) >= 0 && seen.size() < 100) { f.soff(&so); seen.push_back(so); }
		if (dir) std::reverse(seen.begin(), seen.end());
		if (seen != P || e != -pte_eos) M.violation(K + (dir ? ":enumerate-backward" : ":enumerate-forward"), strf("visited %s, ended with %d, PSB at %s", list(seen).c_str(), e, list(P).c_str()));
		M.count("flow_enumerations");
	}
	if (M.cur % 1999 == 1) M.sample(M.note.substr(0, 300));
}

void run_case(Rng &r)
{
	if (r.chance(60)) pkt_case(r); else flow_case(r);
}
