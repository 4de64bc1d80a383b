// C05: the packet decoder against an independently written decoder on arbitrary bytes.
#include "ptmodel.hpp"

struct CbState { int ret; const uint8_t *pos; int calls; bool bad; const struct pt_config *cfg; };
static int unk(struct pt_packet_unknown *u, const struct pt_config *cfg, const uint8_t *pos, void *ctx)
{
	CbState *s = (CbState *) ctx; s->calls++; s->pos = pos;
	if (u) u->priv = (void *) pos;
	return s->ret;
}

void run_case(Rng &r)
{
	Bytes b;
	size_t want = (size_t) r.range(1, 200);
	unsigned style = (unsigned) r.below(4);
	while (b.size() < want) {
		if (style == 0) b.push_back((uint8_t) r.next());
		else if (style == 1) {		// biased opcodes followed by random payload
			static const uint8_t ops[] = { 2, 2, 2, 2, 0x19, 0x59, 0x99, 0xd9, 0x0d, 0x11, 0x01, 0x1d, 3, 7, 0xff, 0xc9 };
			static const uint8_t exts[] = { 0x82, 0xa3, 0x43, 0xf3, 0x23, 3, 0x73, 0x83, 0xc8, 0xc3, 0x62, 0xe2, 0xc2, 0x22, 0xa2,
				0x12, 0x32, 0x52, 0x72, 0x92, 0xb2, 0xd2, 0xf2, 0x13, 0x53, 0x04 };
			uint8_t op = ops[r.below(sizeof ops)];
			if ((op & 0x1f) == 0x0d || (op & 0x1f) == 0x11 || (op & 0x1f) == 1 || (op & 0x1f) == 0x1d) op = (uint8_t) ((op & 0x1f) | r.below(8) << 5);
			b.push_back(op);
			if (op == 2) { b.push_back(r.chance(95) ? exts[r.below(sizeof exts)] : (uint8_t) r.next());
				if (b.back() == 0xc3) b.push_back(r.chance(80) ? 0x88 : (uint8_t) r.next());
				if (b.back() == 0x82 && r.chance(60)) for (int i = 0; i < 14; ++i) b.push_back(i & 1 ? 0x82 : 2); }
			if (op == 3 || op == 7 || op == 0xff) { size_t k = r.below(12); for (size_t i = 0; i < k; ++i) b.push_back((uint8_t) (r.next() | 1)); }
			size_t k = r.below(12); for (size_t i = 0; i < k; ++i) b.push_back(r.chance(30) ? 0 : (uint8_t) r.next());
		} else {
			MP p = gen_packet(r);
			Bytes e = mencode(p);
			if (style == 3 && r.chance(40)) e[r.below(e.size())] ^= (uint8_t) (1u << r.below(8));
			b.insert(b.end(), e.begin(), e.end());
		}
	}
	if (r.chance(70)) b.resize((size_t) r.range(1, b.size()));
	M.note = hexs(b.data(), b.size());
	GuardBuf buf(b.data(), b.size(), r.chance(30));
	CbState cb = { 0, 0, 0, false, 0 };
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	bool usecb = r.chance(30);
	if (usecb) { c.decode.callback = unk; c.decode.context = &cb; }
	struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c);
	size_t n = b.size(), off = 0;
	int e = pt_pkt_sync_set(d, 0);
	if (e) { M.violation("sync_set", strf("%d", e)); pt_pkt_free_decoder(d); return; }
	for (int guard = 0; guard < 4000; ++guard) {
		struct pt_packet q; memset(&q, 0xa5, sizeof q);
		MD m = mdecode(b.data() + off, n - off);
		cb.calls = 0;
		cb.ret = r.chance(70) ? (int) r.range(1, 20) : r.chance(50) ? -pte_nomem : r.chance(50) ? 0 : 256 + (int) r.below(10);
		int s = pt_pkt_next(d, &q, sizeof q);
		uint64_t o = ~0ull; pt_pkt_get_offset(d, &o);
		M.count("packets_compared");
		std::string where = strf("at %zu of %zu: %s", off, n, hexs(b.data() + off, std::min<size_t>(n - off, 18)).c_str());
		bool fail = false;
		if ((m.fail & F_OPC) && usecb) {
			M.count("callback_cases");
			if (cb.calls != 1 || cb.pos != buf.begin + off) { M.violation("callback-call", where + strf(" calls %d", cb.calls)); break; }
			int want = cb.ret < 0 ? cb.ret : cb.ret > 255 ? -pte_invalid : (size_t) cb.ret > n - off ? -pte_eos : cb.ret;
			if (s != want) { M.violation("callback-result", where + strf(" callback %d -> %d want %d", cb.ret, s, want)); break; }
			if (s >= 0 && (q.type != ppt_unknown || q.size != s || q.payload.unknown.packet != buf.begin + off ||
				q.payload.unknown.priv != (void *) (buf.begin + off))) { M.violation("callback-packet", where); break; }
			if (s < 0) fail = true; else if (o != off + (size_t) s) { M.violation("callback-offset", where); break; }
			else { off += (size_t) s; if (!s) { if (++guard > 200) break; } continue; }
		} else {
			if (cb.calls) { M.violation("callback-spurious", where); break; }
			int f = m.fail & 7; bool either = m.fail & 0x100;
			if (f == F_GOOD || (either && s >= 0)) {
				MP got;
				if (s < 0 || !from_lib(q, got)) { M.violation(std::string("rejected:") + kind_name[m.p.k], where + " want " + m.p.str() + strf(" got %d", s)); break; }
				if (!(got == m.p)) { M.violation(std::string("payload:") + kind_name[m.p.k], where + " want " + m.p.str() + " got " + got.str()); break; }
				if (s != m.size || q.size != m.size || o != off + (size_t) m.size) {
					M.violation(std::string("size:") + kind_name[m.p.k], where + strf(" want %d got %d, packet.size %d, offset %llu", m.size, s, q.size, (unsigned long long) o)); break; }
				M.count(std::string("ok_") + kind_name[m.p.k]);
				M.nontrivial(hash64(b.data() + off, (size_t) m.size, 3));
				off += (size_t) s;
				continue;
			}
			fail = true;
			bool ok = (f & F_END && s == -pte_eos) || (f & F_OPC && s == -pte_bad_opc) || (f & F_PKT && s == -pte_bad_packet);
			// an undefined field inside a known packet may be called a bad opcode or a bad packet
			if (f & F_PKT && s == -pte_bad_opc) ok = true;
			if (!ok) {
				M.violation(s >= 0 ? "accepted-bad" : "wrong-error", where + strf(" want failure class %d got %d", f, s)); break; }
			M.count(f & F_END ? "fail_eos" : f & F_OPC ? "fail_opcode" : "fail_packet");
			M.nontrivial(hash64(b.data() + off, std::min<size_t>(n - off, 3), (uint64_t) f + 11) ^ (n - off));
		}
		if (fail) {
			if (o != off) { M.violation("moved-on-failure", where + strf(" offset %llu", (unsigned long long) o)); break; }
			if (off >= n) break;
			off++;		// continue behind the undecodable byte
			e = pt_pkt_sync_set(d, off);
			if (e) { M.violation("sync_set", where + strf(" sync_set(%zu) = %d", off, e)); break; }
			if (off > n) break;
		}
	}
	pt_pkt_free_decoder(d);
	if (M.cur % 1999 == 0) M.sample(M.note.substr(0, 200));
}
