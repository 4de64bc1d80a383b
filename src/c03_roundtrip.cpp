// C03: encode/decode round trip of packet sequences.
#include "ptmodel.hpp"

void run_case(Rng &r)
{
	int n = (int) r.range(1, 40);
	std::vector<MP> seq;
	size_t total = 0;
	int focus = r.chance(30) ? (int) r.below(K_NUM) : -1;
	for (int i = 0; i < n; ++i) {
		MP p = gen_packet(r, focus >= 0 && r.chance(70) ? focus : -1);
		seq.push_back(p);
		M.note += p.str() + " ";
	}
	for (auto &p : seq) total += mencode(p).size();
	Bytes zero(total, 0xee);
	GuardBuf buf(zero.data(), total, r.chance(50));
	struct pt_config c; pt_config_init(&c); c.begin = buf.begin; c.end = buf.end();
	struct pt_encoder *enc = pt_alloc_encoder(&c);
	if (!enc) { M.violation("alloc_encoder", "encoder not created"); return; }
	std::vector<int> sizes;
	for (auto &p : seq) {
		struct pt_packet q; to_lib(p, q);
		uint64_t o0 = 0, o1 = 0;
		pt_enc_get_offset(enc, &o0);
		int s = pt_enc_next(enc, &q);
		pt_enc_get_offset(enc, &o1);
		M.count("packets_encoded"); M.count(std::string("enc_") + kind_name[p.k]);
		if (s <= 0) { M.violation(std::string("encode-refused:") + kind_name[p.k], p.str() + " -> " + errname(s)); pt_free_encoder(enc); return; }
		if (o1 - o0 != (uint64_t) s) M.violation(std::string("encode-size:") + kind_name[p.k],
			p.str() + strf(" returned %d, advanced %llu", s, (unsigned long long) (o1 - o0)));
		sizes.push_back(s);
	}
	pt_free_encoder(enc);
	struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c);
	pt_pkt_sync_set(d, 0);
	size_t off = 0;
	for (size_t i = 0; i < seq.size(); ++i) {
		struct pt_packet q; memset(&q, 0xa5, sizeof q);
		int s = pt_pkt_next(d, &q, sizeof q);
		uint64_t o = 0; pt_pkt_get_offset(d, &o);
		const char *kn = kind_name[seq[i].k];
		if (s < 0) { M.violation(std::string("decode-refused:") + kn, seq[i].str() + " -> " + errname(s)); break; }
		MP m;
		if (!from_lib(q, m)) { M.violation(std::string("decode-type:") + kn, seq[i].str() + strf(" -> type %d", q.type)); break; }
		if (!(m == seq[i])) M.violation(std::string("roundtrip:") + kn, seq[i].str() + " became " + m.str());
		off += (size_t) sizes[i];
		if (s != sizes[i] || q.size != sizes[i] || o != off)
			M.violation(std::string("roundtrip-size:") + kn, seq[i].str() + strf(" encoded %d, decoded %d, packet.size %d, offset %llu want %zu",
				sizes[i], s, q.size, (unsigned long long) o, off));
		M.count("packets_roundtripped");
		M.nontrivial(hash64(seq[i].f, sizeof seq[i].f, (uint64_t) seq[i].k + 77));
	}
	struct pt_packet q;
	int s = pt_pkt_next(d, &q, sizeof q);
	if (s != -pte_eos) M.violation("no-eos", strf("decoding past the last packet gives %d", s));
	pt_pkt_free_decoder(d);
	if (M.cur % 997 == 0) M.sample(M.note);
}
