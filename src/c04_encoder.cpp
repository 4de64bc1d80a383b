// C04: the encoder against an independent encoding, with canaries around the buffer.
#include "ptmodel.hpp"

static void broken_packet(Rng &r, struct pt_packet &q, std::string &what)
{
	memset(&q, 0, sizeof q);
	switch (r.below(9)) {
	case 0: q.type = ppt_unknown; what = "unknown"; break;
	case 1: q.type = ppt_invalid; what = "invalid"; break;
	case 2: { static const enum pt_packet_type t[4] = { ppt_tip, ppt_tip_pge, ppt_tip_pgd, ppt_fup };
		q.type = t[r.below(4)]; q.payload.ip.ipc = (enum pt_ip_compression) (r.chance(50) ? 5 : 7);
		q.payload.ip.ip = r.next(); what = "bad ipc"; break; }
	case 3: q.type = ppt_tnt_8; q.payload.tnt.bit_size = (uint8_t) (r.chance(30) ? 0 : r.range(7, 255));
		q.payload.tnt.payload = r.wide(6); what = strf("tnt8 size %d", q.payload.tnt.bit_size); break;
	case 4: q.type = ppt_tnt_64; q.payload.tnt.bit_size = (uint8_t) (r.chance(30) ? 0 : r.range(48, 255));
		q.payload.tnt.payload = 0; what = strf("tnt64 size %d", q.payload.tnt.bit_size); break;
	case 5: { bool w = r.chance(50); unsigned n = (unsigned) r.range(1, w ? 47 : 6);
		q.type = w ? ppt_tnt_64 : ppt_tnt_8; q.payload.tnt.bit_size = (uint8_t) n;
		q.payload.tnt.payload = 1ull << r.range(n, w ? 63 : 7); what = strf("%s payload exceeds %u bits", w ? "tnt64" : "tnt8", n); break; }
	case 6: q.type = ppt_mode; q.payload.mode.leaf = (enum pt_mode_leaf) (r.range(2, 7) << 5); what = "mode leaf"; break;
	case 7: q.type = ppt_tma; q.payload.tma.fc = (uint16_t) r.range(0x200, 0xffff); q.payload.tma.ctc = (uint16_t) r.next(); what = "tma fc"; break;
	case 8: q.type = ppt_ptw; q.payload.ptw.plc = (uint8_t) r.range(2, 3); q.payload.ptw.payload = r.next(); what = "ptw plc"; break;
	}
}

void run_case(Rng &r)
{
	size_t size = (size_t) (r.chance(60) ? r.range(0, 40) : r.range(0, 300));
	const size_t pad = 64;
	if (!size) size = 1;
	bool guard = r.chance(50);
	std::vector<uint8_t> init(size);
	for (auto &b : init) b = (uint8_t) r.next();
	// either a canary frame on the heap or a guard page behind
	Bytes frame(size + 2 * pad, 0xc3);
	GuardBuf gb(init.data(), size, false);
	uint8_t *begin = guard ? gb.begin : frame.data() + pad;
	if (!guard) memcpy(begin, init.data(), size);
	Bytes model = init;
	struct pt_config c; pt_config_init(&c); c.begin = begin; c.end = begin + size;
	struct pt_encoder *enc = pt_alloc_encoder(&c);
	if (!enc) { M.violation("alloc_encoder", "encoder not created"); return; }
	size_t off = 0;
	int nops = (int) r.range(3, 40);
	for (int i = 0; i < nops; ++i) {
		std::string what; int ret; size_t newoff = off; bool must_fail = false, must_eos = false;
		Bytes want;
		unsigned sel = (unsigned) r.below(100);
		if (sel < 15) {
			uint64_t o = r.chance(70) ? r.below(size + 1) : r.chance(50) ? size + r.range(1, 40) : r.wide(64);
			what = strf("sync_set(%llx)", (unsigned long long) o);
			M.note += what + " ";
			ret = pt_enc_sync_set(enc, o);
			if (o <= size) { newoff = (size_t) o; if (ret) M.violation("sync_set-refused", what + strf(" of %zu -> %d", size, ret)); }
			else if (ret != -pte_eos) M.violation("sync_set-accepted", what + strf(" of %zu -> %d", size, ret));
			M.count("repositions");
		} else {
			struct pt_packet q;
			if (sel < 35) { broken_packet(r, q, what); must_fail = true; }
			else if (sel < 42) {
				// payload bits that the packet has no room for: refused or dropped, nothing else
				static const int ks[] = { K_PIP, K_VMCS, K_TSC, K_TIP, K_FUP, K_PGE, K_PGD, K_PWRE, K_PWRX, K_CFE, K_EVD, K_PTW };
				MP p = gen_packet(r, ks[r.below(sizeof ks / sizeof *ks)]);
				if (p.k == K_PIP) p.f[0] = r.next();
				else if (p.k == K_VMCS || p.k == K_TSC) p.f[0] = r.next();
				else if (p.k == K_PTW) p.f[2] = r.next();
				else if (p.k >= K_TIP && p.k <= K_FUP) p.f[1] = r.next();
				to_lib(p, q);
				if (p.k == K_PWRE || p.k == K_PWRX || p.k == K_CFE || p.k == K_EVD) to_lib(p, q);
				want = mencode(p); what = "wide " + p.str();
			} else { MP p = gen_packet(r); to_lib(p, q); want = mencode(p); what = p.str(); }
			M.note += what + " ";
			ret = pt_enc_next(enc, &q);
			M.count(must_fail ? "invalid_packets" : "valid_packets");
			if (!must_fail && want.size() > size - off) { must_eos = true; M.count("no_space"); }
			std::string key = what.substr(0, what.find('('));
			if (must_fail) {
				if (ret >= 0) {
					// Whatever was written for it, it stays inside the buffer.
					M.violation("accepted-invalid:" + key.substr(0, key.find(" size")) +
						(q.type == ppt_tnt_64 && q.payload.tnt.bit_size ? ":nonzero-size" : ""), what + strf(" -> %d", ret));
					for (size_t k = 0; !guard && k < pad; ++k) if (frame[k] != 0xc3 || frame[pad + size + k] != 0xc3) {
						M.violation("overrun", what + strf(" ret %d wrote outside the buffer", ret)); break;
					}
					for (size_t k = 0; k < off; ++k) if (begin[k] != model[k]) {
						M.violation("bytes-before", what + strf(" ret %d changed bytes before the offset", ret)); break;
					}
					break;
				}
			} else if (must_eos) {
				if (ret != -pte_eos) M.violation("no-eos:" + key, what + strf(" needs %zu of %zu -> %d", want.size(), size - off, ret));
			} else if (ret < 0 && what.compare(0, 5, "wide ")) {
				M.violation("refused:" + key, what + strf(" needs %zu of %zu -> %d", want.size(), size - off, ret));
			} else if (ret >= 0) {
				if ((size_t) ret != want.size()) M.violation("size:" + key, what + strf(" -> %d want %zu", ret, want.size()));
				newoff = off + want.size();
				memcpy(model.data() + off, want.data(), want.size());
				M.nontrivial(hash64(want.data(), want.size(), 5));
			}
			if (ret < 0) M.nontrivial(hashs(what) ^ (size - off < 20 ? size - off : 20));
		}
		uint64_t o = ~0ull;
		pt_enc_get_offset(enc, &o);
		if (o != newoff) {
			M.violation(ret < 0 ? "offset-after-refusal" : "offset", what + strf(" ret %d: offset %llu want %zu", ret, (unsigned long long) o, newoff));
			break;
		}
		off = newoff;
		if (memcmp(begin, model.data(), size)) {
			size_t k = 0; while (begin[k] == model[k]) ++k;
			M.violation(ret < 0 ? "bytes-after-refusal" : "bytes:" + what.substr(0, what.find('(')),
				what + strf(" ret %d: byte %zu is %02x want %02x", ret, k, begin[k], model[k]));
			break;
		}
		if (!guard) for (size_t k = 0; k < pad; ++k) if (frame[k] != 0xc3 || frame[pad + size + k] != 0xc3) {
			M.violation("overrun", what + strf(" ret %d wrote outside the buffer", ret)); i = nops; break;
		}
		M.count("buffer_comparisons");
	}
	pt_free_encoder(enc);
	if (M.cur % 997 == 0) M.sample(strf("size %zu: ", size) + M.note);
}
