// C26: the segment finder reports the segment that contains an offset.
#include "tool.hpp"
#include "ptmodel.hpp"

// An independent scan for synchronization points: of PSB patterns directly abutting each other, the last counts.
static std::vector<uint64_t> psbs(const Bytes &b)
{
	std::vector<uint64_t> v;
	for (size_t i = 0; i + 1 < b.size();) {
		if (b[i] != 0x02 || b[i + 1] != 0x82) { ++i; continue; }
		size_t j = i;
		while (j + 1 < b.size() && b[j] == 0x02 && b[j + 1] == 0x82) j += 2;
		if (j - i >= 16) v.push_back(j - 16);
		i = j;
	}
	return v;
}
void run_case(Rng &r)
{
	Bytes b; Bytes P; mencode(MP(K_PSB), P);
	int n = (int) r.below(7);
	auto junk = [&]() {
		switch (r.below(6)) {
		case 0: break;
		case 1: { size_t k = r.below(40); while (k--) b.push_back((uint8_t) r.next()); break; }
		case 2: { int k = (int) r.below(20); while (k--) mencode(gen_packet(r), b); break; }
		case 3: { size_t k = 1 + r.below(15); b.insert(b.end(), P.begin(), P.begin() + (long) k); break; }
		case 4: { size_t k = 1 + r.below(15); b.insert(b.end(), P.end() - (long) k, P.end()); break; }
		case 5: { size_t k = r.below(200); b.insert(b.end(), k, 0); break; }
		}
	};
	junk();
	while (n--) { b.insert(b.end(), P.begin(), P.end()); junk(); }
	if (r.chance(20) && !b.empty()) b.resize(r.below(b.size() + 1));
	std::string fn = M.scratch + (r.chance(20) ? "/a:b.pt" : "/t.pt");
	write_file(fn, b.data(), b.size());
	M.note = hexs(b.data(), b.size()) + "\n";
	auto pts = psbs(b);
	auto seg = [&](uint64_t off, uint64_t &lo, uint64_t &hi) {
		lo = 0; hi = b.size();
		for (uint64_t p : pts) { if (p <= off) lo = p; else { hi = p; break; } }
	};
	std::vector<uint64_t> offs;
	for (uint64_t p : pts) { offs.push_back(p); offs.push_back(p + 1 + r.below(15)); offs.push_back(p + 16); if (p) offs.push_back(p - 1); if (p > 3) offs.push_back(p - r.below(16)); }
	offs.push_back(0); if (!b.empty()) offs.push_back(b.size() - 1); for (int i = 0; i < 3; ++i) offs.push_back(r.below(b.size() + 1));
	while (offs.size() > 7) offs.erase(offs.begin() + (long) r.below(offs.size()));
	for (uint64_t off : offs) {
		static const char *const f[] = { "%s:%llu", "%s:0x%llx", "%s:0%llo", "%s:0X%llX" };
		std::string arg = strf(f[r.below(4)], fn.c_str(), (unsigned long long) off);
		ToolRun t = run_tool("ptseg", { arg });
		if (t.crashed) return;
		if (off >= b.size()) {
			// The end of the file is not inside of it; a file is allowed to be queried at its end, though.
			if (off > b.size() && !t.status) M.violation("accepted:offset", strf("offset %llu in a file of %zu bytes: %s", (unsigned long long) off, b.size(), t.out.c_str()));
			if (b.empty()) { if (!t.status) M.violation("accepted:empty", t.out); }
			continue;
		}
		uint64_t lo, hi; seg(off, lo, hi);
		unsigned long long a = 77, z = 77, o = 77, s = 77; int used = 0;
		if (t.status) { M.violation("refused", strf("offset %llu of %zu: exit %d %s", (unsigned long long) off, b.size(), t.status, t.err.c_str())); continue; }
		if (sscanf(t.out.c_str(), "0x%llx-0x%llx (offset: 0x%llx, size: 0x%llx)\n%n", &a, &z, &o, &s, &used) != 4) { M.violation("format", t.out); continue; }
		if (a != lo || z != hi) { M.violation(a > off || z <= off ? "not-containing" : "wrong-segment", strf("offset %llu: %llx-%llx instead of %llx-%llx", (unsigned long long) off, a, z, (unsigned long long) lo, (unsigned long long) hi)); continue; }
		if (o != off - lo || s != hi - lo) { M.violation("wrong-detail", strf("offset %llu: ", (unsigned long long) off) + t.out); continue; }
		M.count("segments");
		if (off == lo && lo) M.count("at_psb"); else if (off - lo < 16 && lo) M.count("inside_psb");
		if (!lo) M.count("first"); if (hi == b.size()) M.count("last");
		M.nontrivial(hash64(b.data(), b.size(), off));
	}
	// malformed arguments
	if (r.chance(40)) {
		std::vector<std::string> args; bool ok = false;
		std::string sz = strf("%zu", b.size() + 1 + r.below(100));
		switch (r.below(13)) {
		case 0: break;
		case 1: args = { fn + ":" + sz }; break;
		case 2: args = { M.scratch + "/t_pt" }; break;
		case 3: args = { ":0" }; break;
		case 4: args = { fn + ":0x" }; break;
		case 5: args = { fn + ":zz" }; break;
		case 6: args = { fn + ":0 " }; break;
		case 7: args = { fn + ":0", "1" }; break;
		case 8: args = { "--foo", fn + ":0" }; break;
		case 9: args = { M.scratch + "/missing:0" }; break;
		case 10: args = { fn + ":99999999999999999999999" }; break;
		case 12: args = { fn + strf(":0x%llx", (unsigned long long) ((1ull << 63) + r.wide(62))) }; break;
		case 11: args = { r.chance(50) ? "--help" : "--version" }; ok = true; break;
		}
		ToolRun t = run_tool("ptseg", args);
		if (t.crashed) return;
		if (ok ? t.status != 0 : t.status == 0) M.violation("arguments", strf("exit %d for %s: ", t.status, args.empty() ? "" : args[0].c_str()) + t.out);
		else if (!ok && !args.empty() && t.err.empty()) M.violation("silent", "no error message for " + args[0]);
		M.count("malformed");
	}
	if (M.samples.size() < 3) M.sample(strf("%zu bytes, %zu sync points, %zu offsets", b.size(), pts.size(), offs.size()));
	unlink(fn.c_str());
}
