// C30: an ELF file is mapped as its program headers say.
#include "imgmodel.hpp"
#include "elfgen.hpp"
#include <functional>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
extern "C" int load_elf(struct pt_image_section_cache *iscache, struct pt_image *image, const char *file, uint64_t base, const char *prog, int verbose);

typedef unsigned long long ull;
static std::vector<std::string> real;
void harness_init()
{
	for (const char *d : { "/usr/bin", "/usr/lib/x86_64-linux-gnu", "/usr/lib/llvm-18/lib/clang/18/lib/linux", "/usr/lib32", "/usr/libx32", "/usr/lib/valgrind" }) {
		DIR *x = opendir(d); if (!x) continue;
		while (struct dirent *e = readdir(x)) { std::string f = std::string(d) + "/" + e->d_name; struct stat s; char m[4]; if (stat(f.c_str(), &s) || !S_ISREG(s.st_mode) || s.st_size < 4096 || s.st_size > (64 << 20)) continue;
			FILE *i = fopen(f.c_str(), "rb"); if (!i) continue; if (fread(m, 4, 1, i) == 1 && !memcmp(m, ELFMAG, 4)) real.push_back(f); fclose(i); }
		closedir(x);
	}
	std::sort(real.begin(), real.end());
}
struct Loaded { int rc; std::string out, err; };
static Loaded load(struct pt_image_section_cache *isc, struct pt_image *im, const std::string &fn, uint64_t base, bool verbose)
{
	Loaded l; fflush(stdout); fflush(stderr);
	int so = dup(1), se = dup(2), o = memfd_create("o", 0), e = memfd_create("e", 0); dup2(o, 1); dup2(e, 2);
	l.rc = load_elf(isc, im, fn.c_str(), base, "prog", verbose);
	fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2);
	for (int k = 0; k < 2; ++k) { char b[4096]; ssize_t n; int f = k ? e : o; lseek(f, 0, SEEK_SET); while ((n = read(f, b, sizeof b)) > 0) (k ? l.err : l.out).append(b, (size_t) n); close(f); }
	close(so); close(se);
	if (l.err.find("runtime error") != std::string::npos) fputs(l.err.c_str(), stderr);
	return l;
}
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void put_file(const std::string &fn, const Bytes &b) { FILE *f = fopen(fn.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); }

// What a file asks for, read from its bytes.
struct Want30 { std::vector<Seg> load; bool ok = false; size_t refused = 0; };
template <class Eh, class Ph> static bool parse_as(const Bytes &f, std::vector<Seg> &v, std::vector<uint64_t> &fsz)
{
	Eh e; if (f.size() < sizeof e) return false; memcpy(&e, f.data(), sizeof e);
	for (unsigned i = 0; i < e.e_phnum; ++i) {
		Ph p; uint64_t at = e.e_phoff + (uint64_t) i * sizeof p; if (at + sizeof p < at || at + sizeof p > f.size()) return false; memcpy(&p, &f[at], sizeof p);
		Seg s; s.type = p.p_type; s.vaddr = p.p_vaddr; s.memsz = p.p_memsz; s.off = p.p_offset; v.push_back(s); fsz.push_back(p.p_filesz);
	}
	return true;
}
// Adds the pieces of a file to the model; returns the number of segments that cannot be added.
static size_t model(ImageM &m, int file, const std::vector<Seg> &v, const std::vector<uint64_t> &fsz, uint64_t base, struct pt_image_section_cache *isc, std::string &verbose, std::string &alt, size_t &added, bool w64)
{
	uint64_t min = ~0ull, delta = 0; size_t refused = 0; for (auto &s : v) if (s.type == PT_LOAD) min = std::min(min, s.vaddr);
	if (base) delta = base - min;
	const FileM &f = files[(size_t) file];
	for (size_t i = 0; i < v.size(); ++i) {
		auto &s = v[i]; if (s.type != PT_LOAD || !fsz[i]) continue;
		if (s.off >= f.b.size()) { refused++; continue; }
		uint64_t n = std::min<uint64_t>(fsz[i], f.b.size() - s.off), va = s.vaddr + delta; if (va + (n - 1) < va) { n = 0ull - va; M.count("top_of_space"); }
		if (n < fsz[i]) M.count("truncated_segments");
		int isid = isc ? pt_iscache_add_file(isc, f.name.c_str(), s.off, fsz[i], va) : 0;
		if (isid < 0) { refused++; continue; }
		m.add({ pt_asid_no_cr3, pt_asid_no_vmcs, va, va + (n - 1), s.off, file, isid }); added++; M.count("segments");
		std::string h = strf("%s: offset=0x%llx size=0x%llx vaddr=0x", f.name.c_str(), (ull) s.off, (ull) fsz[i]);
		verbose += h + strf("%llx.\n", (ull) s.vaddr); alt += h + strf("%llx.\n", (ull) va);
	}
	return refused;
}
static std::string how;
static bool check_load(const Loaded &l, size_t refused, size_t added, bool verbose, const std::string &v, const std::string &alt)
{
	M.note = how + hist;
	if (l.rc > 0) { M.violation("result", strf("%d", l.rc)); return false; }
	if (l.rc < 0) { M.violation("refused", strf("%d: ", l.rc) + l.err); return false; }
	if ((refused || !added) && l.err.empty()) { M.violation("silent", "segments were not loaded and nothing was said"); return false; }
	if (!refused && added && !l.err.empty()) { M.violation("stderr", l.err); return false; }
	if (verbose ? l.out != v && l.out != alt : !l.out.empty()) { M.violation("verbose", "\"" + l.out + "\" instead of \"" + v + "\""); return false; }
	return true;
}

static void damaged(Rng &r)
{
	std::vector<Seg> s; bool w64 = r.chance(50); int n = (int) r.range(1, 5); std::string fn = M.scratch + "/bad";
	while (n--) { Seg g; g.type = r.chance(80) ? PT_LOAD : (uint32_t) r.below(8); g.vaddr = r.wide(w64 ? 64 : 32); g.memsz = r.below(100); g.data.resize(r.below(100), 0x90); s.push_back(g); }
	uint64_t pho; Bytes f = mkelf(r, w64, s, &pho); size_t ph = w64 ? sizeof(Elf64_Phdr) : sizeof(Elf32_Phdr), eh = w64 ? sizeof(Elf64_Ehdr) : sizeof(Elf32_Ehdr); bool must = false;
	int k = (int) r.below(6);
	switch (k) {
	case 0: f[r.below(4)] ^= (uint8_t) (1 + r.below(255)); must = true; break;
	case 1: f[EI_CLASS] = r.chance(30) ? 0 : (uint8_t) (3 + r.below(250)); must = true; break;
	case 2: f.resize(r.below(eh)); must = true; break;
	case 3: { uint64_t o = f.size() - r.below(ph); if (r.chance(30)) o = w64 ? r.next() | 1ull << 63 : 0xffffffff; if (w64) memcpy(&f[offsetof(Elf64_Ehdr, e_phoff)], &o, 8); else memcpy(&f[offsetof(Elf32_Ehdr, e_phoff)], &o, 4); must = true; break; }
	case 4: { uint16_t m = (uint16_t) ((f.size() - pho) / ph + 1 + r.wide(14)); memcpy(&f[w64 ? offsetof(Elf64_Ehdr, e_phnum) : offsetof(Elf32_Ehdr, e_phnum)], &m, 2); must = true; break; }
	default: { int m = (int) r.range(1, 6); while (m--) f[r.chance(80) ? r.below(std::min<size_t>(f.size(), pho + ph * s.size())) : r.below(f.size())] = (uint8_t) r.wide(8); break; }
	}
	put_file(fn, f);
	struct pt_image *im = pt_image_alloc(nullptr); struct pt_image_section_cache *isc = r.chance(60) ? pt_iscache_alloc(nullptr) : nullptr; int fds = nfds();
	uint64_t base = r.chance(50) ? 0 : r.wide(64); how = strf("damaged %d base %llx\n", k, (ull) base) + hexs(f.data(), f.size());
	M.note = how;
	Loaded l = load(isc, im, fn, base, r.chance(30));
	if (must && l.rc >= 0) M.violation("accepted", strf("damaged %d-bit ELF file (%d) accepted: ", w64 ? 64 : 32, k) + l.err);
	if (l.rc < 0 && l.rc != -pte_bad_config && l.rc != -pte_nomem && l.rc != -pte_invalid) M.violation("error", strf("%d", l.rc));
	if (l.rc < 0 && l.err.empty()) M.violation("silent", "refused without a message");
	if (nfds() != fds) M.violation("fd", strf("%d file descriptors instead of %d", nfds(), fds));
	if (r.chance(2)) { if (load(isc, im, M.scratch + "/none", 0, false).rc >= 0) M.violation("accepted", "missing file"); if (load_elf(isc, nullptr, fn.c_str(), 0, "p", 0) != -pte_invalid || load_elf(isc, im, nullptr, 0, "p", 0) != -pte_invalid) M.violation("invalid", "null arguments"); }
	if (l.rc >= 0) {	// what the bytes say now
		std::vector<Seg> v; std::vector<uint64_t> fs; bool p = f[EI_CLASS] == ELFCLASS64 ? parse_as<Elf64_Ehdr, Elf64_Phdr>(f, v, fs) : parse_as<Elf32_Ehdr, Elf32_Phdr>(f, v, fs);
		if (!p) M.violation("accepted", "program headers are not in the file");
		else M.count("damaged_readable");
	} else M.count("damaged_refused");
	pt_image_free(im); pt_iscache_free(isc);
	M.nontrivial(hash64(f.data(), f.size()));
}

static bool probe(struct pt_image *im, struct pt_image_section_cache *isc, uint64_t ip, const std::function<int(uint64_t)> &at, bool m64)
{
	Bytes t; mencode(MP(K_PSB), t); mencode(MP(K_EXEC, m64 ? 1 : 0, m64 ? 0 : 1), t); mencode(MP(K_FUP, pt_ipc_full, ip), t); mencode(MP(K_PSBEND), t); for (int k = 0; k < 4; ++k) mencode(MP(K_TNT8, 0, 6), t);
	GuardBuf g(t.data(), t.size(), true); struct pt_config c; pt_config_init(&c); c.begin = g.begin; c.end = g.end();
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c); pt_insn_set_image(d, im); int s = pt_insn_sync_forward(d); bool ok = true;
	while (s >= 0 && (s & pts_event_pending)) { struct pt_event e; s = pt_insn_event(d, &e, sizeof e); }
	struct pt_insn in; in.size = 0; in.isid = 0; in.ip = ~ip; int rc = pt_insn_next(d, &in, sizeof in);
	auto fail = [&](const char *k, const std::string &x) { M.note = how; M.violation(k, strf("at %llx: ", (ull) ip) + x); ok = false; };
	int b0 = at(ip);
	if (s < 0) fail("sync", strf("%d", s));
	else if (b0 < 0) { if (rc != -pte_nomap) fail("mapped", strf("%d, nothing is mapped there", rc)); else M.count("unmapped_probes"); }
	else if (rc == -pte_nomap) fail("unmapped", "not mapped");
	else if (in.ip == ip && in.size && rc != -pte_bad_insn) {
		for (unsigned k = 0; k < in.size; ++k) { int b = at(ip + k); if (b != in.raw[k]) { fail("bytes", strf("byte %u is %02x instead of %02x", k, in.raw[k], b)); break; } }
		M.count("probed_insns");
	} else M.count("undecodable_probes");
	if (ok && b0 >= 0 && isc) {
		if (in.isid <= 0) fail("isid", strf("isid %d", in.isid));
		else { uint8_t buf[64]; int n = pt_iscache_read(isc, buf, sizeof buf, in.isid, ip); if (n <= 0) fail("read", strf("%d", n)); for (int k = 0; k < n && ok; ++k) if (at(ip + (uint64_t) k) != buf[k]) fail("cache-bytes", strf("byte %d is %02x", k, buf[k])); M.count("cache_reads"); }
	}
	pt_insn_free_decoder(d); return ok;
}
static void real_file(Rng &r)
{
	if (real.empty()) { M.count("no_real_files"); return; }
	const std::string &fn = real[r.below(real.size())]; FILE *i = fopen(fn.c_str(), "rb"); if (!i) return; Bytes f; uint8_t b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) f.insert(f.end(), b, b + n); fclose(i);
	bool w64 = f[EI_CLASS] == ELFCLASS64; std::vector<Seg> v; std::vector<uint64_t> fs; if (!(w64 ? parse_as<Elf64_Ehdr, Elf64_Phdr>(f, v, fs) : parse_as<Elf32_Ehdr, Elf32_Phdr>(f, v, fs))) return;
	files.clear(); files.push_back({ fn, f });
	struct pt_image *im = pt_image_alloc(nullptr); struct pt_image_section_cache *isc = r.chance(60) ? pt_iscache_alloc(nullptr) : nullptr; uint64_t base = r.chance(40) ? 0 : r.wide(47) & ~0xfffull; bool verbose = r.chance(40);
	how = strf("%s base %llx\n", fn.c_str(), (ull) base); hist.clear();
	Loaded l = load(isc, im, fn, base, verbose); std::string o, a; size_t added = 0; ImageM m; size_t refused = model(m, 0, v, fs, base, isc, o, a, added, w64);
	bool ok = check_load(l, refused, added, verbose, o, a);
	auto at = [&](uint64_t x) -> int { auto *p = m.find(pt_asid_no_cr3, pt_asid_no_vmcs, x); return p ? f[p->off + (x - p->b)] : -1; };
	for (int k = 0; k < 12 && ok && !m.p.empty(); ++k) {
		auto &p = m.p[r.below(m.p.size())]; uint64_t ip;
		switch (r.below(4)) { case 0: ip = p.b; break; case 1: ip = p.last - r.below(std::min<uint64_t>(20, p.last - p.b + 1)); break; case 2: ip = r.chance(50) ? p.b - 1 - r.below(20) : p.last + 1 + r.below(20); break; default: ip = p.b + r.below(p.last - p.b + 1); }
		if (ip) ok = probe(im, isc, ip, at, w64);
	}
	M.count(w64 ? "real64" : "real32"); M.nontrivial(hashs(fn) + base);
	pt_image_free(im); pt_iscache_free(isc);
}

void run_case(Rng &r)
{
	if (r.chance(20)) { damaged(r); return; }
	if (r.chance(4)) { real_file(r); return; }
	files.clear(); hist.clear(); how.clear();
	struct pt_image_section_cache *isc = r.chance(70) ? pt_iscache_alloc(nullptr) : nullptr; if (isc && r.chance(20)) pt_iscache_set_limit(isc, r.wide(14));
	ImageM m; m.im = pt_image_alloc(nullptr); bool ok = true; int nfiles = (int) r.range(1, 4), fds = nfds();
	uint64_t home = r.chance(20) ? 0ull - r.range(100, 2000) : r.chance(30) ? r.wide(64) : r.chance(50) ? 0x400000 : 0x7f0000001000ull;
	for (int k = 0; k < nfiles && ok; ++k) {
		bool w64 = r.chance(60); uint64_t lim = w64 ? ~0ull : 0xffffffffull, link = r.chance(50) ? 0 : w64 ? (r.chance(50) ? home : r.wide(64)) : r.chance(30) ? 0ull - r.range(50, 2000) : r.wide(31); link &= lim;
		std::vector<Seg> s; int n = (int) r.below(7);
		while (n--) {
			Seg g; g.type = r.chance(75) ? PT_LOAD : (uint32_t) (r.chance(80) ? r.below(8) : r.next()); g.vaddr = link + r.below(r.chance(70) ? 200 : 4000); if (g.vaddr < link || g.vaddr > lim) g.vaddr = link; g.memsz = r.below(300);
			g.data = r.chance(20) ? Bytes() : code_bytes(r, r.chance(80) ? 1 + r.below(120) : 1 + r.below(6000)); s.push_back(g);
		}
		Bytes f = mkelf(r, w64, s);
		std::vector<Seg> v; std::vector<uint64_t> fs; if (!(w64 ? parse_as<Elf64_Ehdr, Elf64_Phdr>(f, v, fs) : parse_as<Elf32_Ehdr, Elf32_Phdr>(f, v, fs))) { M.violation("harness", "bad ELF file generated"); return; }
		size_t ph = w64 ? sizeof(Elf64_Phdr) : sizeof(Elf32_Phdr); uint64_t pho; if (w64) memcpy(&pho, &f[offsetof(Elf64_Ehdr, e_phoff)], 8); else { uint32_t q; memcpy(&q, &f[offsetof(Elf32_Ehdr, e_phoff)], 4); pho = q; }
		if (!v.empty() && r.chance(15)) {	// what the file does not have
			size_t i = r.below(v.size()); bool off = r.chance(40); uint64_t x = off ? f.size() + r.wide(w64 ? 40 : 30) : f.size() - std::min<uint64_t>(f.size(), v[i].off) + 1 + r.wide(w64 ? 40 : 30);
			size_t where = pho + i * ph + (w64 ? (off ? offsetof(Elf64_Phdr, p_offset) : offsetof(Elf64_Phdr, p_filesz)) : (off ? offsetof(Elf32_Phdr, p_offset) : offsetof(Elf32_Phdr, p_filesz)));
			memcpy(&f[where], &x, w64 ? 8 : 4); v.clear(); fs.clear(); if (w64) parse_as<Elf64_Ehdr, Elf64_Phdr>(f, v, fs); else parse_as<Elf32_Ehdr, Elf32_Phdr>(f, v, fs);
			hist += "beyond the end\n";
		}
		std::string fn = M.scratch + strf("/e%d", k); put_file(fn, f); files.push_back({ fn, f });
		uint64_t base = 0; if (r.chance(55)) { base = r.chance(60) ? home + r.below(300) : home + r.below(3000); if (r.chance(10)) base = r.wide(64); }
		bool verbose = r.chance(30); hist += strf("load %s %d-bit base %llx\n", fn.c_str(), w64 ? 64 : 32, (ull) base); for (size_t q = 0; q < v.size(); ++q) hist += strf("  %x offset %llx filesz %llx vaddr %llx\n", v[q].type, (ull) v[q].off, (ull) fs[q], (ull) v[q].vaddr);
		M.note = hist;
		Loaded l = load(isc, m.im, fn, base, verbose); std::string o, a; size_t added = 0, refused = model(m, k, v, fs, base, isc, o, a, added, w64);
		ok = check_load(l, refused, added, verbose, o, a); if (refused) M.count("unloadable_segments"); if (!added) M.count("nothing_to_load"); if (base && added) M.count(w64 ? "relocated64" : "relocated32"); else if (added) M.count(w64 ? "loaded64" : "loaded32"); if (added > 1) M.count("several_segments");
	}
	if (ok && nfds() != fds + 0) { M.violation("fd", strf("%d file descriptors instead of %d", nfds(), fds)); ok = false; }
	// bytes anywhere, what is mapped and what is not
	how = hist; auto at = [&](uint64_t x) -> int { auto *p = m.find(pt_asid_no_cr3, pt_asid_no_vmcs, x); return p ? files[(size_t) p->file].b[p->off + (x - p->b)] : -1; };
	for (int k = (int) r.range(4, 20); k && ok && !m.p.empty(); --k) {
		auto &p = m.p[r.below(m.p.size())]; uint64_t ip;
		switch (r.below(5)) { case 0: ip = p.b; break; case 1: ip = p.last - r.below(std::min<uint64_t>(20, p.last - p.b + 1)); break; case 2: ip = r.chance(50) ? p.b - 1 - r.below(20) : p.last + 1 + r.below(20); break; case 3: ip = home + r.below(4000); break; default: ip = p.b + r.below(p.last - p.b + 1); }
		if (!ip) continue;
		// reading from the cache does not stop where a later piece of the image begins
		ok = probe(m.im, nullptr, ip, at, true);
		if (ok && isc) { auto *q = m.find(pt_asid_no_cr3, pt_asid_no_vmcs, ip); if (q) { uint8_t buf[64]; int n = pt_iscache_read(isc, buf, sizeof buf, q->isid, ip); if (n <= 0 || memcmp(buf, &files[(size_t) q->file].b[q->off + (ip - q->b)], (size_t) n)) { M.violation("cache-bytes", strf("at %llx: %d", (ull) ip, n)); ok = false; } M.count("cache_reads"); } }
	}
	// code through both decoders
	for (int k = (int) r.below(3); k && ok && !m.p.empty(); --k) {
		auto &p = m.p[r.below(m.p.size())]; std::unique_ptr<Walk> w(new Walk); w->kind = (int) r.below(2); w->im = &m; w->cr3 = 0x1000; w->vmcs = 0x2000; w->ip = r.chance(50) ? p.b : p.b + r.below(std::min<uint64_t>(p.last - p.b, 400) + 1); if (!w->ip) continue;
		// only generated code is understood
		bool code = hist.find("beyond") == std::string::npos; if (!code) break;
		bool top = false, bottom = false; for (auto &x : m.p) { top |= x.last > ~0ull - 32; bottom |= x.b < 32; } if (top && bottom) break;	// instructions around the end of the address space
		::base = w->ip >> 63 ? 1ull << 63 : 0; if (!start(r, *w)) { ok = false; break; }
		for (int q = (int) r.range(1, 60); q && !w->dead && ok; --q) ok = step(*w);
		M.count("walks");
	}
	M.nontrivial(hashs(hist)); if (M.samples.size() < 3) M.sample(hist.substr(0, 600));
	pt_image_free(m.im); pt_iscache_free(isc);
}
