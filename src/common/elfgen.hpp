// Generated ELF files.
#pragma once
#include "mon.hpp"
#include <elf.h>
#include <algorithm>
#include <cstddef>

struct Seg { uint32_t type; uint64_t vaddr, memsz; Bytes data; uint64_t off = 0; };
inline Bytes mkelf(Rng &r, bool w64, std::vector<Seg> &segs, uint64_t *phoff = nullptr)
{
	size_t eh = w64 ? sizeof(Elf64_Ehdr) : sizeof(Elf32_Ehdr), ph = w64 ? sizeof(Elf64_Phdr) : sizeof(Elf32_Phdr);
	Bytes f(eh); bool first = r.chance(60); size_t pho = 0;
	auto junk = [&](size_t n) { while (n--) f.push_back((uint8_t) r.next()); };
	if (r.chance(40)) junk(r.below(80));
	if (first) { pho = f.size(); f.resize(f.size() + ph * segs.size()); }
	std::vector<size_t> ord; for (size_t i = 0; i < segs.size(); ++i) ord.push_back(i);
	for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
	for (size_t i : ord) { if (r.chance(50)) junk(r.below(100)); segs[i].off = f.size(); f.insert(f.end(), segs[i].data.begin(), segs[i].data.end()); }
	if (!first) { if (r.chance(50)) junk(r.below(30)); pho = f.size(); f.resize(f.size() + ph * segs.size()); }
	if (r.chance(30)) junk(r.below(100));
	if (phoff) *phoff = pho;
	memcpy(&f[0], ELFMAG, 4); f[EI_CLASS] = w64 ? ELFCLASS64 : ELFCLASS32; f[EI_DATA] = ELFDATA2LSB; f[EI_VERSION] = 1;
	auto fill = [&](auto *e) {
		e->e_type = (Elf64_Half) r.range(1, 4); e->e_machine = w64 ? EM_X86_64 : EM_386; e->e_version = 1; e->e_entry = (decltype(e->e_entry)) r.next(); e->e_phoff = (decltype(e->e_phoff)) pho; e->e_shoff = 0;
		e->e_ehsize = (Elf64_Half) eh; e->e_phentsize = (Elf64_Half) ph; e->e_phnum = (Elf64_Half) segs.size(); e->e_shentsize = 0; e->e_shnum = 0;
	};
	auto fillp = [&](auto *q, const Seg &s) {
		q->p_type = s.type; q->p_flags = (Elf64_Word) r.below(8); q->p_vaddr = (decltype(q->p_vaddr)) s.vaddr; q->p_paddr = (decltype(q->p_paddr)) r.next();
		q->p_offset = (decltype(q->p_offset)) (s.data.empty() && r.chance(50) ? r.wide(w64 ? 64 : 32) : s.off); q->p_filesz = (decltype(q->p_filesz)) s.data.size(); q->p_memsz = (decltype(q->p_memsz)) s.memsz; q->p_align = (decltype(q->p_align)) (r.chance(50) ? 0x1000 : r.wide(20));
	};
	if (w64) { Elf64_Ehdr e; memcpy(&e, &f[0], sizeof e); fill(&e); memcpy(&f[0], &e, sizeof e); } else { Elf32_Ehdr e; memcpy(&e, &f[0], sizeof e); fill(&e); memcpy(&f[0], &e, sizeof e); }
	for (size_t i = 0; i < segs.size(); ++i) {
		if (w64) { Elf64_Phdr q; memset(&q, 0, sizeof q); fillp(&q, segs[i]); memcpy(&f[pho + i * ph], &q, ph); }
		else { Elf32_Phdr q; memset(&q, 0, sizeof q); fillp(&q, segs[i]); memcpy(&f[pho + i * ph], &q, ph); }
	}
	return f;
}
