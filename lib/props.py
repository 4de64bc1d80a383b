"""Which harnesses decide which property, with what budgets."""
import os
HARNESS = {}
PROPS = {}
def prop(id, **meta):
    def deco(fn):
        PROPS[id] = (fn, meta)
        return fn
    return deco
TECH = {
    'C01': 'hostile-input stress under ASan/UBSan and memcheck with guard pages, return-code, offset and progress monitors; coverage-guided (libFuzzer) in the thorough tier',
    'C02': 'hostile-input stress over arbitrary code images under ASan/UBSan and memcheck with guard pages, stack, return-code and progress monitors; coverage-guided (libFuzzer) in the thorough tier',
    'C03': 'online monitor: encode/decode round trip compared field by field under ASan/UBSan',
    'C04': 'online monitor: whole-buffer comparison with an independent encoder, canaries and guard pages, ASan/UBSan',
    'C05': 'online monitor: differential comparison with an independent packet decoder, guard pages, ASan/UBSan',
    'C06': 'online monitor: reference scan of the buffer against recorded synchronization histories, ASan/UBSan',
    'C07': 'online differential monitor: transcripts of fresh decoders and of decoders with an arbitrary past under different heap and stack contents, ASan/UBSan; memcheck definedness of every reported value',
    'C08': 'online monitor: generated packet scenarios with their event ground truth, compared event by event, ASan/UBSan',
    'C09': 'online monitor: branch and event queries against the recorded outcomes of generated traces, including refused queries and status bits, ASan/UBSan',
    'C10': 'online monitor: simulated machine clock emitting timing packets, reported times compared with the true time of the last usable packet, ASan/UBSan',
    'C11': 'online monitor: generated programs run on a simulated machine that writes the trace; decoder output compared instruction by instruction and event by event with the recorded execution, ASan/UBSan',
    'C12': 'online monitor: blocks expanded over the recorded execution of generated programs, all option and cache states, ASan/UBSan',
    'C14': 'online monitor: histories of image operations replayed on an interval-map model; every instruction and block decoded from the image compared byte by byte, ASan/UBSan',
    'C15': 'online monitor: cache histories against a model of the files, mappings counted by interposed mmap/munmap, mapping failures injected, ASan/UBSan',
    'C19': 'online monitor: records written and read compared with an independent encoder, conversions with exact arithmetic, exact-size buffers under ASan/UBSan',
    'C21': 'online differential monitor: lockstep twin decoders with every stated structure size in exact-size heap blocks (ASan red zones as canaries), UBSan',
    'C17': 'online monitor: scripted sideband decoders whose callbacks check every call against the session contract; context reference counts; allocations interposed; ASan/UBSan',
    'C18': 'online monitor: generated perf sideband files applied by the real session; installed image, its decoded contents and all process contexts compared with a process model after every event, ASan/UBSan',
    'C28': 'online monitor: text printed for and notifications sent about generated sideband records compared with an independent formatter and the process model, ASan/UBSan',
    'C29': 'offline monitor: complete output of the flow dumper (built with a stand-in for Intel XED) on generated programs, traces, ELF, raw and sideband files compared with the recorded execution, ASan/UBSan',
    'C30': 'online monitor: memory image after loading generated and real ELF files, read through both decoders and the section cache, against a model of the program headers, ASan/UBSan/LSan',
    'C22': 'fault injection: interposed allocations, mappings and file operations fail at chosen points of random call histories; results against models, resource accounting, ASan/UBSan',
    'C24': 'online monitor: file, image, cache and decoder histories against versions of the files; every allocation, mapping, stream and descriptor interposed, ASan/UBSan',
    'C16': 'race detection and stress: ThreadSanitizer (races, lock order) and ASan under injected delays at every lock, allocation and mapping; results of every thread against models, lock order log',
    'C26': 'online monitor: the tool (ASan/UBSan build) run on generated files, its printed range compared with an independent scan',
    'C20': 'online monitor: the tool (ASan/UBSan build) run on generated and damaged traces, every printed line compared with an independent packet model, an IP reconstruction and the library\'s times',
    'C25': 'online monitor: the tool (ASan/UBSan build) run on generated .ptt files, every output file compared with an independent packet, label and sideband model; bad directives must be refused',
    'C13': 'online monitor: length, class, targets and event binding of instructions observed through the flow decoders against what two independent disassemblers (libopcodes, LLVM) agree about, plus metamorphic rules for truncation and prefixes; ASan/UBSan',
    'C27': 'online monitor: the errata table, address filters and every erratum workaround observed through the decoders on traces with and without the defect, with and without the erratum configured, against a model; ASan/UBSan',
    'C23': 'online differential monitor: re-synchronizing decode loops over damaged traces; every sync point checked against a scan of the buffer, every intact segment against the undamaged trace, ASan/UBSan',
}
NOTE = {}
ALLOCMON = ['-Wl,--wrap=' + w for w in 'malloc calloc realloc free strdup mmap munmap fopen fdopen fclose open close'.split()]
PSB = bytes([2, 0x82] * 8)
FUZZSEEDS = [bytes(9) + bytes([0x5f]) + bytes([0x90] * 90) + bytes([0x74, 0, 0xff, 0xe0, 0xc3]) + PSB + bytes([0x99, 1, 0x7d, 0, 0x10, 0, 0, 0, 0, 2, 0x23, 6, 0x2d, 0x5f, 0x10]),
             bytes(9) + PSB + bytes([0x19, 1, 2, 3, 4, 5, 6, 7, 0x99, 1, 0x7d, 0, 0x10, 0, 0, 0, 0, 2, 0x23, 6, 0x2d, 0x5f, 0x10, 2, 0xf3, 0x3d, 1, 0x10])]
def n(c, quick, thorough): return thorough if c.thorough() else quick

@prop('C01', rule='Case: random, structured or mutated trace bytes, hostile configuration (errata, cpu, frequencies, flags, filters, callback), decoded by the packet, event or query '
      'decoder with re-synchronization, wrong and repeated calls. Non-trivial: distinct (decoder, error code, preceding item, bytes at the error).',
      require=('pkt_steps', 'evt_steps', 'qry_steps', 'resyncs'))
def c01(c):
    c.harness('c01_hostile', 'asan', n(c, 150000, 4000000))
    c.harness('c01_hostile', 'vg', n(c, 800, 20000), casetime=120)
    c.fuzz('fuzz_dec', n(c, 40000, 20000000), seeds=FUZZSEEDS)


@prop('C02', rule='Case: arbitrary or mutated code image (any address, overlapping, loops, callbacks) with packet soup or mutated program trace, hostile configuration and flags, decoded by the '
      'instruction or block decoder with re-synchronization, wrong and repeated calls and image changes. Non-trivial: distinct (decoder, error code, preceding item, bytes at the error).',
      require=('insn_steps', 'blk_steps', 'resyncs', 'bounded_cases', 'image_changes', 'long_runs'))
def c02(c):
    c.harness('c02_hostile', 'asan', n(c, 50000, 3000000))
    c.harness('c02_hostile', 'vg', n(c, 500, 20000), casetime=120)
    c.fuzz('fuzz_dec', n(c, 40000, 20000000), env={'FUZZ_FLOW': '1'}, seeds=FUZZSEEDS)


@prop('C03', rule='Case: random sequence of 1..40 valid packets, boundary-rich payloads, encoded back to back into an exact-size buffer and decoded again. '
      'Non-trivial: a distinct (packet type, payload) that was round-tripped and compared.',
      require=('packets_roundtripped',) )
def c03(c): c.harness('c03_roundtrip', 'asan', n(c, 300000, 6000000))

@prop('C04', rule='Case: 3..40 encode/reposition operations on a small canary- or guard-page-framed buffer, valid, over-wide and invalid packets at every amount of '
      'remaining space; whole buffer compared with an independent encoding after every operation. Non-trivial: distinct accepted byte encoding, or distinct refusal.',
      require=('buffer_comparisons', 'invalid_packets', 'no_space'))
def c04(c): c.harness('c04_encoder', 'asan', n(c, 300000, 6000000))

@prop('C05', rule='Case: up to 200 bytes (random, biased to opcodes, mutated or valid packets), cut anywhere, decoded packet by packet by the library and by an independent '
      'decoder; on failure continued one byte later. Non-trivial: distinct accepted byte string, or distinct rejected prefix and distance to the end.',
      require=('packets_compared', 'fail_eos', 'fail_opcode', 'fail_packet', 'callback_cases'))
def c05(c): c.harness('c05_pktdec', 'asan', n(c, 300000, 6000000))

@prop('C06', rule='Case: buffer with PSB patterns whole, partial, over-long, abutting and at every alignment between junk or in well-formed segments; random forward, '
      'backward and explicit synchronization and decode steps on one of the five decoders, every reached offset compared with a scan of the buffer, and full enumerations both ways. '
      'Non-trivial: distinct (buffer, direction or decoder, sync point reached).',
      require=('forward_ok', 'forward_eos', 'backward_ok', 'backward_eos', 'flow_forward_ok', 'flow_backward_ok', 'flow_set_ok', 'flow_set_refused', 'flow_enumerations'))
def c06(c): c.harness('c06_sync', 'asan', n(c, 300000, 6000000))


@prop('C07', rule='Case: trace (program, scenario or packet soup, possibly damaged) with its image; one of the five decoders brought to a sync point fresh and after a random past (syncs both ways, '
      'steps, wrong calls, errors) with other heap and stack contents; everything reported from there compared. Non-trivial: distinct reference transcript.',
      require=('transcripts_compared', 'with_errors', 'by_forward', 'by_backward', 'by_set', 'pkt_cases', 'evt_cases', 'qry_cases', 'insn_cases', 'blk_cases'))
def c07(c):
    c.harness('c07_history', 'asan', n(c, 40000, 2000000), ldflags=['-Wl,--wrap=malloc'])
    c.harness('c07_history', 'vg', n(c, 500, 10000), ldflags=['-Wl,--wrap=malloc'], cxxflags=['-DNOFILL'], casetime=120)


@prop('C08', rule='Case: well-formed packet sequence of up to 40 scenario steps (all packet kinds, bindings, compressions, PSB+, overflows) with the events it describes; '
      'event or query decoder output compared event by event including times. Non-trivial: distinct (event type, flags, four preceding packet kinds with compression).',
      require=('events_compared', 'ev:async_branch', 'ev:overflow', 'ev:vmexit', 'ev:trig', 'ev:async_vmcs/ipsup'))
def c08(c): c.harness('c08_events', 'asan', n(c, 300000, 6000000))


@prop('C09', rule='Case: well-formed packet sequence; random right, wrong and deferred queries, every outcome, status bit, output parameter and time compared with what was recorded. '
      'Non-trivial: distinct (query kind, result, packets around the item, number of bits left).',
      require=('branches', 'indirect', 'deferred_indirect', 'events', 'refused', 'time_queries'))
def c09(c): c.harness('c09_queries', 'asan', n(c, 300000, 6000000))


@prop('C10', rule='Case: simulated clock (random TSC/crystal/core ratios, MTC period, TSC/TMA/MTC/CYC/CBR mixes, dropped MTC, frequency changes, PSB+) with marker events; every marker time, '
      'core:bus ratio and loss counter compared with the clock. Non-trivial: distinct (packet mix, anchor, reported time).',
      require=('times_compared', 'exact:mtc', 'exact:mtccyc', 'tracked:mtc', 'tracked:cyc', 'tracked:mtccyc', 'no_time', 'lost_zero', 'cbr_queries', 'sleeps', 'overflows', 'near_wrap', 'self_calibrated', 'tma_aligned'))
def c10(c): c.harness('c10_time', 'asan', n(c, 500000, 8000000))


@prop('C11', rule='Case: generated program (kernel/user/32/16-bit regions, several address spaces, file/cached/callback pieces with decoys and splits) executed by a simulated machine that '
      'writes the trace; every instruction and event from any PSB on compared with the execution. Non-trivial: distinct (preceding kind, instruction kind, mode, size, truncation, speculation) '
      'or (event kind, flags, instruction kinds around it).',
      require=('insns_compared', 'speculative', 'truncated', 'programs', 'resync_programs', 'ev:overflow', 'ev:async_branch', 'ev:enabled', 'ev:paging', 'ev:exec_mode', 'deep_recursions'))
def c11(c): c.harness('c11_insn', 'asan', n(c, 60000, 1500000))


@prop('C12', rule='Case: generated program and trace as for C11, decoded 1..4 times by block decoders with varying end-of-block options sharing image and block cache, from any PSB on; '
      'blocks expanded over the execution, events compared in place. Non-trivial: distinct (block length, class, first instruction kind, truncation, mode, options, cache state).',
      require=('insns_compared', 'events_compared', 'truncated', 'programs', 'blocks', 'call_inside', 'jump_inside', 'runs:call1,jump1,warm1', 'runs:call0,jump1,warm1', 'deep_recursions'))
def c12(c): c.harness('c12_block', 'asan', n(c, 60000, 1500000))


@prop('C14', rule='Case: 5..60 operations on 1..3 images (add file or cached section, remove by name or address space, copy, callbacks) interleaved with up to four instruction or block decoders walking '
      'the code; or code at one address in up to nine address spaces that a trace switches between; bytes, section ids, truncation, errors and callback requests against an interval-map model. Non-trivial: distinct (walk, image state, place it ended).',
      require=('insns', 'blk_insns', 'truncated', 'cached_insns', 'callback_reads', 'copies', 'removed_by_name', 'removed_by_asid', 'steps_after_change', 'top_of_space', 'switch_cr3', 'switch_vmcs', 'switch_insns', 'switch_blk_insns'))
def c14(c): c.harness('c14_image', 'asan', n(c, 60000, 2000000))


@prop('C15', rule='Case: 4..300 operations on one section cache (add, read, limit, unknown identifiers, sharing with two images whose code is decoded, freeing the cache first), files around page sizes, beyond '
      '64 KB and beyond 2 GB, optionally failing file mappings; identifiers, bytes, errors and mapped bytes against a model. Non-trivial: distinct read history.',
      require=('reads', 'reads_file_based', 'short_reads', 'same_again', 'shared', 'walks', 'cache_freed_early', 'kept_mapped', 'mmap_failures'))
def c15(c): c.harness('c15_iscache', 'asan', n(c, 60000, 2000000), ldflags=['-Wl,--wrap=mmap', '-Wl,--wrap=munmap'])


@prop('C23', rule='Case: program or scenario trace in which a range of segments is removed, truncated, overwritten, patched or mutated; a sync-on-error decode loop on one of the five decoders; '
      'every sync point against a scan of the buffer, every intact segment (outputs, times, offsets) against the undamaged trace. Non-trivial: distinct intact segment transcript.',
      require=('segments_compared', 'pkt_after_error', 'evt_after_error', 'qry_after_error', 'insn_after_error', 'blk_after_error'))
def c23(c): c.harness('c23_damage', 'asan', n(c, 40000, 1500000))


@prop('C21', rule='Case: trace (program, scenario or packet soup, possibly damaged); one of the five decoders driven twice in lockstep, once with full-size structures, once with structures of any smaller or larger '
      'stated size in heap blocks of exactly that size, and with a configuration of any size; results, prefixes and zeroed rests compared; short and long address space identifiers given to images. '
      'Non-trivial: distinct (function, size, result, content).',
      require=tuple('%s:%s' % (k, f) for k in ('smaller', 'larger', 'same') for f in ('pkt_next', 'evt_next', 'qry_event', 'insn_event', 'insn_next', 'blk_event', 'blk_next')) +
      ('configs_refused', 'configs_smaller', 'configs_larger', 'refused_sizes', 'asids', 'asid_removals', 'ticks'))
def c21(c): c.harness('c21_sizes', 'asan', n(c, 40000, 1500000))


@prop('C26', rule='Case: file with PSB patterns whole, partial, abutting and cut between junk and packets; the tool run for offsets at, in, right before and after PSB packets and anywhere, in every number format; '
      'printed range against a scan; malformed arguments. Non-trivial: distinct (file, offset).',
      require=('segments', 'at_psb', 'inside_psb', 'first', 'last', 'malformed'))
def c26(c): c.harness('c26_ptseg', 'asan', n(c, 2500, 60000), tools=('ptseg',))


@prop('C20', rule='Case: well-formed timing traces, packet soup, mutated and cut traces between PSB packets; random options, time configuration and file range; every line of the output compared '
      'with an independent decode; malformed arguments. Non-trivial: distinct packet bytes shown.',
      require=('rows', 'errors', 'resyncs', 'truncated', 'ips_checked', 'times_checked', 'unavailable_checked', 'ratios_checked', 'time_messages', 'malformed', 'sideband_records', 'sideband_timed'))
def c20(c): c.harness('c20_ptdump', 'asan', n(c, 16000, 150000), tools=('ptdump',))

@prop('C25', rule='Case: a .ptt file with labels, macros, sections, data, trace and sideband directives in random notation and substituted expectations, possibly with one bad directive, reference or argument; '
      'trace, sideband and expectation files and their names against an independent model; bad files refused at the right line. Non-trivial: distinct output file or refusal.',
      require=('traces', 'refused_directive', 'refused_exp', 'refused_asm', 'expectations', 'sidebands', 'macros', 'macro_uses', 'own_line_labels', 'long_opcodes', 'sections', 'behind_insn', 'subst', 'subst_masked', 'subst_cut',
               'subst_packet', 'bad_arguments', 'sb_reopened', 'sb:raw', 'sb:sample_type', 'sb:mmap-section'))
def c25(c): c.harness('c25_pttc', 'asan', n(c, 16000, 200000), tools=('pttc',))


@prop('C13', rule='Case: 64 instructions: any prefixes, opcode map (legacy, VEX, EVEX, REX2), opcode and operands in 16, 32 and 64-bit mode at any address, with memory that ends inside or behind, is read in two pieces, redundant prefixes, '
      'branches followed in both directions and bound events. Oracle: what libopcodes and LLVM agree about. Non-trivial: distinct (mode, prefixes, opcode, ModRM).',
      require=tuple('agreed:%d' % x for x in (16, 32, 64)) + tuple('space:' + x for x in ('map0', '0f', 'vex', 'evex', 'rex2')) + tuple('class:' + x for x in ('other', 'ptwrite', 'call', 'jump', 'cond', 'ret', 'far_call', 'far_ret', 'far_jump')) +
      ('memory_ends_behind', 'memory_ends_inside', 'split', 'too_long', 'prefixed', 'targets', 'wrapped', 'not_taken', 'blocks', 'bound:0', 'bound:1', 'bound:2', 'bound:3', 'not_bound'))
def c13(c):
    c.harness('c13_ild', 'asan', n(c, 32000, 3000000), cxxflags=['-I/usr/lib/llvm-18/include'], ldflags=['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lopcodes', '-lbfd'])


@prop('C27', rule='Case: all models of a family against the documented errata; a trace that shows (or resembles) one erratum decoded with and without it being configured at packet, event or flow level; code with filtered branch '
      'targets and boundary ranges; well-formed traces with random errata; processors given as text. Non-trivial: distinct trace or text.',
      require=('table_known', 'table_unknown', 'text_good', 'text_refused', 'healthy_events', 'packets_compared', 'skz84ev_applied', 'skl014_cr3', 'skl014_off') + tuple(x + y for x in ('bdm70', 'bdm64', 'skd007', 'skd010', 'skd022', 'apl11', 'apl12', 'skl168', 'skz84') for y in ('_applied', '_healthy')) + ('skl014_applied',))
def c27(c): c.harness('c27_config', 'asan', n(c, 400000, 20000000), c_src=('libipt/src/pt_cpu.c',))


@prop('C19', rule='Case: (a) records of all kinds with random payloads, strings and samples written into buffers of every size and read back in sequence and truncated, (b) arbitrary and mutated record bytes in '
      'exact-size buffers, (c) time conversions; against an independent encoder and exact arithmetic. Non-trivial: distinct record bytes, refusal or conversion.',
      require=('written', 'read_back', 'truncated', 'refused_space', 'refused_samples', 'refused_big', 'accepted_arbitrary', 'rejected:3', 'rejected:5', 'conversions', 'times') + tuple('type:' + t for t in ('mmap', 'comm', 'mmap2', 'switch', 'aux')))
def c19(c): c.harness('c19_pevent', 'asanna', n(c, 300000, 6000000))


@prop('C17', rule='Case: 0..10 scripted decoders (sorted, tied and unsorted record times, failing or missing callbacks, late additions), 1..25 events of any time and size, dumps and context operations; every callback '
      'checked online, resources at the end. Non-trivial: distinct callback sequence of a session so far.',
      require=('applied', 'observed_active', 'observed_retired', 'retired', 'apply_failures', 'observe_failures', 'fetch_failures', 'print_failures', 'init_failures', 'silent_removals', 'image_changes', 'short_events',
               'dumps', 'contexts_removed', 'contexts_outliving', 'ref_overflows', 'switches'))
def c17(c):
    c.harness('c17_session', 'asan', n(c, 200000, 8000000), ldflags=ALLOCMON)
    c.harness('c18_perf', 'asanna', n(c, 15000, 1000000), ldflags=ALLOCMON)	# reports resource leaks


@prop('C18', rule='Case: 1..3 perf sideband files (0..30 records each: mmap, mmap2, fork, exec, switches, trace starts, losses, unknown, malformed; sample layouts, time conversion and offsets, sysroot, vdso, sub-ranges) and 1..30 trace '
      'events of all kinds; installed image, its content and all process contexts against a process model after every event. Non-trivial: distinct (locations, pending switches, process images) state.',
      require=('switches', 'postponed', 'suppressed_runs', 'switch_to_current', 'exec_of_installed', 'forked_from_known', 'mapped', 'mapped_into_installed', 'vdso_mapped', 'vdso_missing', 'kernel_mmap', 'map_missing', 'probes_mapped', 'probes_unmapped',
               'switch_refused', 'malformed', 'removed_by_notifier'))
def c18(c): c.harness('c18_perf', 'asanna', n(c, 80000, 3000000), ldflags=ALLOCMON)


@prop('C24', rule='Case: 5..50 operations: files added to images and a cache, copied, shared, read, decoded, changed in time or size, replaced, deleted and restored, mapped or file based; users freed in any order. Reads against file versions, '
      'resources against what is interposed. Non-trivial: distinct read history.',
      require=('added', 'cached', 'shared_in_cache', 'stale_detected', 'stale_detected_by_decoder', 'reads_of_kept_mapping', 'changed_time_only', 'changed_size_only', 'changed_in_place', 'deleted', 'cache_freed_first', 'images_freed',
               'image_freed_before_decoder', 'nothing_mapped', 'copies', 'unsuitable'))
def c24(c): c.harness('c24_life', 'asan', n(c, 36000, 2000000), ldflags=ALLOCMON)


@prop('C22', rule='Case: 5..50 calls on images, a cache and decoders, each with a failing allocation, mapping, open or stream at a random point (once or from there on), then use of all objects and the same decoder with memory available; '
      'sessions of C18 with failures at random points. Contents against models, resources against what is interposed. Non-trivial: distinct history up to a failure.',
      require=('injected', 'verified_walks', 'verified_reads', 'walk_failed', 'walk_continued', 'decoder_reused', 'partial_copies') + tuple('injected:' + x for x in ('pt_iscache_alloc', 'pt_image_alloc', 'pt_image_add_file',
               'pt_iscache_add_file', 'pt_image_add_cached', 'pt_image_copy', 'pt_iscache_read', 'pt_blk_next', 'pt_insn_next', 'pt_pkt_alloc_decoder', 'pt_evt_alloc_decoder', 'pt_qry_alloc_decoder', 'pt_insn_alloc_decoder',
               'pt_blk_alloc_decoder', 'pt_alloc_encoder')) + tuple('failed:' + x for x in ('malloc', 'realloc', 'strdup', 'mmap', 'open', 'fdopen')))
def c22(c):
    c.harness('c22_oom', 'asan', n(c, 100000, 3000000), ldflags=ALLOCMON)
    c.harness('c18_perf', 'asanna', n(c, 25000, 1000000), ldflags=ALLOCMON)


@prop('C16', rule='Case: 2..6 threads with own images and decoders, 5..40 operations each (add, read, limit, share, copy, also from a common master image, remove, free, decode by instruction and by block) on one section cache under '
      'random delays around every lock, allocation and mapping; TSan and ASan; bytes, decoded code, identifiers, mapped sizes and resources against models. Non-trivial: distinct order of lock acquisitions by the threads.',
      require=('adds', 'reads', 'limits', 'shared', 'master_copies', 'insns', 'blk_insns', 'cached_insns', 'freed', 'contended', 'thread_switches', 'mappings', 'file_based', 'continued_elsewhere', 'kept_mapped'))
def c16(c):
    ld = ALLOCMON + ['-Wl,--wrap=' + w for w in 'pthread_mutex_lock pthread_mutex_unlock mtx_init mtx_destroy mtx_lock mtx_trylock mtx_unlock'.split()]
    c.harness('c16_threads', 'tsan', n(c, 6000, 500000), shards=4, ldflags=ld, casetime=600, timeout=420)
    c.harness('c16_threads', 'asan', n(c, 6000, 500000), shards=4, ldflags=ld, casetime=600, timeout=420)


@prop('C28', rule='Case: sessions as for C18, printed with every flag combination during events or dumped; text against an independent formatter, every notification (kind, file, offset) against the model. '
      'Non-trivial: distinct printed text.',
      require=('texts', 'notifications', 'dumped', 'lost:1', 'lost:2', 'lost:3', 'malformed', 'record_errors'))
def c28(c): c.harness('c18_perf', 'asanna', n(c, 60000, 3000000), ldflags=ALLOCMON)


FAKEXED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'src', 'fakexed')
@prop('C29', rule='Case: generated program and trace (or a damaged one), code given as raw and ELF files or by perf sideband and a kernel core, random options; every line the tool prints compared with the recorded execution; '
      'malformed arguments. Non-trivial: distinct output.',
      require=('runs', 'insn_runs', 'block_runs', 'true_runs', 'sideband_runs', 'with_errors', 'checks_silent', 'lies:1', 'lies:2', 'lies:3', 'truncated_lies', 'stats', 'quiet', 'verbose', 'ticks', 'cpus', 'filters', 'raw_insns', 'sb_text', 'show_blocks',
               'secondary', 'late_conf', 'elf32', 'elf64', 'elf32_relocated', 'elf64_relocated', 'elf_refused', 'malformed', 'raw_style:0', 'raw_style:1', 'raw_style:2', 'ev:tick', 'ev:async_branch', 'ev:overflow'))
def c29(c):
    c.harness('c29_ptxed', 'asanna', n(c, 16000, 200000), tools=('ptxed',), extra_src=('fakexed/fakexed.c',), cxxflags=['-I' + FAKEXED, '-x', 'c++', '-Wno-deprecated'], ldflags=['-lopcodes', '-lbfd'])


@prop('C30', rule='Case: one to four generated ELF files of both classes with 0..6 program headers, loaded at their addresses or relocated into one image, the files of this system, or a damaged file; every byte reached by instruction, '
      'by block and through the cache against a model of the program headers. Non-trivial: distinct set of headers.',
      require=('segments', 'loaded32', 'loaded64', 'relocated32', 'relocated64', 'several_segments', 'truncated_segments', 'unloadable_segments', 'nothing_to_load', 'top_of_space', 'unmapped_probes', 'probed_insns', 'cache_reads', 'walks',
               'insns', 'blk_insns', 'real64', 'damaged_refused', 'damaged_readable'))
def c30(c): c.harness('c30_elf', 'asan', n(c, 120000, 4000000), c_src=('ptxed/src/load_elf.c',))
