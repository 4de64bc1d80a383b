#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth is this table)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

L = 'libipt/src/'
p('C01', 'Arbitrary trace bytes are safe to decode into packets, events and queries',
  'For every trace buffer and every decoder configuration, synchronizing and decoding with the packet, event and query decoders never reads outside the buffer, never invokes undefined behaviour, never crashes and always terminates. Every call returns success or status bits, or one of the documented negative error codes, and every offset it reports lies inside the buffer.',
  ['inputs', 'configurations'], 'All byte strings as trace, all combinations of decoder flags, CPU errata and timing parameters, and all sequences of synchronization and decode calls.',
  'Unit tests feed well-formed packets and a few truncations; they cannot sample the space of malformed, truncated and adversarial byte strings and call orders.',
  [L+'pt_packet.c', L+'pt_packet_decoder.c', L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_sync.c', L+'pt_time.c', L+'pt_event_queue.c', L+'pt_tnt_cache.c'],
  [('per-packet end-of-buffer checks', L+'pt_packet.c'), ('opcode dispatch', L+'pt_packet_decoder.c'), ('bounded event queue', L+'pt_event_queue.c'), ('shift-range checks in time tracking', L+'pt_time.c')],
  ['public packet/event/query decoder API under ASan+UBSan, guard pages and call budgets'])
p('C02', 'Arbitrary traces and code images are safe for the flow decoders',
  'For every trace buffer, every memory image content and every flag combination, the instruction flow and block decoders never access memory out of bounds, never invoke undefined behaviour, never crash or exhaust the stack, and always terminate. Every call returns success or status bits or a documented negative error code, and decoding a finite trace reaches its end or an error after a finite number of instructions or blocks for finite straight-line code.',
  ['inputs', 'programs', 'configurations'], 'All byte strings as trace and as code, any image layout (sections, callbacks, short reads), any interleaving of next/event/asid/time calls.',
  'The instruction and block decoders have only argument-checking unit tests here; no existing test decodes code with them at all.',
  [L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_insn.c', L+'pt_ild.c', L+'pt_block_cache.c', L+'pt_msec_cache.c', L+'pt_retstack.c', L+'pt_section.c'],
  [('instruction length decode bounds', L+'pt_ild.c'), ('block proceed loops', L+'pt_block_decoder.c'), ('bounded instruction steps to an event', L+'pt_insn.c')],
  ['public instruction/block decoder API under ASan+UBSan with call budgets and a bounded stack'])
p('C03', 'Every packet survives an encode/decode round trip',
  'Encoding any valid packet and decoding the resulting bytes yields the same packet type, the same payload and the same size, and the decoder consumes exactly the bytes the encoder reported having written. This holds for every packet type, every payload value and any sequence of packets written back to back.',
  ['inputs'], 'All packet types, all payload values including every IP compression, all packet sequences.',
  'Unit tests round-trip a few constants per packet type; masks, shifts and size boundaries fail only for particular payload bits.',
  [L+'pt_encoder.c', L+'pt_packet.c', L+'pt_packet_decoder.c'],
  [('packet encoders', L+'pt_encoder.c pt_enc_next'), ('packet readers', L+'pt_packet.c pt_pkt_read_*')],
  ['pt_enc_next / pt_pkt_next results and the bytes between'])
p('C04', 'The encoder writes exactly what it reports and refuses cleanly',
  'An accepted packet is written as exactly its architectural byte encoding, at the current offset and inside the configured buffer; the returned size, the advance of the offset and the bytes changed all agree. A packet that is refused, because it is invalid, unknown or does not fit, yields a negative error code, leaves the offset where it was and changes no byte of the buffer or outside of it.',
  ['inputs', 'histories'], 'All packets, valid or not, for every amount of remaining space and every sequence of encode and reposition calls.',
  'Unit tests check a handful of cut-off points per packet type and never compare bytes against an independent encoding for the full payload range.',
  [L+'pt_encoder.c'], [('space reservation', L+'pt_encoder.c pt_reserve'), ('packet encoders', L+'pt_encoder.c pt_enc_next')],
  ['encode return value, offset, whole buffer with canaries'])
p('C05', 'The packet decoder implements the Intel PT wire format on any bytes',
  'For any bytes at any position, the packet decoder returns precisely the packet type, payload and size that the Intel PT format assigns to those bytes and advances by exactly that size. Bytes cut off by the end of the buffer yield end-of-stream, encodings the format does not assign are rejected with an opcode or packet error (or handed to the user callback for unknown opcodes), and a failing call does not move the decoder.',
  ['inputs'], 'All byte strings, every start position, every distance to the end of the buffer.',
  'Round-trip tests cannot see an error made symmetrically in encoder and decoder, and no test decodes bytes the encoder would not produce.',
  [L+'pt_packet.c', L+'pt_packet_decoder.c', 'libipt/internal/include/pt_opcodes.h'],
  [('opcode dispatch', L+'pt_packet_decoder.c pt_pkt_next'), ('payload readers', L+'pt_packet.c')],
  ['pt_pkt_next, pt_pkt_get_offset against an independently written decoder'])
p('C06', 'Synchronization visits exactly the PSB packets, in order, both ways',
  'Repeated forward synchronization visits every PSB packet in the buffer once, in increasing order, repeated backward synchronization visits every one once in decreasing order, and both end with end-of-stream; no other position is ever reported as synchronization point. (Of several PSB packets directly abutting each other only the last one counts.) After an explicit positioning or a successful synchronization, the reported offsets name that position, for each of the packet, event, query, instruction and block decoders.',
  ['inputs', 'histories'], 'All buffers, with PSB patterns at any alignment, adjacent, repeated, partial or embedded; all sequences of forward, backward and explicit synchronization.',
  'Tests synchronize on a few hand-placed PSBs; the search works on chunks and alignment, so errors depend on placement and neighbourhood.',
  [L+'pt_sync.c', L+'pt_packet_decoder.c', L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
  [('chunked PSB search', L+'pt_sync.c'), ('sync point bookkeeping', L+'pt_packet_decoder.c')],
  ['sync return values, get_offset and get_sync_offset'])
p('C07', 'Decoding from a sync point does not depend on decoder history',
  'What any decoder reports from a synchronization point onwards (packets, events, branches, instructions, blocks, times, statuses, errors) is the same whether the decoder is fresh or was used before, however it reached the point, what happened before (including errors), and whatever memory contents the allocator returned. Segments of a trace can therefore be decoded independently and in any order.',
  ['histories', 'inputs'], 'All prior call histories on the same decoder, all traces with several sync points, all allocator memory contents.',
  'Each unit test uses a fresh decoder on zeroed or luckily initialized memory and a single pass.',
  [L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_packet_decoder.c', L+'pt_time.c'],
  [('decoder reset on synchronization', L+'pt_*_decoder.c *_reset / *_start')],
  ['complete API output logs of twin decoders compared'])
p('C08', 'Every traced event is reported once, in order, with the right data',
  'For a well-formed trace, the event decoder and the query decoder report every architectural event the packets describe exactly once, in trace order, with its correct type, addresses, payload fields, suppression and status-update flags, and none that is not there. Addresses are reconstructed exactly whatever compression was used, and events whose packets must be combined (mode, paging, transaction, power, interrupt, trigger, overflow and enable or disable sequences) are bound to the address packet that belongs to them.',
  ['inputs', 'configurations'], 'All well-formed packet sequences: any mix of event groups, compression choices, PSB+ placements, overflows, errata and decoder flags.',
  'Event binding depends on combinations of pending packets; unit tests enumerate isolated pairs, not mixtures in arbitrary order with arbitrary compression.',
  [L+'pt_event_decoder.c', L+'pt_event_queue.c', L+'pt_query_decoder.c', L+'pt_last_ip.c'],
  [('event binding queues', L+'pt_event_queue.c'), ('packet handlers', L+'pt_event_decoder.c'), ('last-ip reconstruction', L+'pt_last_ip.c')],
  ['pt_evt_next and pt_qry_event streams against the generator\'s ground truth'])
p('C09', 'The query decoder returns exactly the recorded branch outcomes',
  'Queries for conditional and indirect branches return the recorded taken/not-taken bits and targets completely and in order, however they were grouped into packets, and interleave with events at the positions they were recorded. A query for the wrong kind of branch is refused without consuming anything, and the status bits correctly announce pending events, suppressed addresses and the end of the trace.',
  ['inputs', 'histories'], 'All sequences of branch outcomes, groupings into short and long packets, event placements and legal query orders.',
  'Unit tests query after single packets; packing of up to 47 bits and interleaving with events, synchronization headers and overflows is unsampled.',
  [L+'pt_query_decoder.c', L+'pt_tnt_cache.c', L+'pt_event_decoder.c'],
  [('TNT cache', L+'pt_tnt_cache.c'), ('query proceed', L+'pt_query_decoder.c')],
  ['pt_qry_cond_branch, pt_qry_indirect_branch, pt_qry_event, status bits'])
p('C10', 'Reported times follow the traced clock',
  'Times reported with events and by time queries equal the timestamp packets exactly where one was just seen and otherwise track the true clock within the resolution of the timing packets that were sent, never running backwards against a later timestamp that is consistent with them. Core:bus ratio is the one most recently traced, lost-packet counters stay zero when every timing packet could be used, and before the first timestamp the time query says that there is no time.',
  ['inputs', 'configurations'], 'All clock ratios, MTC frequencies and nominal frequencies, all placements and losses of TSC, TMA, MTC, CYC and CBR packets.',
  'Unit tests check single update steps with constants; wrap-around, calibration and accumulation over long packet sequences are not reached.',
  [L+'pt_time.c', L+'pt_event_decoder.c', L+'pt_query_decoder.c'],
  [('time estimate', L+'pt_time.c pt_time_update_*'), ('calibration', L+'pt_time.c pt_tcal_*')],
  ['event tsc fields, pt_*_time, pt_*_core_bus_ratio against a simulated clock'])
p('C11', 'Instruction flow decode reproduces the executed instructions',
  'Given the traced program\'s code, the instruction flow decoder reports exactly the sequence of instructions that were executed, each with correct address, size, bytes, class and execution mode, and every event at its correct place between them. This holds for all branch kinds, return compression, transactions, interrupts, tracing being disabled and re-enabled, address-space and mode changes and overflows.',
  ['programs', 'histories', 'configurations'], 'All programs, all executions of them with any asynchronous events, all legal packet placements and flags.',
  'No existing test decodes instruction flow end to end in this build; the flow depends on every earlier instruction, packet and event.',
  [L+'pt_insn_decoder.c', L+'pt_insn.c', L+'pt_ild.c', L+'pt_retstack.c', L+'pt_query_decoder.c', L+'pt_event_decoder.c', L+'pt_msec_cache.c'],
  [('flow proceed', L+'pt_insn_decoder.c'), ('return stack', L+'pt_retstack.c'), ('event/IP matching', L+'pt_insn_decoder.c pt_insn_check_*')],
  ['pt_insn_next / pt_insn_event stream against the simulated execution'])
p('C12', 'Block decode reports the same flow as instruction decode',
  'Expanding the blocks reported by the block decoder into instructions gives exactly the executed instruction sequence, with the same events at the same places, for every setting of its end-of-block options and whatever is already cached for the code. Each block\'s start, end, instruction count, mode, section identifier and truncation information are consistent with the code it covers.',
  ['programs', 'histories', 'configurations'], 'All programs and executions, all block flags, all block-cache states, including caches shared between decoders.',
  'There is no end-to-end block decoder test; the block cache makes results depend on what was decoded before.',
  [L+'pt_block_decoder.c', L+'pt_block_cache.c', L+'pt_section.c', L+'pt_msec_cache.c'],
  [('block cache fill and use', L+'pt_block_decoder.c pt_blk_proceed_no_event_*'), ('block cache', L+'pt_block_cache.c')],
  ['pt_blk_next / pt_blk_event stream expanded and compared with ground truth and the instruction decoder'],
  [('block cache entries', 'per section-offset shortcuts to the next decision point', L+'pt_block_cache.c')])
p('C13', 'Instructions are decoded to their architectural length and class',
  'For every valid instruction in 64-bit, 32-bit and 16-bit mode the decoder determines the architecturally defined length and the control-flow class, and for direct branches continues at the architecturally defined target. A byte sequence running past the end of the mapped memory or longer than the architectural limit is refused.',
  ['inputs'], 'All instruction encodings: prefixes, opcode maps, ModRM/SIB/displacement/immediate forms, VEX and EVEX, in all modes.',
  'The unit test covers a few dozen encodings; table entries are independent, so each can be wrong alone.',
  [L+'pt_ild.c', L+'pt_insn.c'],
  [('length decoder tables and prefix handling', L+'pt_ild.c'), ('branch target computation', L+'pt_insn.c')],
  ['instructions reported by the flow decoder against the binutils disassembler and constructed branch targets'])
p('C14', 'An image read returns what was mapped there last',
  'Reading memory through an image returns, at every address of an address space, the bytes of the file section most recently added there and not removed since, independent of access history, and falls back to the user callback only where no section is mapped. Sections added, removed, copied or split by overlap affect no other addresses and no other address space, and the reported removal counts and section identifiers match.',
  ['histories', 'inputs', 'configurations'], 'All sequences of add, remove, copy and callback operations, all overlaps and address-space combinations, all read histories.',
  'Unit tests use small fixed layouts with two or three sections and mocked files; split bookkeeping and access reordering depend on the history.',
  [L+'pt_image.c', L+'pt_msec_cache.c', L+'pt_asid.c', L+'pt_section.c', L+'pt_section_file.c', L+'posix/pt_section_posix.c', 'libipt/internal/include/pt_mapped_section.h'],
  [('overlap resolution', L+'pt_image.c pt_image_add'), ('section lookup and LRU order', L+'pt_image.c pt_image_find'), ('address-space matching', L+'pt_asid.c')],
  ['bytes, section ids and errors seen through decoders using the image, against an interval-map model'])
p('C15', 'The section cache is transparent',
  'For any history of additions, reads, limit changes and file sections shared with images, reading a cached section by its identifier returns the file\'s bytes at that place, cut at the section end, and adding the same section again yields the same identifier while different sections get different ones. Cache limits and eviction never change results, sections handed to images stay usable after the cache is gone, and unknown identifiers are refused.',
  ['histories', 'inputs'], 'All operation sequences, section sizes (including zero remaining, odd offsets and large files), limits small enough to force eviction.',
  'Unit tests exercise the cache with a mocked section and a fixed short sequence.',
  [L+'pt_image_section_cache.c', L+'pt_section.c', L+'pt_section_file.c', L+'posix/pt_section_posix.c', L+'pt_image.c'],
  [('LRU of mapped sections', L+'pt_image_section_cache.c pt_iscache_lru_*'), ('section reference counts', L+'pt_section.c')],
  ['pt_iscache_* results against a file-content model'])
p('C16', 'Decoders sharing a section cache run concurrently without interference',
  'Any number of threads that each use their own decoder and image while sharing one section cache, and that add to, read from and limit that cache concurrently, are free of data races, deadlocks and use-after-free, under every schedule. Each thread obtains exactly the results it would obtain alone.',
  ['schedules', 'histories'], 'All interleavings of concurrent add, read, limit, decode and free operations on a shared cache.',
  'The existing threaded unit tests check only final reference counts of one cache without race detection and without decoders.',
  [L+'pt_image_section_cache.c', L+'pt_section.c', L+'pt_section_file.c', L+'posix/pt_section_posix.c', L+'pt_block_cache.c', L+'pt_image.c', 'include/posix/pt_threads.h'],
  [('cache and section locks', L+'pt_image_section_cache.c, '+L+'pt_section.c'), ('attach/map lock order', L+'pt_section.c'), ('lock-free block cache entries', L+'pt_block_cache.c')],
  ['ThreadSanitizer plus per-thread result digests'])
p('C17', 'Sideband decoders are driven in time order over their whole life',
  'A sideband session applies the records of all its decoders in non-decreasing record time, each once it is due and none before, lets every decoder, also one that reached its end, observe each trace event, and lets only primary decoders change the image. A decoder that fails is dropped and destroyed exactly once while the others continue, and the end of a session destroys every remaining decoder and context exactly once.',
  ['histories', 'fault_sequences', 'inputs'], 'All sets of sideband decoders with any record times, any error or end points, any sequence of trace events.',
  'The sideband library has no tests of its own.',
  ['sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_context.c', 'sideband/include/libipt-sb.h.in'],
  [('time-ordered decoder list', 'sideband/src/pt_sb_session.c pt_sb_add_decoder_by_tsc / pt_sb_event_present'), ('context reference counts', 'sideband/src/pt_sb_context.c')],
  ['instrumented fetch/apply/destroy callbacks checked online against the contract'])
p('C18', 'Perf sideband selects the right process image at the right time',
  'From any stream of perf records for mappings, forks, execs, exits and context switches, the perf sideband decoder maintains for each process the image those records describe (kernel plus the process\'s own mappings, inherited on fork, replaced on exec) and installs the image of the process switched to, not before that record\'s time and not at an event that places execution in user code before and after. Records of ignored kinds and kernel-mode mappings leave all images unchanged.',
  ['histories', 'inputs', 'configurations'], 'All record sequences, sample layouts, time offsets and trace event sequences; primary and secondary channels.',
  'No existing test runs the sideband library.',
  ['sideband/src/pt_sb_pevent.c', 'sideband/src/pt_sb_context.c', 'sideband/src/pt_sb_session.c'],
  [('record application', 'sideband/src/pt_sb_pevent.c pt_sb_pevent_apply_event_record'), ('postponed context switch', 'sideband/src/pt_sb_pevent.c pt_sb_pevent_apply'), ('location tracking', 'sideband/src/pt_sb_pevent.c ploc_from_event')],
  ['image pointer and its content after each event, against a process model'])
p('C19', 'Perf records are parsed and produced exactly',
  'Writing any supported perf record and reading it back yields the same record and samples and the same size, and reading arbitrary bytes never leaves the buffer and never accepts a record whose contents disagree with its declared size. Conversion between perf time and timestamp counter follows the documented scaling and the two directions invert each other up to rounding.',
  ['inputs', 'configurations'], 'All record types, payloads, string lengths, sample type combinations, identifiers and time conversion parameters; all byte strings.',
  'Unit tests use one fixed instance per record type.',
  ['pevent/src/pevent.c', 'pevent/include/pevent.h'],
  [('record reader and writer', 'pevent/src/pevent.c pev_read / pev_write'), ('time conversion', 'pevent/src/pevent.c pev_time_to_tsc / pev_time_from_tsc')],
  ['pev_read/pev_write results and bytes, against an independent encoder'])
p('C20', 'The packet dumper shows every packet, address and time faithfully',
  'For any trace file the packet dumper prints, from the first synchronization point on, every packet in order with its correct offset, name, payload and raw bytes as selected by its options, and with address and time tracking enabled the same addresses and times the library reconstructs. On undecodable bytes it reports the error with its offset and continues at the next synchronization point; it never crashes on any input file.',
  ['inputs', 'configurations'], 'All trace files and all option combinations.',
  'The existing dump tests compare a fixed set of hand-written traces; payload formatting and error continuation are otherwise unsampled.',
  ['ptdump/src/ptdump.c'], [('packet printing and tracking', 'ptdump/src/ptdump.c')],
  ['standard output of the dumper against an independent packet model'])
p('C21', 'Structures of older and newer callers are honoured',
  'Functions that fill a caller-provided structure never write beyond the size the caller states, and fill exactly that prefix with the same values a full-size caller gets. Of a larger caller structure, the part the library does not know is zeroed for packets, instructions, blocks and events of the event decoder, and zeroed or left alone for the events of the query and flow decoders. Configurations and address-space identifiers of a different size are accepted accordingly, with unknown parts ignored and missing parts taken as zero or wildcard.',
  ['inputs', 'configurations'], 'All stated structure sizes, smaller and larger than the library\'s own, for packets, events, instructions, blocks and configurations.',
  'Unit tests call with the library\'s own sizes, plus one or two larger or smaller ones at packet level.',
  [L+'pt_packet_decoder.c', L+'pt_event_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_config.c'],
  [('copy-out helpers', L+'pt_*_decoder.c *_to_user'), ('configuration import', L+'pt_config.c pt_config_from_user')],
  ['caller buffers with canaries, compared with full-size results'])
p('C22', 'Running out of memory is reported cleanly',
  'If any memory allocation or file mapping fails during any library call, that call reports failure (an error code or a null result) or succeeds with correct results, without crashing, corrupting state or losing memory. All objects stay usable afterwards: they give correct results once memory is available again, and can be freed without leaks.',
  ['fault_sequences', 'histories'], 'Every allocation site failing at every occurrence (singly and persistently) in representative operation sequences over all components.',
  'No test injects allocation failures.',
  [L+'pt_image.c', L+'pt_image_section_cache.c', L+'pt_section.c', L+'pt_section_file.c', L+'posix/pt_section_posix.c', L+'pt_block_cache.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', 'sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_context.c', 'sideband/src/pt_sb_pevent.c'],
  [('error unwinding paths', 'all allocation sites')],
  ['allocation failure injection with leak and error checking'])
p('C23', 'Damage to one trace segment does not affect the segments after it',
  'When part of a trace between two synchronization points is overwritten, truncated or replaced with garbage, every decoder reports an error or ends that segment, and after re-synchronizing decodes every following intact segment exactly as from the undamaged trace. Re-synchronizing after any error always moves forward and finds the next intact synchronization point beyond its reported (read-ahead) position, so a decode loop that re-synchronizes on errors always reaches the end of the trace.',
  ['fault_sequences', 'inputs'], 'All corruptions of a segment, at every position, for all decoders and their flags.',
  'Existing tests stop at the first error; none continues decoding across damage.',
  [L+'pt_event_decoder.c', L+'pt_query_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c', L+'pt_sync.c', L+'pt_packet_decoder.c'],
  [('state reset on re-synchronization', L+'pt_*_decoder.c'), ('forward PSB search from the error position', L+'pt_sync.c')],
  ['decoded output of the segments following the damage, compared with the undamaged decode'])
p('C24', 'Sections follow their files and live exactly as long as they are used',
  'Sections stay readable with unchanged contents as long as any image, cache or decoder uses them, in whatever order those are freed, and every mapping, file handle and allocation is released when the last user is gone. A file whose size or modification time (in seconds) changed after it was added is detected when it is next mapped and is reported as an error instead of being read; a missing file, an overlong name or a range that begins at or beyond the end of the file is refused when it is added.',
  ['histories', 'fault_sequences'], 'All orders of adding, sharing, copying, reading and freeing; all points at which the underlying file is modified, truncated, replaced or deleted.',
  'Unit tests keep the file intact and free objects in one order.',
  [L+'pt_section.c', L+'posix/pt_section_posix.c', L+'pt_section_file.c', L+'pt_image.c', L+'pt_image_section_cache.c'],
  [('file status check on map', L+'posix/pt_section_posix.c'), ('use and map counts', L+'pt_section.c')],
  ['reads, error codes, open descriptors, mappings and heap at the end'])
p('C25', 'The trace assembler emits the packets it was asked for',
  'For every valid annotated assembly file, the trace assembler writes a trace that contains exactly the bytes of the requested packets in order, with labels resolved to the assembled addresses and truncated as the compression asks, and expectation and sideband outputs with the same substitutions. Invalid directives and out-of-range arguments are rejected with an error instead of producing a wrong trace.',
  ['inputs', 'programs'], 'All directive sequences, arguments, labels and expressions.',
  'The existing traces use a small set of directives and arguments, and check them through the dumper only.',
  ['pttc/src/parse.c', 'pttc/src/yasm.c', 'pttc/src/file.c', 'pttc/src/util.c', 'pttc/src/pttc.c'],
  [('directive parser', 'pttc/src/parse.c'), ('label lookup', 'pttc/src/yasm.c')],
  ['the trace file against an independent encoder'])
p('C26', 'The segment finder reports the segment that contains an offset',
  'For any trace file and any offset inside it, the segment finder reports the range from the synchronization point before the offset, or the start of the file, to the next one after it, or the end of the file, so that the segments it reports for all offsets tile the file. It refuses offsets outside the file and malformed arguments with an error and never crashes.',
  ['inputs'], 'All trace files and offsets.',
  'The tool has no tests.',
  ['ptseg/src/ptseg.c', L+'pt_sync.c', L+'pt_packet_decoder.c'],
  [('segment search', 'ptseg/src/ptseg.c')],
  ['the printed range against a scan for synchronization points'])
p('C27', 'Address filters and processor errata follow the configuration',
  'A processor given as text (family/model, optionally /stepping) is read as exactly those numbers or refused. For every processor identification, the errata reported are exactly those documented for that processor, and each erratum\'s workaround affects decoding only if it is configured and then as documented. Configured address filter and stop ranges classify every address as the ranges say, with boundaries inclusive, so that tracing being disabled by a filter is placed correctly.',
  ['configurations', 'inputs', 'programs'], 'All vendor/family/model combinations, all combinations of four filter ranges and modes, all boundary addresses.',
  'Unit tests check some models and some ranges, and no flow decode with filters.',
  [L+'pt_config.c', L+'pt_cpu.c', L+'pt_event_decoder.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
  [('errata table', L+'pt_config.c pt_cpu_errata'), ('filter evaluation', L+'pt_config.c pt_filter_addr_check'), ('errata workarounds', L+'pt_event_decoder.c, '+L+'pt_insn_decoder.c')],
  ['pt_cpu_errata results; decoded flow with filters and errata'])

p('C28', 'Sideband dumps and notifications name the right record',
  'While sideband is applied or dumped, every record is printed exactly once, in the order in which it is applied, with the file name, file offset, time, fields and sample information that the flags select. Lost records, truncated trace, mappings that cannot be represented, malformed records and failed applications are reported to the error notifier once, with their kind, the sideband file and the offset of the record in that file, and the context switch notifier is called for every switch.',
  ['inputs', 'histories', 'configurations'], 'All sideband streams, print flags, file sub-ranges, channel interleavings and notifier results.',
  'Unit tests install dummy decoders; the end to end tests print a handful of well-formed records.',
  ['sideband/src/pt_sb_pevent.c', 'sideband/src/pt_sb_session.c', 'sideband/src/pt_sb_file.c'],
  [('record printing', 'sideband/src/pt_sb_pevent.c pt_sb_pevent_print'), ('error notification', 'sideband/src/pt_sb_pevent.c pt_sb_pevent_error')],
  ['printed text; notifier arguments'])

p('C29', 'The flow dumper prints what the trace says',
  'For any program, code files, trace, sideband and options, the flow dumper ptxed prints, in order and exactly once, the instructions or blocks that the trace says were executed from the code it was given, with address, bytes, disassembly in the right machine mode, offset and time; the events with their fields; errors with offset and address; and correct instruction and block counts. With --check it reports every instruction whose classification contradicts the disassembler and is silent otherwise. It uses only the given range of a file, handles damaged traces, and refuses malformed arguments with a message and a non-zero exit status.',
  ['inputs', 'programs', 'configurations'], 'All programs, traces (well-formed or damaged), combinations of code files, sideband files and options, all argument lists.',
  'The tool is not built or run by the unit tests; the ptt tests that use it need Intel XED and sample a few options.',
  ['ptxed/src/ptxed.c', 'ptxed/src/load_elf.c', 'sideband/src/pt_sb_pevent.c', L+'pt_insn_decoder.c', L+'pt_block_decoder.c'],
  [('decode loops and printing', 'ptxed/src/ptxed.c decode_insn, decode_block, print_event, print_block, check_block'), ('arguments', 'ptxed/src/ptxed.c main')],
  ['standard output and error, exit status'])
p('C30', 'ELF files are mapped as their program headers say',
  'After an ELF file (32 or 64 bit) was loaded into an image, exactly the file contents of its loadable segments are found at their virtual addresses or, if a base address was given, at these addresses shifted such that the lowest segment begins at the base; later files replace earlier ones where they overlap and nothing else is mapped. Segments that cannot be loaded and files that cannot be understood are reported, a damaged file is refused or loaded safely, and no file remains open.',
  ['inputs', 'configurations'], 'All ELF headers, program headers, bases and orders of files; damaged files.',
  'No test loads an ELF file.',
  ['ptxed/src/load_elf.c', L+'pt_image.c', L+'pt_section.c'],
  [('program header loops', 'ptxed/src/load_elf.c load_elf32, load_elf64')],
  ['bytes read from the image; messages; open files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d, s)
except ImportError:
    pass
print(len(P), 'properties')
