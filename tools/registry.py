"""Build configurations and the checks built from them."""
SAN = ['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute,returns-nonnull-attribute']
ALLOC = ['-DMPACK_MALLOC=hx_malloc', '-DMPACK_REALLOC=hx_realloc', '-DMPACK_FREE=hx_free']
ON = ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1']
REL = ['-DMPACK_DEBUG=0']
DBG = ['-DMPACK_DEBUG=1', '-DMPACK_CUSTOM_ASSERT=1', '-DMPACK_CUSTOM_BREAK=1', '-DMPACK_READ_TRACKING=1', '-DMPACK_WRITE_TRACKING=1']
TRK = ['-DMPACK_DEBUG=0', '-DMPACK_READ_TRACKING=1', '-DMPACK_WRITE_TRACKING=1', '-DMPACK_TRACKING_INITIAL_CAPACITY=3']
SMALL = ['-DMPACK_STACK_SIZE=64', '-DMPACK_BUFFER_SIZE=64', '-DMPACK_NODE_PAGE_SIZE=128', '-DMPACK_NODE_INITIAL_DEPTH=1',
         '-DMPACK_BUILDER_PAGE_SIZE=144', '-DMPACK_TRACKING_INITIAL_CAPACITY=3']
def V(flags, cc='clang', cxx='clang++', **kw): return dict(flags=flags, cc=cc, cxx=cxx, **kw)
VARIANTS = {
  # name: real library + harness under sanitizers, 64-bit unless said otherwise
  'asan':   V(SAN + ALLOC + ON + REL),
  'small':  V(SAN + ALLOC + ON + REL + SMALL),
  'dbg':    V(SAN + ALLOC + ON + DBG + SMALL),
  'trk':    V(SAN + ALLOC + ON + TRK),
  'size':   V(SAN + ALLOC + ON + REL + ['-DMPACK_OPTIMIZE_FOR_SIZE=1', '-DMPACK_BUILDER_INTERNAL_STORAGE=1']),
  'm32':    V(SAN + ['-m32'] + ALLOC + ON + REL + SMALL),
  'm32d':   V(SAN + ['-m32'] + ALLOC + ON + DBG),
  'gcc':    V(['-g1', '-O2', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute,returns-nonnull-attribute'] + ALLOC + ON + REL, cc='gcc', cxx='g++'),
  'cxx':    V(SAN + ALLOC + ON + REL, lib_cxx=True),
  'exc':    V(SAN + ALLOC + ON + REL + SMALL + ['-fexceptions', '-DHX_THROW=1']),
  'cxxexc': V(SAN + ALLOC + ON + REL + ['-DHX_THROW=1'], lib_cxx=True),
  'amal':   V(SAN + ALLOC + ON + REL, amalgamated=True),
  'noreal': V(SAN + ['-DMPACK_MALLOC=hx_malloc', '-DMPACK_FREE=hx_free'] + ON + REL + SMALL),
  'norealt':V(SAN + ['-DMPACK_MALLOC=hx_malloc', '-DMPACK_FREE=hx_free'] + ON + TRK + SMALL[:-1]),
  'embed':  V(SAN + ['-DMPACK_STDLIB=0', '-DMPACK_STDIO=0', '-DMPACK_NO_BUILTINS=1'] + ON + REL), # no allocator, no libc
  'trks':   V(SAN + ALLOC + ON + TRK + SMALL[:-1]),
  'noext':  V(SAN + ALLOC + REL + SMALL),
  'nolibc': V(SAN + ALLOC + ON + REL + ['-DMPACK_NO_BUILTINS=1', '-DMPACK_STDLIB=0', '-DMPACK_STDIO=0']),
  'noflt':  V(SAN + ALLOC + ON + REL + ['-DMPACK_FLOAT=0', '-DMPACK_DOUBLE=0']),
  'nodbl':  V(SAN + ALLOC + ON + REL + ['-DMPACK_DOUBLE=0']),
  'bint':   V(SAN + ALLOC + ON + REL + ['-DMPACK_BUILDER_INTERNAL_STORAGE=1', '-DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=160', '-DMPACK_BUILDER_PAGE_SIZE=160']),
  'msan':   V(['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins=1', '-fno-sanitize-recover=all'] + ALLOC + ON + REL + SMALL),
  'tsan':   V(['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'] + ALLOC + ON + REL),
  'tsand':  V(['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'] + ALLOC + ON + DBG),
  'tsans':  V(['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'] + ALLOC + ON + REL + SMALL + ['-DMPACK_OPTIMIZE_FOR_SIZE=1', '-DMPACK_NO_BUILTINS=1']),
  'plain':  V(['-g1', '-O2'] + ALLOC + ON + REL),
}
VARIANTS.update({
  # further configurations compared with each other in C24
  'trkd':   V(['-g1', '-O2'] + ALLOC + ON + DBG),
  'm32gcc': V(['-g1', '-O2', '-m32', '-msse2', '-mfpmath=sse'] + ALLOC + ON + REL, cc='gcc', cxx='g++'),
  'm32size':V(['-g1', '-Os', '-m32', '-msse2', '-mfpmath=sse'] + ALLOC + ON + REL + SMALL + ['-DMPACK_OPTIMIZE_FOR_SIZE=1'], cc='gcc', cxx='g++'),
  'gccO3':  V(['-g1', '-O3'] + ALLOC + ON + REL, cc='gcc', cxx='g++'),
  'O0':     V(['-g1', '-O0'] + ALLOC + ON + REL + ['-DMPACK_NO_BUILTINS=1']),
  'c99':    V(['-g1', '-O2'] + ALLOC + ON + REL, cc='gcc', cxx='g++', cstd='c99', libflags=['-pedantic']),
  'gnu89i': V(['-g1', '-O2'] + ALLOC + ON + REL, cc='gcc', cxx='g++', cstd='gnu11', libflags=['-fgnu89-inline']),
  'cxx98':  V(['-g1', '-O2'] + ALLOC + ON + REL, cc='gcc', cxx='g++', lib_cxx=True, cxxstd='gnu++98'),
  'cxx20':  V(['-g1', '-O2'] + ALLOC + ON + REL, lib_cxx=True, cxxstd='gnu++20'),
  'uchar':  V(['-g1', '-O2', '-funsigned-char'] + ALLOC + ON + REL),
  'pages':  V(['-g1', '-O2'] + ALLOC + ON + REL + ['-DMPACK_STACK_SIZE=33', '-DMPACK_BUFFER_SIZE=33', '-DMPACK_NODE_PAGE_SIZE=97', '-DMPACK_NODE_INITIAL_DEPTH=2', '-DMPACK_BUILDER_PAGE_SIZE=128', '-DMPACK_BUILDER_INTERNAL_STORAGE=1', '-DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=131']),
  'hugepg': V(['-g1', '-O2'] + ALLOC + ON + REL + ['-DMPACK_BUILDER_PAGE_SIZE=((size_t)9<<30)']),
  'nobuild':V(['-g1', '-O2'] + ALLOC + ON + REL + ['-DMPACK_BUILDER=0']),
  'nocomp': V(['-g1', '-O2'] + ALLOC + ['-DMPACK_EXTENSIONS=1'] + REL),
  'nostr':  V(['-g1', '-O2'] + ALLOC + ON + REL + ['-DMPACK_STRINGS=0', '-DMPACK_CUSTOM_ASSERT=0', '-DMPACK_INLINE_SPEED=1']),
})
VARIANTS.update({
  'dbgl':   V(SAN + ALLOC + ON + DBG),
  'dbgnx':  V(SAN + ALLOC + DBG + SMALL),
  'dbgnf':  V(SAN + ALLOC + ON + DBG + ['-DMPACK_FLOAT=0', '-DMPACK_DOUBLE=0']),
  'dbggcc': V(['-g1', '-O2', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute,returns-nonnull-attribute'] + ALLOC + ON + DBG, cc='gcc', cxx='g++', lib_cxx=True),
})
VARIANTS['fuzz'] = V(SAN + ['-fsanitize=fuzzer-no-link', '-DHX_FUZZ=1'] + ALLOC + ON + REL + SMALL, ldflags=['-fsanitize=fuzzer']) # only finds inputs; they are judged in the other configurations
VARIANTS['fuzzd'] = V(SAN + ['-fsanitize=fuzzer-no-link', '-DHX_FUZZ=1'] + ALLOC + ON + DBG, ldflags=['-fsanitize=fuzzer'])
VARIANTS['fuzzt'] = V(SAN + ['-fsanitize=fuzzer-no-link', '-DHX_FUZZ=1'] + ALLOC + ON + TRK, ldflags=['-fsanitize=fuzzer'])
METER = ['-DHX_METER=1', '-DMPACK_MEMCPY=hx_memcpy', '-DMPACK_MEMMOVE=hx_memmove', '-DMPACK_MEMSET=hx_memset', '-DMPACK_MEMCMP=hx_memcmp', '-DMPACK_STRLEN=hx_strlen']
VARIANTS.update({ # work is counted: every control-flow edge taken in the library and every byte it moves
  'meter':   V(['-g1', '-O1'] + ALLOC + ON + REL + METER, libflags=['-fsanitize-coverage=trace-pc']),
  'meters':  V(['-g1', '-O1'] + ALLOC + ON + REL + SMALL + METER, libflags=['-fsanitize-coverage=trace-pc']),
  'meter32': V(['-g1', '-O1', '-m32'] + ALLOC + ON + REL + METER, libflags=['-fsanitize-coverage=trace-pc']),
})
def R(variant, prog, quick, thorough=None, **kw): return dict(variant=variant, prog=prog, quick=quick, thorough=thorough if thorough is not None else quick * 12, **kw)
def post_c24(R, jobs, bins):
    """offline checker: digests of the same script must agree in every configuration that ran it"""
    import struct
    seen = {}; inputs = {}; diffs = []; compared = 0
    per = {}
    for (variant, prog), chunks in sorted(R.logs.items()):
        d = per.setdefault(variant, {})
        for c in chunks:
            for case, sm, dig in struct.iter_unpack('<QQQ', c[:len(c) // 24 * 24]): d[(case, sm & 0xffffffff)] = dig
    ref = per.get('asan', {})
    skew = 0; per_skew = {}
    for variant, d in per.items():
        if variant == 'asan': continue
        for (case, stage), dig in d.items():
            if stage == 0: continue
            if ref.get((case, 0)) != d.get((case, 0)): skew += 1; per_skew[variant] = per_skew.get(variant, 0) + 1; continue  # the workload itself differs: not comparable
            want = ref.get((case, stage))
            if want is None: continue
            compared += 1
            if want != dig: diffs.append((variant, case, stage))
    R.extra['comparisons'] = compared; R.extra['incomparable'] = skew
    R.extra['comparisons_per_configuration'] = {v: len(d) for v, d in per.items()}
    if skew * 20 > compared: R.infra.append('workloads differ between configurations: %d of %d %r' % (skew, compared, per_skew)); return
    shown = set()
    for variant, case, stage in sorted(diffs, key=lambda x: (x[1], x[0])):
        key = 'config-differs-%d' % stage
        if (key, variant) in shown: continue
        shown.add((key, variant))
        if len(shown) > 400: break
        outs = []
        base = ['--seed', str(R.seed)] + (['--thorough'] if R.tier == 'thorough' else [])
        for v in ('asan', variant):
            b = next(x[2] for x in jobs if x[0] == v)
            _, _, err = R.one(b, base + ['--case', str(case)], 600)
            part = []; on = False
            for l in err.splitlines():
                if l.startswith('HXSTAGE '): on = l.split()[1] == str(stage); head = l
                elif l.startswith('done:'): on = False
                elif on: part.append(l)
            outs.append(part)
        n = 0
        while n < len(outs[0]) and n < len(outs[1]) and outs[0][n] == outs[1][n]: n += 1
        what = ' / '.join(outs[0][max(0, n - 6):n])
        rep = 'stage %d, case %d: configuration %s differs from asan after step %d\n  common: %s\n  asan: %s\n  %s: %s' % (stage, case, variant, n, what, ' / '.join(outs[0][n:n + 4]), variant, ' / '.join(outs[1][n:n + 4]))
        R.report(variant, 'c24', key, case, [next(x[2] for x in jobs if x[0] == variant)] + base + ['--case', str(case)], rep)
CHECKS = {
 'C02': dict(runs=[R('asan','c02',4000), R('size','c02',2500), R('m32','c02',1500), R('dbg','c02',1500), R('noext','c02',1000), R('noflt','c02',800)], require=['integer_writes','headers','structured_elements','c_generic_writes','c_key_values'],
   technique='ASan/UBSan-instrumented writer output compared byte for byte with an independent reference encoder'),
 'C03': dict(runs=[R('asan','c03',6000), R('dbg','c03',2500)], require=['elements_compared','discards','peeks','ended_in_error'],
   technique='ASan/UBSan-instrumented reader traced against an independent reference decoder'),
 'C07': dict(runs=[R('asan','c07',5000), R('small','c07',3000), R('m32','c07',2000), R('dbg','c07',1500), R('size','c07',1500), R('noext','c07',800)], require=['accepted','rejected','nodes_compared','inflated'],
   technique='ASan/UBSan-instrumented tree parser compared node by node with an independent reference decoder'),
 'C08': dict(runs=[R('asan','c08',4000), R('small','c08',4000), R('m32','c08',2000), R('dbg','c08',1500)], require=['messages','drip_steps','stalls','tails_checked'],
   technique='monitored tree streams under random chunking and stalls, compared with the reference message by message under ASan/UBSan'),
 'C18': dict(runs=[R('asan','c18',5000), R('small','c18',5000), R('m32','c18',2500), R('dbg','c18',1500)], require=['accepted','rejected','file_accepted','file_rejected'],
   technique='limit monitor: outcome of parsing under limits around the exact size and node count, under ASan/UBSan'),
 'C04': dict(runs=[R('asan','c04',4000), R('small','c04',2500), R('m32','c04',1500), R('dbg','c04',1200), R('noflt','c04',600), R('nodbl','c04',600)], require=['elements_walked','expect_calls','nodes_compared','rewrites'],
   technique='round-trip monitor across writer, reader, expect and tree under ASan/UBSan against an independent reference'),
 'C05': dict(runs=[R('asan','c05',3000), R('small','c05',2000), R('m32','c05',1200), R('dbg','c05',1200), R('size','c05',1000)], require=['outputs_compared','too_small','message_flushes','flushes'],
   technique='sink-equivalence monitor over recorded flush/file output under ASan/UBSan'),
 'C09': dict(runs=[R('asan','c09',5000), R('small','c09',4000), R('m32','c09',3000), R('bint','c09',3000), R('dbg','c09',2000), R('size','c09',2000), R('trk','c09',1000)], require=['builds','elements'],
   technique='builder output compared byte for byte with declared-size reference under ASan/UBSan, allocation ledger'),
 'C06': dict(runs=[R('asan','c06',6000), R('small','c06',4000), R('m32','c06',2500), R('dbg','c06',2500), R('size','c06',1500), R('noext','c06',800)], require=['elements_compared','fills','skip_callbacks','inplace','ended_in_error'],
   technique='source-equivalence monitor over instrumented fill/skip/file sources against an independent reference decoder under ASan/UBSan'),
 'C13': dict(runs=[R('asan','c13',4000), R('size','c13',2000), R('m32','c13',2000), R('dbg','c13',1500), R('noflt','c13',800), R('nodbl','c13',1500)], require=['accepted','rejected'],
   technique='every expect-number call monitored against an exact arithmetic oracle under ASan/UBSan'),
 'C14': dict(runs=[R('asan','c14',4000), R('small','c14',2000), R('size','c14',2000), R('m32','c14',2000), R('dbg','c14',1500), R('noext','c14',800)], require=['accepted','rejected','impossible_arrays','vast_arrays'],
   technique='every string/bin/ext/container expect call monitored against an oracle with exactly sized red-zoned buffers under ASan/UBSan'),
 'C15': dict(runs=[R('asan','c15',8000), R('small','c15',4000), R('size','c15',4000), R('m32','c15',4000), R('dbg','c15',3000), R('noext','c15',800)], require=['matched','unlisted','duplicates_flagged','enums'],
   technique='key-matching calls monitored against a shadow key table over every source under ASan/UBSan'),
 'C16': dict(runs=[R('asan','c16',4000), R('small','c16',2000), R('m32','c16',2000), R('dbg','c16',1500), R('noext','c16',800), R('noflt','c16',800), R('nodbl','c16',800)], require=['accepted','rejected'],
   technique='every node accessor monitored against an exact oracle with exactly sized red-zoned buffers under ASan/UBSan'),
 'C17': dict(runs=[R('asan','c17',4000), R('small','c17',2000), R('size','c17',1000), R('m32','c17',2000), R('dbg','c17',1500), R('noext','c17',800)], require=['found','missing','flagged','duplicates_flagged','contains','enum_matched','enum_unmatched'],
   technique='map lookup monitor against a shadow key list (match counts by exact value) under ASan/UBSan'),
 'C19': dict(runs=[R('asan','c19',2000,12000), R('small','c19',1200,6000), R('m32','c19',800,6000), R('dbg','c19',800,6000), R('nolibc','c19',600,4000)], require=['exhaustive_strings','accepted','rejected','wellformed','illformed'],
   technique='verdict of every UTF-8/NUL checking call monitored against an independent UTF-8 reference, exhaustively for short strings, under ASan/UBSan'),
 'C21': dict(runs=[R('asan','c21',4000), R('small','c21',2000), R('size','c21',1500), R('m32','c21',2500), R('dbg','c21',1500)], require=['wrote4','wrote8','wrote12','write_rejected','accepted','rejected'],
   technique='timestamp writers and readers monitored against an exact reference encoder/decoder under ASan/UBSan'),
 'C22': dict(runs=[R('asan','c22',6000), R('size','c22',2000), R('m32','c22',3000), R('dbg','c22',1500), R('noext','c22',800), R('noflt','c22',1000), R('nodbl','c22',800), R('nolibc','c22',1500), R('msan','c22',1500)], require=['equal_pairs','unequal_pairs','triples'],
   technique='algebraic monitor (reflexive, antisymmetric, transitive, agrees with reference equality) over recorded comparison results, under ASan/UBSan and MSan'),
 'C10': dict(runs=[R('asan','c10',600), R('small','c10',600), R('dbg','c10',400), R('trk','c10',400), R('m32','c10',300), R('size','c10',300)], require=['reader_calls_in_error','tree_calls_in_error','writer_calls_in_error','reader_init_error','tree_init_error','writer_init_error','reader_natural_error','tree_natural_error','writer_natural_error','writer_open_builds'],
   technique='error-state monitor: error value, callback count, source/sink activity and safe values watched over random API calls after every kind of error, under ASan/UBSan'),
 'C11': dict(runs=[R('asan','c11',300), R('small','c11',300), R('dbg','c11',200), R('trk','c11',200), R('m32','c11',150), R('noreal','c11',150), R('norealt','c11',100), R('bint','c11',150)], require=['injected','reported','baseline_allocations'],
   technique='fault injection at every allocation with a ledger, trace-prefix and error monitor under ASan/UBSan'),
 'C12': dict(runs=[R('asan','c12',300), R('small','c12',300), R('dbg','c12',150), R('m32','c12',150), R('size','c12',100)], require=['faults_hit','fault_reported','fault_absorbed','close_faults','open_faults','cuts','real_limit_exceeded','real_broken_pipes'],
   technique='fault injection at every source and sink operation (callbacks, cookie streams, real files and pipes) with a trace-prefix and delivered-bytes monitor under ASan/UBSan'),
 'C20': dict(runs=[R('trk','c20',3000), R('trks','c20',2000), R('norealt','c20',2000), R('dbg','c20',2500), R('m32d','c20',1000)], require=['correct_writer_programs','correct_reader_programs','misuses','wrong close type','element too many','element too few','bytes too many','bytes too few','element inside a payload','missing close','extra close','destroyed while open','bytes outside of a payload','flush or query while open','build closed as plain or the other way round','whole string read of a part or of another type','whole_string_reads'],
   technique='correct and singly misused call programs run with tracking on, final error and output monitored under ASan/UBSan'),
    'C23': dict(
        technique='error callbacks that jump (longjmp or exception) or destroy the object at every kind of error site, compared with a returning callback under an allocation and file ledger with ASan/UBSan',
        runs=[R('asan', 'c23', 250), R('small', 'c23', 250), R('exc', 'c23', 200), R('cxxexc', 'c23', 100), R('trk', 'c23', 200), R('dbg', 'c23', 150), R('m32', 'c23', 100)],
        require=['jumps', 'destroys and jumps', 'destroys and returns', 'raised_in_destroy', 'reader_errors', 'tree_errors', 'writer_errors']),
    'C01': dict(
        technique='ASan, UBSan and MSan with allocation, file, CPU-time and input monitors over random decoding calls on hostile bytes',
        runs=[R('asan', 'c01', 20000), R('small', 'c01', 20000), R('gcc', 'c01', 6000), R('m32', 'c01', 12000), R('size', 'c01', 6000), R('msan', 'c01', 8000), R('dbg', 'c01', 6000), R('trks', 'c01', 4000), R('noext', 'c01', 3000), R('noflt', 'c01', 2500)],
        require=['reader_calls', 'node_calls', 'messages_parsed', 'deep_nesting', 'reader_error', 'tree_error']),
    'C24': dict(
        technique='offline comparison of recorded transcripts of the same scripts in every configuration, most of them under ASan/UBSan',
        runs=[R(v, 'c24', 5000) for v in ('asan', 'small', 'dbg', 'trk', 'trks', 'size', 'm32', 'm32d', 'gcc', 'cxx', 'amal', 'noreal', 'norealt', 'noext', 'nolibc', 'noflt', 'nodbl', 'bint', 'msan', 'trkd', 'm32gcc', 'm32size', 'gccO3', 'O0', 'c99', 'gnu89i', 'cxx98', 'cxx20', 'uchar', 'pages', 'nobuild', 'nocomp', 'nostr')],
        require=['transcripts', 'transcript_steps', 'small_parts'], post=post_c24),
    'C25': dict(
        technique='ThreadSanitizer over threads with independent objects and concurrent queries of one tree, results compared with the same scripts run alone; ASan for thread stacks',
        runs=[R('tsan', 'c25', 5000), R('tsand', 'c25', 4000), R('tsans', 'c25', 3000), R('asan', 'c25', 2000), R('dbg', 'c25', 1500), R('plain', 'c25', 8000)],
        require=['thread_runs', 'shared_trees', 'thread_steps']),
    'C26': dict(
        technique='independent reference printer compared with the text every sink received, red-zoned buffers of every size under ASan/UBSan, read and allocation faults',
        runs=[R('dbg', 'c26', 4000), R('dbgl', 'c26', 2500), R('m32d', 'c26', 2500), R('dbgnx', 'c26', 1200), R('dbgnf', 'c26', 800), R('dbggcc', 'c26', 1500)],
        require=['buffer_prints', 'wellformed_texts', 'extra_bytes_notes', 'error_notes', 'texts_over_one_chunk', 'file_prints', 'stdfile_prints', 'stdfile_faults', 'node_prints', 'tag_descriptions', 'deep_prints']),
    'C27': dict(
        technique='ledgers of file operations, allocations and callbacks over random object lives with faults; checksums of caller data; ASan/UBSan/MSan',
        runs=[R('asan', 'c27', 12000), R('small', 'c27', 12000), R('dbg', 'c27', 6000), R('trks', 'c27', 6000), R('m32', 'c27', 8000), R('noreal', 'c27', 5000), R('bint', 'c27', 5000), R('gcc', 'c27', 5000), R('msan', 'c27', 5000)],
        require=['ended_ok', 'ended_error', 'teardowns', 'owned_blocks', 'files', 'positions_checked', 'growable_buffers', 'incremental', 'abandoned_builds']),
    'C28': dict(
        technique='allocator ledger, request log of the source and metered work (control-flow edges by -fsanitize-coverage=trace-pc plus bytes moved) against linear bounds; ASan for the impossible sizes',
        runs=[R('meter', 'c28', 4000), R('meters', 'c28', 4000), R('meter32', 'c28', 3000), R('asan', 'c28', 3000), R('small', 'c28', 3000), R('dbg', 'c28', 1500), R('m32', 'c28', 2000), R('m32gcc', 'c28', 4000), R('size', 'c28', 2000)],
        require=['bounds_checked', 'requests', 'skips', 'tree_messages', 'stream_messages', 'stalls', 'claims', 'documents', 'streams_without_claims', 'growable_documents', 'built_documents', 'impossible_sizes', 'reader_runs']),
}
for _c, _p, _runs, _req in [
    ('C06', 'bigr', [('asan', 60), ('plain', 120), ('trk', 40), ('size', 40)], ['beyond_32_bits', 'messages_over_4gb', 'inplace_pointers']),
    ('C07', 'bigt', [('asan', 64), ('plain', 160), ('small', 64), ('dbg', 40)], ['beyond_32_bits', 'messages_over_4gb', 'big_containers']),
    ('C17', 'bigt', [('asan', 64), ('plain', 64)], ['wrapped_lengths']),
    ('C09', 'bigb', [('hugepg', 2)], ['refused_builds', 'huge_builds']),
    ('C16', 'bigc', [('asan', 16), ('plain', 16)], ['conversions', 'refusals']),
    ('C14', 'bigc', [('plain', 16), ('trk', 16)], ['conversions', 'refusals']),
    ('C18', 'bigt', [('asan', 64), ('plain', 64)], ['messages_over_4gb']),
    ('C05', 'bigw', [('asan', 60), ('plain', 120), ('trk', 40), ('small', 40)], ['documents_over_4gb', 'objects_over_4gb', 'cstr_over_4gb'])]:
    CHECKS[_c]['runs'] += [R(v, _p, n, budget=150) for v, n in _runs]; CHECKS[_c]['require'] += _req
# builds with neither an allocator nor the C library (the calls that need one are replaced by the harness, see hx_embed.hpp)
for _c, _n in dict(C01=3000, C02=800, C03=1500, C06=300, C07=1500, C10=800, C14=600, C16=400, C17=150, C18=800, C21=500, C24=5000).items():
    CHECKS[_c]['runs'].append(R('embed', _c.lower(), _n))
CHECKS['C07']['require'].append('too_deep')
# counts above are the unit of work; these bring every quick check to roughly half a minute on eight cores
for _c, _k in dict(C01=3, C02=8, C03=7, C04=10, C05=5, C06=2, C07=5, C08=7, C09=5, C10=12, C11=5, C12=3, C13=6, C14=4, C15=5, C16=2, C17=5, C18=8, C19=1, C20=7, C21=6, C22=5, C23=10, C24=1, C25=1, C26=5, C27=2, C28=4).items():
    for _r in CHECKS[_c]['runs']:
        if not _r['prog'].startswith('big'):
            _r['quick'] *= _k; _r['thorough'] *= _k
