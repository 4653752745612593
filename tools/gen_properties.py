#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
S='src/mpack/'
R,W,E,N,C,P=S+'mpack-reader.c',S+'mpack-writer.c',S+'mpack-expect.c',S+'mpack-node.c',S+'mpack-common.c',S+'mpack-platform.h'
RH,WH,EH,NH,CH=S+'mpack-reader.h',S+'mpack-writer.h',S+'mpack-expect.h',S+'mpack-node.h',S+'mpack-common.h'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Decoding arbitrary bytes is memory-safe, leak-free and terminates',
 'For every byte sequence and every documented sequence of decoding calls (streaming reads, skips, expect helpers, tree parsing, node queries, lookups, copies and allocating reads), the library never accesses memory outside what it was given or allocated, never reads uninitialised memory, never executes undefined behaviour, never leaks and always returns. Hostile lengths, counts, nesting depths and truncations produce a value or a reported error, nothing else.',
 ['inputs','programs','configurations'],'all byte strings (random, grammar-generated, mutated, truncated, length-inflated, deeply nested) x all call sequences over the public decoding API x 64- and 32-bit builds and internal page sizes',
 'The unit tests feed a fixed set of literal messages; the guarantee is over every input, and an out-of-bounds read by one byte is invisible without red zones and exactly sized buffers.',
 [R,E,N,C,P],[('bounds checks before every load','mpack-reader.c: mpack_reader_ensure / mpack_parse_tag'),('per-node byte reservation','mpack-node.c: mpack_tree_reserve_bytes'),('length checks before copies','mpack-expect.c, mpack-node.c copy functions')],
 ['AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports on the real library','allocator ledger after destroy'])
p('C02','Every value is encoded exactly, in its shortest form, for the chosen version',
 'Every value-writing call emits exactly the bytes the MessagePack specification assigns to that value in its shortest encoding (numbers by value whichever integer-width call is used; strings, binaries, extensions, arrays and maps by size; floats and doubles bit-exact at their own width). When the old (v4) version is selected, the output uses only v4 encodings: no 8-bit string headers and binary data written as strings, and extension types raise an error. ',
 ['inputs','programs','configurations'],'all values of every type including every boundary between encodings, through every writer entry point that accepts them, both versions, size- and speed-optimised builds',
 'Tests check a few dozen literals; boundary mistakes in one of the many width-specific write paths (or one configuration) slip through.',
 [W,WH],[('integer width selection','mpack-writer.c: mpack_write_u8..i64'),('header selection','mpack-writer.c: mpack_start_str/bin/ext/array/map'),('version gate','mpack_writer_set_version')],
 ['bytes delivered to the caller versus an independent reference encoder'])
p('C03','The reader returns exactly the encoded elements, and truncation is never success',
 'For every well-formed message in any valid (also non-shortest) encoding, the reader yields exactly the encoded elements in order with exact values, lengths, types and bytes, and consumes exactly the message; peeking an element never changes what is read next, and discarding an element consumes exactly what reading it would. For every input that is truncated or contains a byte sequence that is not MessagePack, the reader reports an error no later than the first element that cannot be completed and never returns bytes or elements past it.',
 ['inputs','programs'],'all messages over all tag bytes and width variants, every truncation point, arbitrary malformed bytes, all interleavings of peek/read/discard/in-place/copying byte reads',
 'Tests use literal inputs and a handful of truncations; the property concerns every tag byte, every header width, every cut point.',
 [R,RH],[('tag parsing','mpack-reader.c: mpack_parse_tag'),('discard','mpack-reader.c: mpack_discard'),('peek','mpack-reader.c: mpack_peek_tag')],
 ['element/byte trace, remaining count and final error versus an independent reference decoder'])
p('C04','What is written is read back unchanged through every decoding interface',
 'Any message produced by the writer, when decoded with the element reader, the expect helpers or the tree parser, yields the same structure and the same values bit for bit (including NaN payloads, empty and multi-kilobyte strings, extension types and nesting), with nothing left over. Any element read from a message and written back as an element reproduces an equivalent message.',
 ['inputs','programs'],'all structured values up to the generation bounds, through all writer entry points and all three decoding interfaces',
 'Round trips in the tests cover literals; agreement between independent encode and decode paths must hold for every value.',
 [W,R,E,N],[('writer','mpack-writer.c'),('reader','mpack-reader.c'),('tree','mpack-node.c')],
 ['decoded values versus the values handed to the writer'])
p('C05','Written output is independent of sink, buffer size and flush points',
 'The same sequence of write calls delivers the same concatenated bytes whether the output goes to a fixed buffer, a growable buffer, a flush callback with any legal buffer size or a file, however chunks are flushed and with message flushes inserted between messages. A fixed buffer of exactly the output size succeeds and a smaller one reports that it is too small, never touching memory outside it; a growable buffer hands over exactly the output on success and nothing on error.',
 ['inputs','programs','configurations'],'all write programs x all buffer sizes from the minimum upward x all sinks x flush placements',
 'Buffer-boundary bugs need an element to straddle one specific buffer size; the tests sweep few sizes for few messages.',
 [W,WH],[('straddling flush','mpack-writer.c: mpack_writer_ensure, mpack_write_native_straddle'),('growable flush','mpack_growable_writer_flush'),('file flush','mpack_file_writer_flush')],
 ['chunks seen by each sink, exactly sized red-zoned buffers, buffer-used counter'])
p('C06','Decoded elements are independent of source, chunking and read method',
 'Reading a given byte stream yields the same elements, values, byte contents and success or failure whether it comes from memory, from a fill callback with any legal buffer size and any split into chunks (with or without a skip callback), or from a file, and whether payloads are read by copying, piecewise, in place, by allocation or skipped. Data left over after the last read is reported exactly when it is available, and bytes are never lost, repeated or reordered.',
 ['inputs','programs','schedules','configurations'],'all messages x all buffer sizes >= the minimum x all chunkings x skip callback presence x payload read methods',
 'Chunk boundaries interact with every element; the tests use a few buffer sizes with a fixed chunking.',
 [R,RH],[('straddling fill','mpack-reader.c: mpack_reader_ensure_straddle, mpack_read_native_straddle'),('skip','mpack-reader.c: mpack_skip_bytes, file skip')],
 ['element and byte traces, order/conservation of delivered bytes, remaining count'])
p('C07','The tree parser accepts exactly well-formed messages and mirrors their content',
 'Parsing data succeeds exactly when it begins with one complete well-formed message, reports exactly the number of bytes of that message, and the resulting nodes mirror the message exactly: types, values, lengths, string/binary/extension bytes (as views into the parsed data), child counts, child order and key/value pairing. On any other input parsing fails with an error and every node obtained from the tree is nil.',
 ['inputs','configurations'],'all byte strings (valid in any width, truncated at every point, malformed, with trailing data), in-memory, fixed-pool and custom page-size configurations',
 'The tests parse literal messages; nodes are laid out in pages and nested stacks whose boundaries depend on message shape and size.',
 [N,NH],[('node parse','mpack-node.c: mpack_tree_parse_node, mpack_tree_parse_children'),('page allocation','mpack_tree_parse_children'),('stack growth','mpack_tree_push_stack')],
 ['node walk versus reference decoder'])
p('C08','Streamed trees are independent of chunking and message boundaries',
 'A tree fed by a read callback or a file gives the same nodes, size and outcome as parsing the same bytes in memory, for every split of the stream into chunks and for both blocking and incremental (try) parsing, where an incomplete message is reported as incomplete without error and resumes without losing or re-counting anything. Successive messages in one stream, file or buffer are each delivered exactly once, in order.',
 ['inputs','schedules','histories'],'all message sequences x all chunkings including empty reads between any two bytes x blocking and incremental parsing',
 'A resumption bug needs the stream to pause at one particular byte of one particular shape; the tests pause at few places.',
 [N],[('incremental parse state','mpack-node.c: mpack_tree_continue_parsing, mpack_tree_parse_start'),('stream refill','mpack_tree_reserve_fill')],
 ['per-message node trees, sizes and the read-callback log versus reference'])
p('C09','Building containers incrementally equals declaring their sizes up front',
 'Writing a message with arrays or maps of undeclared size (build/complete), at any nesting, mixed with declared-size containers and any values, produces exactly the bytes obtained by declaring the correct sizes up front, for every sink, buffer size and internal page size. Element counts, key/value pairing and nested sizes are computed exactly, whichever write calls contributed the elements.',
 ['inputs','programs','configurations'],'all nestings of built and declared containers, all element kinds incl. raw object bytes and byte-wise strings, all page/buffer sizes, 64- and 32-bit builds',
 'The builder records deferred headers across pages; correctness at page boundaries depends on exact byte positions tests rarely hit.',
 [W,WH],[('deferred counts','mpack-writer.c: mpack_builder_build, mpack_builder_complete'),('page resolve','mpack_builder_resolve'),('compound counting','mpack-writer.h: mpack_builder_compound_push/pop')],
 ['output bytes versus reference encoder'])
p('C10','Errors are sticky, reported once, and later calls are safe no-ops',
 'Once a reader, writer or tree is in an error state it stays in that first error: the error callback has run exactly once with it, later calls return safe values (nil/zero/false/empty/minimum), leave output buffers in their documented safe state, produce no output and consume no input, and the final error returned on destruction is that first error. Objects created directly in an error state behave the same without calling the callback.',
 ['inputs','programs','fault_sequences'],'all call sequences with an error raised at any point by data, by the caller or by the source/sink, for readers, writers and trees',
 'The tests trigger errors at single calls; the property concerns every continuation after every error.',
 [R,W,E,N],[('flag error','mpack_reader_flag_error, mpack_writer_flag_error, mpack_tree_flag_error'),('early returns','every API entry point')],
 ['error callback log, return values, output buffer contents and sink log after the error'])
p('C11','Any allocation failure is reported cleanly without leak, crash or corruption',
 'If any single allocation (or every allocation from some point on) fails in any operation, the operation ends with the memory error reported through the object (or, where documented, an absent result), no crash, no leak, no partial result passed off as success, and the object can still be destroyed normally. If the failed allocation did not matter, the result is the same as without the failure.',
 ['fault_sequences','programs','inputs','configurations'],'every allocation index of every workload program (write, build, growable, tracking, read-alloc, expect-alloc, tree parse, stream, file, node alloc), once and persistent',
 'The unit test simulator fails allocations for a few fixed programs only; each new shape or size reaches different allocation sites.',
 [W,R,E,N,C],[('allocation checks','every MPACK_MALLOC/MPACK_REALLOC call site'),('cleanup','mpack_writer_clear_builder, mpack_tree_cleanup, mpack_track_destroy')],
 ['allocator ledger with injected failures, sanitizer reports, final error, output'])
p('C12','I/O faults surface as errors and never as silently truncated or lost data',
 'If opening, reading, writing, seeking, flushing or closing fails, or a source ends early or misbehaves within its contract at any point, the affected reader, writer or tree reports an error and does not report success. When success is reported, every byte written reached the sink, and every element read came from the source.',
 ['fault_sequences','inputs','programs'],'every I/O call index of every workload over files, streams and callbacks: failures, short reads and writes, premature end, close failure',
 'Real devices fail at arbitrary operations; the tests inject faults in a few fixed scenarios.',
 [R,W,N],[('fill error mapping','mpack-reader.c: mpack_file_reader_fill, mpack_fill_range'),('flush error','mpack-writer.c: mpack_file_writer_flush, teardown'),('tree file/stream read','mpack-node.c: mpack_tree_init_filename, mpack_tree_reserve_fill')],
 ['custom FILE streams recording and failing operations, bytes at sink versus reported status'])
p('C13','Expected numbers are returned exactly or rejected; no silent truncation',
 'Every expect-number call returns exactly the encoded number whenever it is representable in the requested type and inside the requested bounds, whatever integer encoding was used on the wire; otherwise it raises the type error and returns zero (or the documented minimum for bounded forms), never a wrapped, clamped or out-of-bounds value. Floating-point calls accept exactly the documented kinds, preserve value bits, and bounded forms never return a value outside the bounds (nor NaN).',
 ['inputs','configurations'],'all (wire encoding, value, requested type, bounds) combinations around every boundary plus random values',
 'The cross product of encodings, values, targets and bounds is sampled thinly by the tests.',
 [E,EH],[('numeric conversions','mpack-expect.c: mpack_expect_u8..i64, MPACK_EXPECT_RANGE_IMPL, float/double variants')],
 ['return value and error versus exact arithmetic oracle'])
p('C14','Expected strings, binaries, exts and containers obey type, size and termination',
 'Expect calls for strings, binary, extensions, arrays, maps, nil, booleans, exact tags and exact values succeed exactly when the element has the right type, satisfies the requested size/count/content bounds and (for text forms) contains no NUL or invalid UTF-8 where forbidden; then the caller receives exactly the payload with correct length and terminator and the rest of the stream is intact. Otherwise the call raises an error, never writes outside the given buffer, leaves text buffers empty and returns zero (or the documented minimum for range forms) or absent.',
 ['inputs','programs'],'all element kinds and sizes around each bound x all expect calls x buffer sizes x chunked sources',
 'Size boundaries, NUL/UTF-8 placement and chunk boundaries multiply; tests sample a few.',
 [E,EH],[('string/bin/ext helpers','mpack-expect.c: mpack_expect_cstr*, *_buf, *_alloc, *_match'),('container ranges','mpack_expect_map_range etc.')],
 ['return values, guarded output buffers, error and stream position versus oracle'])
p('C15','Keyed expects match exactly the listed keys, once each, and flag duplicates',
 'Matching a map key against a list of strings or integers returns the index of the equal key if it is listed, reports a not-found index for any other key (leaving the value to be discarded by the caller), and raises an error when a key occurs twice; enumerations return the index of the equal string, and only the optional form tolerates others. In every case exactly the key (or string) element is consumed.',
 ['inputs','programs'],'all key lists, all keys including prefixes, extensions, embedded NUL, empty, non-ASCII, other types and all integer encodings, all orders and duplicates',
 'Tests use one or two well-behaved keys.',
 [E,EH],[('key match','mpack-expect.c: mpack_expect_key_uint, mpack_expect_key_cstr'),('enum','mpack_expect_enum, mpack_expect_enum_optional')],
 ['returned index, found flags, error and stream position versus oracle'])
p('C16','Node accessors return exact values or flag the tree; nothing is truncated',
 'Every node accessor returns exactly the stored value when the node has a compatible type and the value is representable, and otherwise flags the documented error on the tree and returns a safe value; string, binary and extension accessors return exact bytes and lengths, copies are exact, bounded and terminated, and allocated copies respect the maximum. Array and map indexing returns the child at exactly that position and rejects out-of-range indices.',
 ['inputs','programs'],'all node kinds and wire encodings x all accessors x buffer sizes/limits/indices around each bound',
 'The cross product is sampled thinly by the tests.',
 [N,NH],[('numeric accessors','mpack-node.c: mpack_node_u8..double'),('copies','mpack_node_copy_*, mpack_node_*_alloc'),('indexing','mpack_node_array_at, mpack_node_map_*_at')],
 ['return values, guarded buffers, tree error versus oracle'])
p('C17','Map lookups find exactly the unique matching key; missing or duplicate is error',
 'Looking up an integer or string key in a map node returns the value of the one entry whose key equals it (integers by value across signed and unsigned encodings, strings by exact bytes), flags an error for a missing key unless the optional form is used (which yields the missing node), and flags an error when several entries match. Containment queries report exactly whether a match exists, and enumeration lookups return exactly the index of the equal string.',
 ['inputs'],'all maps with mixed-type keys, duplicates at any positions, prefix and NUL-containing strings, all integer encodings and all lookups',
 'Tests look up a few keys in one map.',
 [N,NH],[('lookup','mpack-node.c: mpack_node_map_int_impl/uint_impl/str_impl'),('enum','mpack_node_enum_optional')],
 ['returned node identity, error versus oracle'])
p('C18','Tree limits on size, node count and pool are enforced exactly',
 'A message is accepted if and only if its size in bytes and its number of nodes are within the configured limits (or its nodes fit the supplied pool); otherwise parsing fails with the too-big error, and the outcome does not depend on how the data is chunked. Limits apply to each message separately.',
 ['inputs','configurations','schedules'],'all messages x limits around the exact size and node count x sources x chunkings',
 'Off-by-one and accumulated-count errors appear only at exact limit values under specific chunkings.',
 [N,NH],[('limits','mpack-node.c: mpack_tree_set_limits, mpack_tree_reserve_bytes, mpack_tree_reserve_fill, mpack_tree_parse_children'),('pool','mpack_tree_init_pool')],
 ['parse outcome versus exact node and byte counts from the reference decoder'])
p('C19','UTF-8 and NUL checks accept exactly valid text in every checking API',
 'Every API that promises UTF-8 checking (read, expect, node and write forms) accepts a string exactly when it is well-formed UTF-8 (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes), and every API that promises NUL-free text additionally rejects exactly the strings containing NUL. Acceptance is independent of position, length and chunking, and non-checking APIs accept any bytes.',
 ['inputs','configurations'],'all byte strings up to 3 bytes and all boundary 4-byte sequences exhaustively, embedded at random positions in longer strings',
 'There are billions of byte sequences and a dozen APIs; the tests sample sequences through few of them.',
 [C,R,E,N,W],[('UTF-8 check','mpack-common.c: mpack_utf8_check_impl'),('users','mpack_read_utf8, mpack_expect_utf8*, mpack_node_check_utf8*, mpack_write_utf8*')],
 ['accept/reject verdict per API versus independent decoder'])
p('C20','Usage tracking flags exactly unbalanced or miscounted use',
 'With tracking enabled, any reader or writer program whose containers, strings, binaries and extensions are opened, filled with exactly the declared number of elements or bytes and closed with the right type runs without a tracking error; any program that closes with the wrong type, writes or reads too many elements or bytes, closes too early, mixes elements into byte payloads or is destroyed with something open ends with the bug error. Tracking never changes the bytes or values of a correct program.',
 ['programs','configurations'],'all read/write programs with any single mis-step inserted at any point, all nesting depths, with and without builder containers',
 'The tests check a few hand-written misuse cases at shallow depth.',
 [C,R,W],[('track stack','mpack-common.c: mpack_track_*'),('hooks in reader/writer','mpack_reader_track_*, mpack_writer_track_*')],
 ['final error versus a shadow tracker, output bytes versus reference'])
p('C21','Timestamps are encoded minimally and decoded exactly; invalid ones are rejected',
 'Every valid (seconds, nanoseconds) pair is written in the smallest of the three timestamp formats that can represent it and read back identically by the reader, expect and node interfaces, also from any valid wider format. Nanoseconds above 999999999, other payload sizes and other extension types are rejected with an error and a zero result.',
 ['inputs'],'all seconds around every format boundary and random 64-bit values x nanosecond boundaries x all three formats x invalid variants',
 'Boundaries at 2^32, 2^34 and negative seconds interact with nanoseconds; tests sample some.',
 [W,R,E,N],[('encode','mpack-writer.c: mpack_write_timestamp'),('decode','mpack-reader.c: mpack_read_timestamp; mpack-node.c: mpack_node_timestamp')],
 ['bytes and decoded pairs versus reference'])
p('C22','Element equality and ordering are a consistent total order on encoded meaning',
 'Comparing two elements is reflexive, antisymmetric and transitive; two elements are equal exactly when they denote the same type and value, with a non-negative integer equal to itself whether signed or unsigned and floats equal exactly when bit-identical. Equality agrees with comparison, and element constructors, accessors and payload sizes return exactly what was put in.',
 ['inputs'],'all pairs and triples of elements over boundary values of every type',
 'Antisymmetry and transitivity are statements over pairs and triples that tests never enumerate.',
 [C,CH],[('compare','mpack-common.c: mpack_tag_cmp'),('accessors','mpack-common.h: mpack_tag_*')],
 ['comparison matrix versus order axioms and reference equality'])
p('C23','Error callbacks may jump out or destroy the object without corruption or leaks',
 'An error callback may leave by a non-local jump at any point where an error is raised, including destruction, after which the object can still be queried and destroyed; it may also destroy the object itself, whether or not it then jumps: no memory or file is leaked, nothing is freed twice or used after free, and the reported error is the first one. Work completed before the error is unaffected.',
 ['programs','fault_sequences','inputs'],'every point at which a data, source, sink, memory or usage error can be raised in read, expect, tree, write and build programs',
 'Jump safety must hold at every error site, each of which may own temporary memory; tests jump from a few.',
 [R,E,N,W],[('free before flag','mpack-expect.c/mpack-node.c alloc functions'),('destroy after error','mpack_*_destroy')],
 ['allocator and file ledgers, sanitizer reports, final error after the jump'])
p('C24','Behaviour is the same in every build configuration',
 'The same program produces the same output bytes, decoded values and errors in every supported build configuration: debug or release, with or without tracking, optimised for size or speed, any internal page, stack and buffer sizes, C or C++ compilation, 32- or 64-bit, split sources or the amalgamated single file, with or without compiler builtins and library replacements. Only documented differences (disabled features) may show.',
 ['configurations','programs','inputs'],'all write, build, read, expect and tree programs of the generators over the configuration matrix',
 'The test suite runs the same fixed tests per configuration; it never compares one configuration with another on generated programs.',
 [S+'mpack-platform.h',W,R,E,N,C,'tools/amalgamate.sh'],[('configuration macros','mpack-platform.h'),('size/speed variants','mpack-writer.c: MPACK_OPTIMIZE_FOR_SIZE paths'),('fallback libc functions','mpack-platform.c')],
 ['result transcript hash per case and configuration'])
p('C25','Independent objects used from different threads do not interfere',
 'Readers, writers and trees that share no object may be used concurrently from any number of threads, also over the same read-only input, and a fully parsed tree may be queried concurrently by threads as long as no error is raised; every thread obtains the results it would obtain alone and no data race occurs.',
 ['schedules','programs'],'all interleavings of independent programs on several threads, and concurrent read-only queries on one parsed tree',
 'The test suite is single-threaded; hidden shared mutable state or lazily mutated nodes would never show.',
 [R,W,E,N,C],[('no global mutable state','all sources'),('const node queries','mpack-node.c accessors')],
 ['ThreadSanitizer reports, per-thread transcripts versus the sequential run'])
p('C26','Debug printing is bounded, terminated, complete and identical on every sink',
 'Printing any data or node to a buffer of any size writes only inside the buffer and terminates it, and the text is the exact prefix of what a callback or file receives for the same input. Well-formed messages print as text that denotes their structure and values in order; malformed or truncated input prints what precedes the fault plus an error note, without fault.',
 ['inputs','configurations'],'all messages and malformed inputs x all buffer sizes x buffer, callback, file and node sinks',
 'Tests compare a few literal printouts.',
 [C,R,N],[('bounded append','mpack-common.c: mpack_print_append, mpack_print_flush'),('printers','mpack-reader.c: mpack_print_element; mpack-node.c: mpack_node_print_element')],
 ['guarded buffers, sink contents, independent pretty-printer on well-formed input'])
p('C27','Files, buffers and callbacks are owned, released and torn down exactly once',
 'Files opened by the library are closed exactly once, caller-supplied files are closed exactly when requested and otherwise left open and positioned, teardown callbacks run exactly once per destroyed object on success and on error, memory handed to the caller is valid and owned by the caller, and everything else is released on destruction. Caller-supplied input data is never modified.',
 ['programs','fault_sequences'],'all object kinds x construction paths x success/error/early destruction',
 'Leaks and double releases on rarely taken construct-and-fail paths are not observed by functional tests.',
 [R,W,N],[('teardown','mpack_*_destroy'),('file ownership','mpack_reader_init_stdfile, mpack_writer_init_stdfile, mpack_tree_init_stdfile')],
 ['file and allocation ledgers, teardown counters, checksums of caller data'])
p('C28','Memory and work stay proportional to data actually supplied',
 'A message claiming huge lengths or counts never makes the library allocate or process more than a fixed multiple of the bytes actually supplied plus a constant (and any maximum the caller passed): memory is not committed for data that has not been shown to exist. Reading stops at the claimed end: a source is never asked for more once the message is complete, except into free buffer space.',
 ['inputs','programs'],'all hostile headers (lengths and counts up to 2^32-1, nested) x parsing, discarding, allocating reads and expect calls x sources',
 'Tests check that huge counts fail, not what was allocated or requested first.',
 [R,E,N],[('per-node byte reservation','mpack-node.c: mpack_tree_reserve_bytes'),('alloc after bounds check','mpack-reader.c: mpack_read_bytes_alloc_impl; mpack-expect.c *_alloc')],
 ['allocator ledger peaks, fill-callback log'])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in props:
        x['statement']=x['statement'].strip()
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(props))
