"""The properties (source of properties.jsonl and MANIFEST.json)."""

NOT_APPLICABLE = []
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note,
         state=(), observe=()):
    anchors = dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w)
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=quant),
                      why_tests_cant=why, anchors=anchors,
                      technique=technique, note=note))


EXPL = ('Exploration: held on every generated case (counts, rule and samples '
        'in the evidence file); the real code is compiled with '
        'AddressSanitizer and UBSan, so a memory error on a generated case is '
        'a violation too. Trusted: the reference model in the harness, '
        'clang, the sanitizers, glibc.')

prop('C01', 'IOP binary packing follows the wire format and round-trips',
     'For every IOP type and every value of it, the packed bytes are exactly '
     'the documented wire format (minimal tags, lengths and integers, packed '
     'arrays of small integers, class levels), the size announced before '
     'packing is the size written, and unpacking gives back an equal value; '
     'packing with several threads gives the same bytes. Unpacking also '
     'yields the same value from every other legal encoding of it: wider '
     'integers or lengths, omitted defaults, unknown tags of newer versions, '
     'repeated fields read as single ones. Private fields are left out or '
     'refused exactly when asked. Consecutive unions are unpacked, skipped '
     'and measured consistently.',
     ['inputs'],
     'All types (field kinds, repetition, inheritance, recursion, tags), all '
     'values, all legal encodings, all packing flags.',
     'tests/iop/zchkiop.c packs a few hand-written values; the encodings '
     'branch on tag size, integer width, array length, class level and flags, '
     'whose combinations are never enumerated.',
     ['src/iop/iop.blk', 'src/iop.h', 'src/iop/helpers.in.c',
      'docs/modules/iop/pages/wire-format.adoc'],
     [('packer and its size pass', 'src/iop/iop.blk (iop_bpack_size_flags, iop_bpack)'),
      ('unpacker', 'src/iop/iop.blk (iop_bunpack, iop_bunpack_multi, iop_bskip)')],
     'property-based testing: descriptor-driven value generator, reference '
     'encoder of the documented wire format, round trips, metamorphic '
     'encodings', EXPL)

prop('C02', 'IOP binary unpacking is safe on arbitrary bytes',
     'For any byte sequence, whatever its origin, unpacking (or skipping, or '
     'measuring) an IOP value either fails or yields a well-formed value: '
     'never a read outside of the input, a crash, an unbounded allocation or '
     'unbounded recursion. A value that is accepted can be traversed '
     'entirely, repacked, and repacking is stable (unpack of the repacked '
     'bytes packs to the same bytes). A failed unpacking of a sequence of '
     'unions consumes nothing.',
     ['inputs'],
     'All byte strings, for all types.',
     'A handful of corrupted messages are tried in the tests; the space of '
     'malformed messages is unbounded.',
     ['src/iop/iop.blk', 'src/iop/helpers.in.c'],
     [('get_uint32/get_len checks, REPEAT expansion', 'src/iop/iop.blk'),
      ('field skipping', 'src/iop/iop.blk (__bskip)')],
     'structure-aware and coverage-guided fuzzing under sanitizers, with '
     'repack stability as oracle', EXPL)

prop('C10', 'Hash tables behave as maps and sets under any operation history',
     'After any sequence of insertions, replacements, lookups, deletions, '
     'clears, resizes and iterations, a hash map or hash set (any key type, '
     'cached-hash or not) contains exactly the keys and values the same '
     'sequence leaves in a mathematical map or set. A key that is present is '
     'always found, at a position that is stable until the next insertion, '
     'and iteration visits each present element exactly once, including when '
     'the elements already visited are deleted while iterating.',
     ['histories', 'inputs'],
     'All histories of operations, all key distributions (colliding hashes, '
     'sequential, random), all table sizes and growth/shrink points.',
     'tests/zchk-container.blk covers a few hand-written histories; the '
     'failures live in long histories that combine collisions, tombstones '
     'and incremental resizes.',
     ['src/container-qhash.h', 'src/container/qhash.c',
      'src/container/qhash.in.c'],
     [('open addressing with ghosts and incremental resize',
       'src/container/qhash.c, src/container/qhash.in.c'),
      ('typed macros', 'src/container-qhash.h')],
     'stateful property-based testing against a reference map model',
     EXPL)

prop('C11', 'Vectors, heaps, trees, lists and sorts match their reference model',
     'For every sequence of operations, a vector, a priority queue, a '
     'red-black tree, a ring, a doubly-linked list and a head/tail list '
     'contain exactly the elements, in exactly the order, that the same '
     'sequence produces on a plain reference sequence. Sorting returns the '
     'sorted permutation of its input, removal of duplicates keeps one '
     'element per value in order, and binary search reports presence and '
     'insertion position exactly.',
     ['histories', 'inputs'],
     'All histories of operations and all element values, sizes and aliasing '
     'of lists.',
     'Unit tests run one or two scripted histories per container.',
     ['src/container-qvector.h', 'src/container/qvector.blk',
      'src/container-qheap.h', 'src/container-rbtree.h',
      'src/container/rbtree.c', 'src/container-ring.h',
      'src/container/ring.c', 'src/container-dlist.h',
      'src/container-htlist.h', 'src/sort.h', 'src/core/sort.blk',
      'src/core/sort-numeric.in.c'],
     [('splice, grow, clip', 'src/container/qvector.blk'),
      ('rebalancing', 'src/container/rbtree.c'),
      ('radix sort', 'src/core/sort-numeric.in.c')],
     'stateful property-based testing against reference sequences', EXPL)

prop('C03', 'IOP JSON packing is valid JSON and round-trips',
     'For every IOP value and every combination of packing flags, the JSON '
     'text produced is syntactically valid standard JSON that carries every '
     'field with its exact value (integers, doubles, all Unicode strings, '
     'base64 data, enum names, class names), except what the flags ask to '
     'leave out, and unpacking it gives back an equal value. Unpacking '
     'yields the same value from every documented variant of the syntax '
     '(comments, unquoted or prefixed names, other integer notations and '
     'expressions, enum names or values, single values for arrays, union '
     'short forms, ignored unknown fields), reads consecutive values in a '
     'stream, refuses integers that do not fit their field, missing '
     'mandatory fields, unknown or duplicated fields and values of the wrong '
     'type, and treats private fields as the flags ask. On any '
     'byte sequence it fails or yields a value that packs again, without '
     'reading out of the input. Values written in several files through '
     'inclusions are read back equal.',
     ['inputs'],
     'All types, values, flags, legal spellings and arbitrary texts.',
     'tests/iop/zchkiop.c checks a few dozen texts; escapes, number formats, '
     'flags and syntax variants combine.',
     ['src/iop/json.blk', 'src/iop-json.h', 'src/core/parsing-helpers.c',
      'docs/modules/iop/pages/base.adoc'],
     [('lexer and unpacker', 'src/iop/json.blk (iop_json_lex, unpack_val, unpack_struct, unpack_union)'),
      ('packer', 'src/iop/json.blk (__pack_txt, write_string)')],
     'property-based testing: independent strict JSON reader, generator of '
     'loose syntax variants, round trips, mutation fuzzing', EXPL)

prop('C05', 'IOP values and YAML documents correspond faithfully',
     'Every IOP value packed in YAML (in memory or in a file, with any '
     'packing flag, with or without the presentation of a previous document) '
     'is unpacked to an equal value, whatever its strings look like (numbers, '
     'booleans, null, comments, tags, flow characters, escapes, variables). '
     'Every legal spelling of a value is accepted and means the same value: '
     'block and flow collections, any consistent indentation, plain and '
     'quoted scalars, escapes, comments and blank lines, merge keys, values '
     'included from other files, omitted defaults, null for empty arrays, a '
     'scalar for an array of one element. A document that is not a value of '
     'the type (missing, unknown or repeated key, wrong type, integer out of '
     'range, bad class tag, invalid base64, wrong number of union members, '
     'tab or misaligned indentation, unclosed string, sequences where none is '
     'expected, private fields when forbidden) is refused with a message. No '
     'document, however malformed, makes the parser crash or read out of '
     'bounds.',
     ['inputs'],
     'All types, all values, all documents (well-formed or not), all packing '
     'and unpacking flags.',
     'The tests use literal documents; the defects found here (strings and '
     'binary values taken for another scalar, comments in flow collections) '
     'depend on the interplay of the content with the style.',
     ['src/core/yaml.c', 'src/iop/yaml.blk', 'src/yaml.h', 'src/iop-yaml.h',
      'src/core/parsing-helpers.c'],
     [('parser', 'src/core/yaml.c (t_yaml_parse, t_yaml_env_parse_data)'),
      ('packer', 'src/core/yaml.c (t_yaml_pack_sb, t_yaml_pack_data)'),
      ('conversion', 'src/iop/yaml.blk (t_iop_yunpack_ps, t_iop_sb_ypack_with_flags)')],
     'property-based testing: value generator, document generator with '
     'random spellings and injected defects, round trips, mutated documents',
     EXPL)

prop('C09', 'Constant expressions fold to their exact value or are refused',
     'For every integer expression (JSON values, IOP definitions) built from '
     'literals, + - * / % ** << >> & | ^ ~, unary minus and parentheses, the '
     'constant folder honours precedence and associativity and returns the '
     'exact value with its sign, or refuses it: malformed expressions, '
     'division by zero, shifts of 64 or more, negative exponents and results '
     'that do not fit 64 bits are never given a value, and folding always '
     'terminates without trap.',
     ['inputs'],
     'All token sequences and all 64-bit literals.',
     'The tests fold a dozen constants.',
     ['src/iop/cfolder.c', 'src/iop/cfolder.h', 'src/iop/json.blk'],
     [('shift/reduce evaluation', 'src/iop/cfolder.c (cf_reduce, iop_cfolder_feed_operator)')],
     'property-based testing against an exact 128-bit evaluator', EXPL)

prop('C04', 'IOP XML packing is well-formed XML and round-trips',
     'For every IOP value and every combination of packing flags, the XML '
     'produced is well-formed and carries every field, in order and with its '
     'exact value (escaped strings, CDATA, base64 data, numbers, enum names, '
     'class names, type attributes when asked), private fields excepted when '
     'asked, and unpacking it gives back an equal value. Unpacking yields '
     'the same value from every equivalent document (blanks, comments, '
     'prefixes, extra attributes, character references, CDATA sections, '
     'other integer notations, omitted defaults, attached parts, unknown '
     'elements when they are ignored), and refuses missing, unknown, '
     'duplicated or disordered elements, integers out of range, values of '
     'another type, wrong classes, invalid base64, unions without exactly '
     'one member and, when asked, private fields. On any document it fails '
     'or yields a value that packs again.',
     ['inputs'],
     'All types, values, flags, equivalent documents and mutated documents.',
     'tests/zchk-iop.c checks a few documents; escaping, element order, '
     'nesting and class attributes combine.',
     ['src/iop/xml-pack.c', 'src/iop/xml-unpack.c', 'src/iop/xml.h',
      'src/core/xmlr.c', 'src/core/xmlr-get-value.in.c'],
     [('packer', 'src/iop/xml-pack.c (xpack_value, xpack_struct, xpack_class)'),
      ('unpacker', 'src/iop/xml-unpack.c (__xunpack_struct, xunpack_union, get_text)'),
      ('XML reader', 'src/core/xmlr.c')],
     "property-based testing: documents compared with the value through "
     "libxml2's tree parser, generator of equivalent and of faulty documents, "
     'round trips, mutation fuzzing', EXPL)

prop('C12', 'Compressed bitmaps, bit buffers and bit streams hold exact bits',
     'A WAH bitmap built by any sequence of additions of 0s, 1s, single bits '
     'and raw data, and combined by any sequence of and, and-not, not-and, '
     'or, multi-or, not, copies and reloads of its storage (whatever the '
     'bucket size), has exactly the length, the number of set bits and the '
     'bits of the same operations on plain arrays of bits, as seen by every '
     'enumeration (ones, zeroes, words, skips) and by random access, for '
     'lengths of thousands of billions of bits as well. A bit buffer holds '
     'exactly the bits written in it, in both bit orders, and a bit stream '
     'reads them back at any offset and with any width, forwards, backwards '
     'or by scanning, and refuses to read past its end. Bit scans and '
     'population counts are exact for every alignment, length and '
     'implementation.',
     ['inputs', 'histories'],
     'All histories of operations on bitmaps and buffers, all lengths, '
     'offsets, contents and bucket sizes.',
     'The tests build a few bitmaps by hand; the states that matter (pending '
     'word, first run, literal after run, full bucket, run of 2^31 words, '
     'operands of different lengths) combine with each other.',
     ['src/core/bit-wah.c', 'src/bit-wah.h', 'src/core/bit-buf.c',
      'src/bit-buf.h', 'src/bit-stream.h', 'src/core/bithacks.c',
      'src/core/bithacks.h'],
     [('bitmap operations', 'src/core/bit-wah.c (wah_and_, wah_multi_or, wah_add, wah_push_pending)'),
      ('storage', 'src/core/bit-wah.c (mp_wah_init_from_data)'),
      ('buffers and streams', 'src/bit-buf.h, src/bit-stream.h'),
      ('scans', 'src/core/bithacks.c (bsf, bsr, membitcount_*)')],
     'stateful property-based testing against arrays of bits and lists of '
     'runs', EXPL)

prop('C16', 'Text encodings are exact and reversible',
     'For every byte string: base64 and base64url (any line width, any split '
     'of the incremental form), hexadecimal, URL encoding, quoted-printable, '
     'XML escaping, backslash escaping, CSV fields, punycode and IDNA names '
     'produce text that an independent decoder of the format reads back as '
     'the input (XML drops only the characters forbidden in XML; '
     'quoted-printable reads CRLF as LF), within the limits of the format '
     '(line lengths, allowed characters, label lengths). For every text, '
     'valid or not, the decoders (base64, hexadecimal, URL in place or not, '
     'quoted-printable, XML entities and CDATA, C escapes, environment '
     'variables, CSV lines, separator splits) return exactly what the format '
     'defines, never read or write outside of their data, and on refusal '
     'leave the output buffer as it was. What was in the buffer before stays '
     'there.',
     ['inputs', 'histories'],
     'All byte strings, widths, splits of the input, separators and prefixes '
     'already in the buffer; all damaged encoded texts.',
     'The tests encode a handful of strings; line breaks, truncated escapes, '
     'metacharacters next to each other or at the end, and long inputs are '
     'combinations they do not sample.',
     ['src/core/str-buf-quoting.c', 'src/core/str-stream.c',
      'src/core/str-conv.c', 'src/core/str-l.c'],
     [('base64', 'src/core/str-buf-quoting.c (sb_add_b64_*, _sb_add_unb64)'),
      ('XML, URL, QP, C escapes', 'src/core/str-buf-quoting.c'),
      ('punycode, IDNA', 'src/core/str-buf-quoting.c (sb_add_punycode_vec, sb_add_idna_domain_name)'),
      ('CSV and splits', 'src/core/str-stream.c (ps_get_csv_line, ps_split_escaped)')],
     'property-based testing: round trips through independent decoders and '
     'differential testing of the decoders against models', EXPL)

prop('C17', 'Number parsing is exact',
     'For every text, bounded by a length or by a NUL: the integer parsers '
     '(memtoip, memtollp, memtoullp, strtoip, strtolp, the extended parsers '
     'with time and size suffixes, parse_number, ps_get*, lstr_to_int, '
     'lstr_to_int64, lstr_to_uint, lstr_to_uint64) return the mathematical '
     'value of the number, or report an error (out of range, no digits, '
     'unknown extension, trailing text) exactly when the value does not fit '
     'the type or the text is not such a number - a negative number is never '
     'taken for an unsigned one -, stop exactly after the number, and read '
     'nothing outside of the text. memtod and lstr_to_double return the '
     'double nearest to the text, as the C library does.',
     ['inputs'],
     'All texts, bases, flags and bounds.',
     'Overflow detection, suffix multiplication and end positions go wrong '
     'for values next to a limit combined with signs, prefixes, suffixes and '
     'unterminated texts; the tests try some limits only.',
     ['src/core/str-num.c', 'src/core/str-num.h', 'src/core/str-l.c',
      'src/core/str-stream.h'],
     [('integers', 'src/core/str-num.c (memtoip_impl, memtoullp, strtolp)'),
      ('extensions', 'src/core/str-num.c (memtoxll_ext)'),
      ('strings', 'src/core/str-l.c (lstr_to_*)'),
      ('doubles', 'src/core/str-num.c (strtod_allow_subnormal), str-num.h (memtod)')],
     'property-based testing against exact 128-bit arithmetic and the C '
     'library', EXPL)

prop('C13', 'Memory pools hand out disjoint memory that stays valid until it '
     'is released',
     'For every history of allocations (any size, any supported alignment, '
     'zeroed or not), reallocations, frees, frames pushed and popped (stack '
     'pools), frames opened, sealed, released in any order, checkpoints and '
     'rewinds (ring pools), frees in any order (fifo pools) and pool resets: '
     'each block is aligned as asked, zeroed unless raw memory was asked, '
     'disjoint from every other live block, and keeps its content until it, '
     'its frame or its pool is released; a reallocation keeps the common '
     'prefix and zeroes the rest. A fifo or ring pool deleted while blocks or '
     'frames are in use keeps them valid and is freed with the last of them; '
     'when everything is released, all the memory of the pool is returned.',
     ['histories'],
     'All sequences of operations on stack, fifo, ring and libc pools.',
     'Pools reuse pages and frames depending on sizes, release order and past '
     'averages: corruption needs a particular sequence and is silent when it '
     'happens; the tests run one or two fixed sequences.',
     ['src/core/mem-stack.c', 'src/core/mem-fifo.c', 'src/core/mem-ring.c',
      'src/core/mem.blk', 'src/core/mem.h'],
     [('stack', 'src/core/mem-stack.c (sp_alloc, sp_realloc, mem_stack_push, mem_stack_pop)'),
      ('fifo', 'src/core/mem-fifo.c (mfp_alloc, mfp_realloc, mfp_free)'),
      ('ring', 'src/core/mem-ring.c (rp_reserve, mem_ring_release, mem_ring_rewind)')],
     'stateful property-based testing against a model of the live blocks, '
     'under AddressSanitizer', EXPL)

prop('C15', 'Tries and bitmaps of the paged store behave as sorted maps',
     'For every history of sets, set0s, removals, clears and snapshots on a '
     'qhat (values of 1, 2, 4, 8 or 16 bytes, nullable or not) or a QPS '
     'bitmap (nullable or not): a lookup returns the last value stored for '
     'the key, or its absence; removals report whether the key was present '
     'and its previous value; bitmap updates return the previous state; an '
     'enumeration from any key, by steps or by jumps, gives exactly the keys '
     'present, in order, with their values, including when the map changes '
     'during a safe enumeration; a path stays usable after changes; the '
     'statistics match the content; the structure passes its own consistency '
     'check; destroying the map returns every page and handle to the store.',
     ['histories'],
     'All sequences of operations on 32-bit keys, all value sizes.',
     'Leaves are split, merged, flattened and unflattened depending on the '
     'density of the keys: a wrong transition loses keys only for particular '
     'distributions and orders of operations; the tests build a few fixed '
     'shapes.',
     ['src/core/qps-hat.c', 'src/core/qps-hat.in.c', 'src/qps-hat.h',
      'src/core/qps-bitmap.c', 'src/qps-bitmap.h'],
     [('leaves', 'src/core/qps-hat.c (qhat_split_leaf, qhat_optimize, qhat_merge_nodes)'),
      ('flattening', 'src/core/qps-hat.in.c (flatten_leaf, unflatten_leaf, set, remove)'),
      ('enumeration', 'src/core/qps-hat.c (qhat_tree_enumerator_*), src/qps-bitmap.h'),
      ('bitmap', 'src/core/qps-bitmap.c (delete_leaf, qps_bitmap_*)')],
     'stateful property-based testing against sorted arrays', EXPL)

prop('C14', 'A paged store comes back as its last snapshot, after any stop',
     'For every history of page and handle allocations, reallocations, '
     'frees, writes, garbage collections and snapshots: blocks are disjoint, '
     'keep their content and their size, and the store passes its own '
     'consistency checks with neither leak nor dangling block. After a close, '
     'an exit, or a stop of the process at any file-system call of the '
     'creation, of the opening or of a snapshot (also when what was not '
     'synchronised to disk is lost), the store opens again and holds exactly '
     'the content and the private data of the last completed snapshot, or of '
     'the one in progress, never a mix; work done during a snapshot is not in '
     'it.',
     ['histories', 'crash_points', 'fault_sequences'],
     'All histories of up to five lives of a store, and all the file-system '
     'calls a life can stop at.',
     'The tests neither stop a process inside a snapshot nor lose '
     'unsynchronised data; a missing fdatasync or a wrong order of renames is '
     'invisible until a machine goes down at the wrong moment.',
     ['src/core/qps.blk', 'src/qps.h'],
     [('snapshot', 'src/core/qps.blk (qps_snapshot_fork, qps_map_pg_snapshot, qps_map_m_snapshot, x_write_meta)'),
      ('opening', 'src/core/qps.blk (__qps_open, qps_pg_map_open, qps_m_map_open)'),
      ('allocator', 'src/core/qps.blk (qps_pg_map, qps_pg_remap, qps_alloc, qps_realloc, qps_gc_run)')],
     'stateful property-based testing with injected stops and power losses, '
     'against a model of the committed content', EXPL)

prop('C22', 'Compression is exact, bounded, and safe on damaged streams',
     'For every buffer, whatever the previous content of the working memory, '
     'LZO compression writes at most the announced size, and the stream is a '
     'valid LZO1X stream of the data: an independent decoder and both '
     'decoders of the library give back exactly the data, and refuse an '
     'output buffer that is too small without writing outside of it. The safe '
     'decoder never reads or writes out of bounds on any input, and refuses '
     'every cut stream. Compression with zlib appends one complete gzip or '
     'deflate stream and reports its exact size, or leaves the buffer as it '
     'was.',
     ['inputs'],
     'All data (literal runs and copies of any length and distance), all '
     'output sizes, all damaged streams.',
     'The format has a dozen length and distance classes whose limits only '
     'matter for data that hits them exactly; the tests compress a few files.',
     ['src/core/qlzo-c.c', 'src/core/qlzo-d.c', 'src/qlzo.h',
      'src/core/zlib-wrapper.c'],
     [('compression', 'src/core/qlzo-c.c (compress, lzo_put_m1, lzo_put_varlen)'),
      ('decompression', 'src/core/qlzo-d.c (decompress, lzo_copy_*)'),
      ('zlib', 'src/core/zlib-wrapper.c (sb_add_compressed)')],
     'property-based testing and fuzzing of damaged streams, against an '
     'independent decoder', EXPL)

prop('C23', 'Digests, ciphers, checksums and hashes match their standards',
     'For every message, split into any pieces, at any alignment, from memory '
     'or from a file: MD5, SHA-1, SHA-2 digests and their HMACs (any key '
     'length), AES (ECB, CBC, CFB, any key size), DES and 3DES (ECB, CBC), '
     'CRC-32, CRC-64, SHA-crypt, Jenkins and Murmur3 hashes give exactly the '
     'value of the standard algorithm, also for messages of more than 4 GiB; '
     'the encryption contexts give OpenSSL\'s output however the message is '
     'split, and decrypt it back; RSA encryption of any length decrypts to '
     'the message, and a signature verifies for the signed message only.',
     ['inputs'],
     'All messages, splits, alignments, keys and modes.',
     'Errors sit in the handling of partial blocks: they show for some '
     'lengths split at some places only; the tests use short fixed vectors.',
     ['src/crypto/md5.c', 'src/crypto/sha1.c', 'src/crypto/sha2.in.c',
      'src/crypto/sha4.c', 'src/crypto/aes.c', 'src/crypto/des.c',
      'src/crypto/crc32.c', 'src/crypto/crc64.c', 'src/crypto/hash.c',
      'src/crypto/ssl.blk', 'src/hash.h', 'src/ssl.h'],
     [('digests', 'src/crypto/{md5,sha1,sha2.in,sha4}.c'),
      ('ciphers', 'src/crypto/{aes,des}.c'),
      ('hashes', 'src/crypto/hash.c, crc32.c, crc64.c'),
      ('contexts', 'src/crypto/ssl.blk (ssl_encrypt_*, ssl_decrypt_*, rsa_*)')],
     'differential property-based testing against OpenSSL, zlib, libcrypt and '
     'plain implementations', EXPL)

prop('C21', 'ASN.1 BER and PER codecs are exact and refuse what breaks the type',
     'For every type description (integers of each C type with constraints '
     'and extensions, enumerations, octet and bit strings, sequences with '
     'optional and extension fields, choices, sequences of, open types) and '
     'every value, the PER encoding is the aligned PER encoding of X.691 and '
     'the BER one is the definite-length encoding, both decode back to the '
     'value with every field set; a value that breaks a constraint is '
     'refused by the PER encoder. BER decoding also accepts indefinite and '
     'long-form lengths, unknown trailing elements and padded integers with '
     'the same result, and refuses integers that do not fit in their field. '
     'PER messages are understood by older and newer versions of an extensible '
     'sequence: unknown extensions are skipped, missing ones are absent. '
     'On any damaged input, decoders stay in bounds, and refuse it or give a '
     'value that satisfies the constraints and can be encoded again.',
     ['inputs', 'configurations'],
     'All type descriptions and constraints, all values, all byte strings.',
     'Alignment, range classes, fragments and extension bitmaps combine: the '
     'tests hold a handful of fixed types and values.',
     ['src/asn1/per.c', 'src/asn1/writer.c', 'src/asn1/asn1.c',
      'src/asn1/helpers.in.c', 'src/asn1/per-macros.h', 'src/asn1/writer.h'],
     [('PER encoding', 'src/asn1/per.c (aper_encode_*, aper_write_*)'),
      ('PER decoding', 'src/asn1/per.c (t_aper_decode_*, aper_read_*)'),
      ('BER encoding', 'src/asn1/writer.c (asn1_pack_*)'),
      ('BER decoding', 'src/asn1/writer.c (asn1_unpack_*, asn1_get_ber_field)'
                       ', src/asn1/asn1.c (ber_decode_*)')],
     'property-based testing over generated types and values, against '
     'independent encoders; fuzzing of damaged encodings', EXPL)

prop('C19', 'printf-like formatting gives what the C standard asks for, in every destination',
     "For every format string made of literal text and of the conversions d i u o x X c s p e E f F g G m n %% with any flags (- + # space 0), any width and non-negative precision (inline or given by *) and any length modifier (hh h l ll j z t L), and every argument, iprintf's functions write exactly the text of the C library (infinities and NaN are Inf and NaN; the ' flag groups by three digits with commas). "
     "lib-common's own conversions write their argument exactly: %*pM raw bytes, %*pX and %*px hexadecimal, %pL an lstr_t or sb_t, %*pd %*pu %*ph %*pH a 128-bit integer, and registered formatters what they produce with formatter_write or formatter_writef. "
     "The returned value is the length of the complete text whatever the room, a buffer receives the longest prefix that fits followed by a zero and nothing beyond its size is touched. "
     "The same text is produced in a stream (ivfprintf), appended to or prepended to an sb_t whatever its free room, and by ivasprintf, lstr_fmt, t_lstr_fmt and mp_fmt, zeros included.",
     ['inputs'], "every format and arguments, for every size of destination",
     "a test samples a few formats; the crossings of flags, widths, precisions, rounding ties, exact-fit buffers and 64/128-bit limits are only reached by generation",
     ['src/core/str-iprintf.c', 'src/core/str-iprintf.h', 'src/core/str-dtoa.c', 'src/core/str-buf.c', 'src/core/str-l.h', 'src/core/mem.blk'],
     [('conversions', 'src/core/str-iprintf.c (fmt_output, put_memory_fmt_g)'),
      ('decimal conversion of doubles', 'src/core/str-dtoa.c (dtoa), src/core/str-iprintf.c (cvt)'),
      ('growing destinations', 'src/core/str-buf.c (sb_addvf, sb_prependvf), src/core/mem.blk (mp_vfmt), src/core/str-l.h (lstr_fmt)')],
     'property-based testing: differential against glibc per conversion, every destination', EXPL)

prop('C18', 'String buffers, bounded strings and parsing streams behave as plain byte strings',
     'Whatever the sequence of operations (append, insert, replace, remove at any place, prepend, skip, clip, trim, reset, formatted additions, numbers with separators, durations, reads from files and descriptors) and wherever its memory comes from, an sb_t holds exactly the bytes of that sequence followed by a zero; a failed read leaves it as it was; its content is handed over intact by sb_detach and lstr_transfer_sb. '
     'lstr_t functions (copies in every pool, concatenation, comparison, search, prefixes, suffixes, trimming, case, distances, xor and obfuscation, hexadecimal) and pstream_t functions (skip, shrink, clip, get, split, binary and text reads) give the result defined on byte strings, never move a stream that they refuse, and never read or write out of bounds. '
     'C string helpers (bounded copies, prefixes, strfind, ...) agree with their definition and never overflow the destination.',
     ['inputs', 'histories'], 'All byte strings, all histories of operations, all pools, all sizes of destination.',
     'The interplay of the skipped area, of reallocations, of fallbacks from static to heap memory and of shrinking only shows after particular histories.',
     ['src/core/str-buf.c', 'src/core/str-buf.h', 'src/core/str-l.c', 'src/core/str-l.h', 'src/core/str-stream.h', 'src/core/str-stream.c', 'src/core/str.c', 'src/core/str-mem.h', 'src/core/str-num.h'],
     [('buffers', 'src/core/str-buf.c (__sb_grow, __sb_splice, __sb_optimize, __sb_rewind_adds)'),
      ('bounded strings', 'src/core/str-l.c'),
      ('parsing streams', 'src/core/str-stream.h, src/core/str-stream.c'),
      ('C strings', 'src/core/str.c')],
     'stateful model-based testing against byte arrays, and property-based testing of each function', EXPL)

prop('C32', 'UTF-8 handling, collation and character set conversions are exact',
     'For every byte string, UTF-8 functions decode, measure, skip, truncate and reverse it character by character without reading past its end, and report the first invalid sequence; case functions apply the Unicode case mappings of U+0000..U+01FF. '
     'Collating comparisons (case-sensitive or not, ignoring trailing spaces or not), prefixes, suffixes, normalisation and SQL LIKE patterns agree with the comparison of the sequences of collation elements: letters without their diacritics, ligatures as two letters, other characters as themselves, invalid bytes as Latin-1. '
     'Latin-1, Latin-9, UCS-2 (binary and hexadecimal), GSM 03.38 (octets, hexadecimal, packed septets after a header of any length) and CIMD conversions give the encoding of each character, are undone by the reverse conversion, refuse or count what cannot be represented, and leave the buffer unchanged when they refuse.',
     ['inputs'], 'All byte strings, valid or not; all patterns; all sizes of buffer and header.',
     'Ligatures meeting the end of a string or a wildcard, sequences cut by the end of the buffer and septets crossing octets only show for particular combinations.',
     ['src/core/str-conv.c', 'src/core/str-conv.h', 'src/core/str-buf-gsm.c', 'src/core/str-l.c', 'src/core/str-l.h'],
     [('UTF-8', 'src/core/str-conv.h (utf8_ngetc, utf8_charlen, __pstrputuc)'),
      ('collation', 'src/core/str-conv.c (utf8_strcmp_, sb_normalize_utf8_)'),
      ('patterns', 'src/core/str-l.c (ps_is_like)'),
      ('character sets', 'src/core/str-conv.c (sb_conv_*), src/core/str-buf-gsm.c')],
     'property-based testing against reference decoders, collation keys and a dynamic-programming matcher', EXPL)

prop('C25', 'HPACK header compression is an exact RFC 7541 codec on both sides',
     'Whatever the history of headers, encoding flags and table size updates, a peer that follows RFC 7541 decodes from the encoder exactly the header names (lower-cased when asked) and values given, keeps the same dynamic table, gets an index whenever the tables hold the header, and sees the representation that the flags request; the output fits the announced length. '
     'Every block that RFC 7541 allows is decoded into the headers it denotes, one "key: value" line each within the announced length; every other block (unknown index, truncated or oversized integer or string, invalid Huffman coding, size update out of place or beyond the settings) is refused without reading or writing out of bounds; entries of the dynamic table stay valid until they are evicted.',
     ['inputs', 'histories'], 'All header lists, flags, table sizes and histories; all byte strings as blocks.',
     'Entries made from other entries, evictions and buffer estimates only matter for particular histories and mixes of representations.',
     ['src/net/hpack.c', 'src/net/hpack.h', 'src/net/hpack-priv.h'],
     [('Huffman and integers', 'src/net/hpack.c (hpack_encode_huffman, hpack_decode_huffman, hpack_encode_int, hpack_decode_int)'),
      ('encoder', 'src/net/hpack.c (hpack_encoder_write_hdr, hpack_enc_dtbl_*)'),
      ('decoder', 'src/net/hpack.c (hpack_decoder_extract_hdr, hpack_decoder_write_hdr)')],
     'stateful differential testing against a reference RFC 7541 codec, mutation of blocks', EXPL)

prop('C24', 'HTTP/1 messages are delivered exactly, whatever the segments and answer order',
     'For every stream of pipelined HTTP/1 requests (bodies with a length, chunked with extensions and trailers, gzip or deflate coded, Expect: 100-continue, folded headers, escaped paths) cut in any segments, the server hands each request once, in order, to the handler of the longest registered prefix of its simplified path, with exact method, version, host, path, variables, headers and decoded body; answers given in any order, form (length, late length, chunked, reject, 202) and number of pieces come back complete, well-formed and in the order of the requests; the connection is closed exactly after the request that asks so, HTTP/1.0, or the last allowed query, and too large buffered bodies get a 413. '
     'Symmetrically the client sends well-formed queries and reports each answer once with its exact code, headers and body, accepts 1xx, and reports every truncated answer as a failure. The outcome of any stream, even damaged, does not depend on its segmentation, never crashes, and every query is ended and released once when the connection ends.',
     ['inputs', 'schedules', 'histories'], 'All request and answer streams, segmentations, orders and forms of answers, thresholds and pipeline settings, ends of connection (HTTP/1, no TLS, header limits not reached).',
     'Framing errors need a particular split of the stream, a particular coding or a particular order of answers; the tests send whole messages one at a time.',
     ['src/net/http.c', 'src/net/http.h', 'src/core/str-outbuf.c'],
     [('server parsers', 'src/net/http.c (httpd_parse_idle, httpd_parse_body, httpd_parse_chunk*)'),
      ('answers', 'src/net/http.c (httpd_reply_*, httpd_flush_answered)'),
      ('client', 'src/net/http.c (httpc_parse_*, httpc_query_*)'),
      ('bodies', 'src/net/http.c (http_zlib_inflate, httpd_flush_data)')],
     'model-based testing over socket pairs with a reference HTTP reader and writer, metamorphic segmentation of damaged streams', EXPL)

prop('C27', 'Record files, buffered files and output buffers lose and invent nothing',
     'For every history of appends, flushes, truncations and reopenings, with records of any size and any slot size, a record file reads back as exactly the records written, in order, from the start, from any saved position, backwards with t_file_bin_get_last_records, and by a reader that follows the file: at every length the file may have (a crash or a write in progress), the records that are complete, and only those, are returned once. Damage inside one slot leaves all the records before it and all those that start three slots later readable and never crashes the reader. '
     'A buffered file holds, after each flush, seek or close, exactly what the sequence of writes, seeks and truncations denotes, and file_tell and the returned counts agree. An output buffer delivers exactly the bytes added, chunked, mapped, read from files or merged, in order and once, whatever the short writes.',
     ['histories', 'crash_points', 'fault_sequences'], 'All histories of operations, record and slot sizes, file lengths at which a reader or a crash stops, single-slot damages, short write patterns.',
     'The defects sit at the edge of slots and buffers and at particular lengths of the file.',
     ['src/core/file-bin.c', 'src/core/file.c', 'src/core/str-outbuf.c'],
     [('record files', 'src/core/file-bin.c (file_bin_put_record, _file_bin_get_next_record, t_file_bin_get_last_records)'),
      ('buffered files', 'src/core/file.c (__file_writev, file_truncate, file_seek)'),
      ('output buffers', 'src/core/str-outbuf.c, src/str-outbuf.h')],
     'stateful model-based testing with enumeration of crash lengths, damage injection and short writes', EXPL)

prop('C06', 'IOP values: equality, differences, order, hash and copies agree on every value',
     'For every type and every values of it, iop_equals holds exactly when the two values hold the same fields (presence, selection, class and content, doubles compared as numbers), iop_first_diff reports a difference exactly then, iop_cmp is a total order consistent with it and with the sort functions, and equal values have equal hashes whatever their place in memory; the hash depends on exactly the content of the value. '
     'iop_dup and iop_copy, in any pool and with any flag, give an equal value that shares no memory with the original (strings included, unless a shallow copy is asked) and that is released as one block; iop_init gives the defaults of every field.',
     ['inputs', 'programs'], 'All values of structures, unions and class hierarchies built from every field kind, pairs made of copies and of single edits.',
     'A field type, repetition or position forgotten in one of the many per-type branches only shows for values that differ there and nowhere else.',
     ['src/iop/iop.blk', 'src/iop/helpers.in.c', 'src/iop/hashing-values.in.c', 'src/iop.h'],
     [('equality and differences', 'src/iop/iop.blk (__iop_equals, iop_first_diff_desc), src/iop/helpers.in.c'),
      ('order', 'src/iop/iop.blk (iop_cmp_desc, iop_xsort_desc)'),
      ('hash', 'src/iop/hashing-values.in.c'),
      ('copies', 'src/iop/iop.blk (mp_iop_dup_desc_flags_sz, mp_iop_copy_desc_flags_sz)')],
     'property-based testing of generated values and edits against a reference model of IOP values', EXPL)

prop('C08', 'IOP field paths, sorts, filters and walks act on exactly the fields they denote',
     'For every type, value and path (fields, unions, indexes from either end, wildcards, class casts, array lengths, class names), compiling a path succeeds exactly when it denotes something in the type, and reading it gives exactly the values it denotes, in order, or reports that they are not set; the one-field accessors read and write that field and no other. '
     'iop_sort and iop_msort give a permutation ordered by the paths and flags; filters keep exactly the matching elements, in order, and combine bitmaps as asked; iop_for_each_* call back once per field, structure or object, in declaration order with the exact path, honour skips and stop with the code of the callback; pruning gen-attr fields removes exactly those.',
     ['inputs', 'programs'], 'All values, paths (valid or not), sort keys, filter values and flags, walk decisions, over a family of types with every field kind.',
     'Errors depend on the mix of optional, referenced, repeated, union and class levels along a path.',
     ['src/iop/iop.blk', 'src/iop/for-each.in.c', 'src/iop.h'],
     [('paths', 'src/iop/iop.blk (iop_compile_field_path, iop_field_path_run, iop_get_field_const)'),
      ('sort and filter', 'src/iop/iop.blk (iop_msort_desc, __t_iop_filter, iop_filter_bitmap_apply)'),
      ('walks', 'src/iop/for-each.in.c')],
     'property-based testing of generated values, paths and callbacks against a reference evaluator', EXPL)

prop('C07', 'IOP constraints hold for every value that is checked, packed strictly or read',
     'For every type with constraints (min, max, nonZero, lengths, pattern, occurrences, allow, disallow, strict enums, abstract classes, constrained typedefs, inherited fields) and every value, iop_check_constraints and iop_field_check_constraints refuse the value exactly when some field breaks one of its constraints, at any depth, with a message that tells the field and its type; strict binary packing refuses exactly these values, and the binary, JSON, YAML and XML decoders refuse exactly the messages that hold such a value.',
     ['inputs', 'programs'], 'All values of the constrained types, with none or one constraint broken, just inside or just outside each bound.',
     'The check is made of code generated per field and of calls in every decoder, once per kind of field: one missing call shows only for that kind of field and that encoding.',
     ['src/iop/iop.blk', 'src/iop/json.blk', 'src/iop/yaml.blk', 'src/iop/xml-unpack.c', 'src/iopc/iopc-lang-c.blk'],
     [('in memory', 'src/iop/iop.blk (iop_check_constraints_desc, iop_field_check_constraints)'),
      ('generated checks', 'src/iopc/iopc-lang-c.blk (iopc_dump_constraints)'),
      ('decoders', 'src/iop/iop.blk (unpack_struct, unpack_union), src/iop/json.blk, src/iop/yaml.blk, src/iop/xml-unpack.c')],
     'property-based testing of generated values, right or broken at one place, against hand-written constraints', EXPL)

prop('C20', 'Dates are formatted, read and rounded as the calendar and the time zone say',
     'For every timestamp and time zone, the ISO 8601 formatters give the exact civil date, time and offset, and what they write is read back as the same timestamp; the environment (TZ, locale) is left as it was. Every text in one of the accepted formats (ISO 8601 with its flags, syslog, RFC 822, Unix seconds or milliseconds, relative, short dates) is read as exactly the instant it denotes, in its zone or in local time, impossible dates are refused, and no input, even cut or damaged, makes the readers read out of their buffer. '
     'localtime_cur* and next* give the first instant of the minute, hour, day, week, month or year that contains or follows the date, across changes of offset; day, hour and minute counts, timeval arithmetic (always normalised), expiry tests, durations and their texts agree with exact arithmetic.',
     ['inputs', 'configurations'], 'All timestamps (years 1 to 9999 for formats, 1902 to 2098 for texts), time zones with and without daylight saving of both hemispheres, whole and fractional offsets, texts valid or damaged, signed timevals.',
     'Errors show only next to a change of offset, the end of February, a negative amount, or the end of a buffer.',
     ['src/core/datetime.c', 'src/core/datetime-iso8601.c', 'src/datetime.h'],
     [('formats', 'src/datetime.h (time_fmt_*), src/core/datetime.c (format_timestamp, time_get_localtime)'),
      ('texts', 'src/core/datetime-iso8601.c'),
      ('periods', 'src/core/datetime.c (localtime_*)'),
      ('timevals', 'src/datetime.h (timeval_*), src/core/datetime.c (timeval_mul, timeval_div, timeval_format)')],
     'property-based testing against a reference calendar and POSIX zone rules, round trips, mutation of texts', EXPL)

prop('C31', 'Paths, network addresses and URLs mean the same before and after each operation',
     'For every path, splitting it gives its exact directory, base name and extension within any buffer; simplifying gives the shortest path made of the same components (absolute stays absolute, "." and ".." resolved, leading ".." of relative paths kept); path_is_safe refuses exactly the paths that are absolute or hold a ".."; extending ignores the prefix for absolute and "~/" suffixes and reports every overflow; following path_relative_to from its origin leads to its target. '
     'For every address, equality is equality of family, host, port or name, equal addresses hash alike, the text of an address resolves back to it, ports out of bounds are refused; a filter matches exactly the addresses of its family that share its mask bits (and port); an HTTP URL is split in exactly its user, password, host, port, path and arguments, or refused.',
     ['inputs'], 'All paths with dot components, repeated and trailing slashes and lengths around PATH_MAX, all buffer sizes, IPv4, IPv6 and unix addresses, masks, URLs valid or damaged.',
     'A wrong answer needs a particular mix of dots and slashes, a mask that ends inside a word, or a length at the limit.',
     ['src/core/str-path.c', 'src/net/addr.c', 'src/net/addr.h'],
     [('paths', 'src/core/str-path.c'),
      ('addresses and filters', 'src/net/addr.c (sockunion_*, addr_*)'),
      ('URLs', 'src/net/addr.c (parse_http_url)')],
     'property-based testing against lists of components, bit prefixes and generated URLs', EXPL)

prop('C33', 'A YAML document split in several files means the same, parsed or packed again',
     'For every set of files linked by !include and !includeraw, with overrides, variables (whole values or inside strings, set at any level) and merge keys, parsing gives exactly the document these constructs denote, and include loops, missing files, variables that are not set and overrides that change a type are refused. '
     'A document parsed with its presentation and packed again, into the same set of files, as one document, or alone next to its files, before or after changes of its data, is read back as the same data.',
     ['inputs', 'programs', 'histories'], 'All sets of files with nested includes, overrides, bindings, templates and merge keys; all values at their leaves; edits of the parsed data.',
     'Each construct is simple; what breaks is their combination (an override of a value that comes from a variable of an outer include), which the tests sample a few times.',
     ['src/core/yaml.c', 'src/yaml.h'],
     [('parsing', 'src/core/yaml.c (t_yaml_env_handle_include, t_yaml_env_handle_override, t_yaml_env_handle_merge_key, variables)'),
      ('packing', 'src/core/yaml.c (yaml_pack_env_*, t_deduce_variable_values)')],
     'property-based testing against a reference evaluator of generated sets of files, and parse/pack/parse round trips', EXPL)

prop('C30', 'Modules start after, and stop before, what they depend on, exactly once',
     'For every graph of modules and every history of requires and releases (by the program or by constructors and destructors), the loaded modules are exactly those required and what they depend on: each is initialized once, after all its dependencies, with its argument, and shut down once, when nothing requires it any more, before its dependencies; a failing shutdown does not keep others from being shut down; the end of the program shuts down all that is left, in order. '
     'A method runs once for each loaded module that implements it, and only for these, dependencies first or last as the method asks, forks included.',
     ['histories', 'programs'], 'All acyclic graphs with repeated edges and diamonds, declared in any order, all histories, methods of all kinds called at any time.',
     'A wrong reference count or order shows only for some graphs after some histories.',
     ['src/core/module.c', 'src/core/module.h'],
     [('requires and releases', 'src/core/module.c (module_require_internal, module_release, module_shutdown, notify_shutdown)'),
      ('end of the program', 'src/core/module.c (module_hard_shutdown)'),
      ('methods', 'src/core/module.c (modules_topo_visit, module_method_register_all_cb, module_run_method)')],
     'model-based testing: generated graphs and histories against a reference-count model', EXPL)

prop('C34', 'Command lines are read exactly as their options define',
     'For every table of options (flags, signed and unsigned integers of each size, strings, characters, groups) and every command line, parseopt sets each option to the last value given in any of its forms (-x v, -xv, --x v, --x=v, --no-x, flags together), leaves the others as they were, and returns the other arguments in order (all those after "--", or after the first one when asked, and the unknown options when asked); a missing, needless, malformed or out of range value and an unknown option are refused. parseopt_geti and parseopt_getu accept exactly the decimal numbers of their type.',
     ['inputs', 'configurations'], 'All tables and command lines; values around the bounds of 8, 16, 32 and 64 bits.',
     'The parser has one path per kind, form and flag; option names that are prefixes of others and values at the bounds are not all sampled.',
     ['src/core/parseopt.c', 'src/parseopt.h'],
     [('parser', 'src/core/parseopt.c (parseopt, parse_short_opt, parse_long_opt)'),
      ('values', 'src/core/parseopt.c (get_value, put_int_value)')],
     'property-based testing of generated tables and command lines against a model', EXPL)

prop('C35', 'A log message is delivered exactly when the level of its logger says so',
     'For every tree of loggers and history of level changes (direct, recursive, inherited, silent, reset, before or after the logger exists), the level of each logger is the one set on it, or the one forced or inherited from its parents, or its default, and logger_set_level returns the previous one; a message, whole or built by chunks (one message per line), reaches the handler, with its logger, level and text, if and only if its level is allowed. '
     'Captures hold exactly the messages logged while they were the innermost one, in order, and hide them from the handler if asked. Loggers are found by their full name, listed with their true configuration, names are sanitized to valid ones, and IS_DEBUG specifications are split as documented.',
     ['histories', 'inputs'], 'All trees of twelve loggers, static or allocated, and histories of creations, wipes, level changes, messages and captures.',
     'Levels are computed lazily, per generation: an outdated level shows only after a certain order of changes and uses.',
     ['src/core/log.c', 'src/core/log-iop.c', 'src/log.h'],
     [('levels', 'src/core/log.c (__logger_do_refresh, logger_set_level)'),
      ('messages', 'src/core/log.c (logger_putv, logger_put_in_buf)'),
      ('captures', 'src/core/log.c (log_start_buffering_filter, log_stop_buffering)'),
      ('configurations', 'src/core/log-iop.c')],
     'model-based testing: generated histories against a model of the tree of loggers', EXPL)

prop('C26', 'RPC queries are delivered once, in order, and answered exactly once',
     'For every history of queries, answers, cancellations, time-outs, closings and failures over an IOP channel (Unix stream or packet socket, TCP with or without TLS, local, proxied) and every way the system splits or refuses its reads and writes: a query is delivered at most once, with its argument, header and file descriptor, in the order of the queries of its priority; its callback is called exactly once, with the result, exception or status that its implementation gave, or with an abort, cancellation or time-out that did happen; '
     'what was not closed loses nothing, one-way messages included; the queue lengths count what waits, and no memory or descriptor leaks. A peer that sends forbidden or damaged messages gets the channel closed, never a crash, and what it sent before is still handled; the messages on the wire follow the documented format.',
     ['histories', 'fault_sequences', 'inputs', 'schedules'], 'All histories of up to some dozens of queries over each transport, with short writes and reads, refusals, and streams of valid, forbidden or damaged messages cut anywhere.',
     'Which messages share a write, where it is cut, and what is queued when a channel closes decide which path runs; tests use one connection on a fast socket and well-behaved peers.',
     ['src/iop/rpc-channel.blk', 'src/iop/rpc-channel.h', 'src/iop/ic.iop'],
     [('queries and answers', 'src/iop/rpc-channel.blk (__ic_query_flags, ic_read_process_query, ic_read_process_answer, ic_queue)'),
      ('transport', 'src/iop/rpc-channel.blk (ic_write, ic_read, ic_check_msg_hdr)'),
      ('closing', 'src/iop/rpc-channel.blk (ic_cancel_all, ic_disconnect, ic_bye, ic_msg_filter_on_bye)'),
      ('proxies', 'src/iop/rpc-channel.blk (ic_proxify, __ic_forward_reply_to)')],
     'stateful property-based testing with injected I/O faults against a model of the queries; reference peer on the wire', EXPL)

prop('C28', 'Every job runs exactly once, serially on its queue, before its group ends',
     'For every program of jobs and every interleaving of the threads: a job that is scheduled runs exactly once, even when the deques are full, threads block in system calls, or the library shuts down; the jobs of a queue run one at a time, those of one thread in the order of their submission, those of the main queue in the main thread; a synchronous call returns after its job, a wait for a group after all of its jobs, a notification comes once and after them; a thread data has one user at a time and is collected and freed once; a destroyed queue is not touched any more; and nothing waits for ever. '
     'The lock-free queues under them give every node once, in the order of each producer, and tell of the passage from empty to non-empty exactly once; a wake-up of an event count is never lost, and a timed wait lasts as long as asked.',
     ['schedules', 'programs'], 'All programs of up to 40 jobs (300 when the deques are flooded), over four serial queues and the main one, nested five levels deep, with 2 to 4 threads, and schedules with a preemption at any atomic operation, lock, futex call or yield, and stalls of one thread of up to 8192 steps. Sequentially consistent executions only.',
     'A lost wake-up or a double run needs one preemption between two given instructions; the tests run whatever schedule the machine gives.',
     ['src/core/thr-job.blk', 'src/core/thr-job.h', 'src/core/thr-mpsc.h', 'src/core/thr-spsc.h', 'src/core/thr-spsc.c', 'src/core/thr-evc.c', 'src/core/thr-evc.h'],
     [('work stealing', 'src/core/thr-job.blk (thr_syn_schedule, thr_job_dequeue, thr_job_try_steal)'),
      ('queues', 'src/core/thr-job.blk (thr_queue_drain, thr_queue_sync, thr_queue_destroy)'),
      ('groups', 'src/core/thr-job.blk (thr_syn_wait_until, thr_syn_notify, thr_syn_acquire_td)'),
      ('lock-free queues', 'src/core/thr-mpsc.h, src/core/thr-spsc.h'),
      ('event counts', 'src/core/thr-evc.c (thr_ec_timedwait, thr_ec_signal_n)')],
     'property-based testing of schedules: a deterministic scheduler over real threads, driven by the generated tape, with a model of the jobs', EXPL)

prop('C29', 'The event loop calls each event when it is due, once, and never after its end',
     'For every history of registrations, changes, unregistrations and turns of the event loop, from outside and from inside the callbacks (which may run the loop again), and every sequence of arrivals (data, closed peers, signals, ends of children, wake-ups, passing time): a timer is called at or after its expiry, in the order of the due dates, in the first turn after it, once or once per period, and the loop sleeps no longer than until the next one, and not at all when an event is pending; a ready descriptor is called with the events that are ready and wanted, none of lower priority with it, an inactivity is told when its delay has passed with no activity; '
     'a proxy is called as long as what it offers is wanted, a signal, the end of a child or a wake-up at least once after each arrival and not without one, before-events at every turn. Nothing is called after its unregistration, its data is given back and its block released once, owned descriptors are closed and others are not; el_loop runs as long as there is a referenced event and no longer.',
     ['histories', 'schedules', 'inputs'], 'All histories of up to 48 steps over two dozen events of each kind, actions in the callbacks, nested loops (except from inside the callback of a timer), a virtual clock, and signals and data arriving at the moment of the poll.',
     'Callbacks that unregister, restart or loop while a list is being walked need one given order of events; the tests run a few timers and descriptors in real time.',
     ['src/core/el.blk', 'src/core/el-epoll.in.c', 'src/el.h'],
     [('timers', 'src/core/el.blk (el_timer_process, el_timer_restart, el_timer_next_expiration)'),
      ('descriptors', 'src/core/el-epoll.in.c (el_loop_fds, el_fd_unregister), src/core/el.blk (el_fd_fire, el_fd_process_fired, el_fd_watch_activity)'),
      ('signals and children', 'src/core/el.blk (el_signal_process, el_child_hook)'),
      ('the loop', 'src/core/el.blk (el_loop_timeout, el_loop, el_unregister)')],
     'model-based testing with a virtual clock and generated outside events: histories against a reference model of the events', EXPL)
