"""The checks: which harness, in which builds, decides which property."""
A16 = 'asan16'; A32 = 'asan32'
def std(harness, **kw): return [dict(flavour=A16, harness=harness, **kw)]
def both(harness, **kw): return [dict(flavour=A16, harness=harness, **kw), dict(flavour=A32, harness=harness, **kw)]
SYSCALLS = 'tmpfile tmpfile64 mkstemp mkstemp64 mkostemp memfd_create fdopen ftruncate ftruncate64 posix_fallocate mmap mmap64 munmap mremap madvise posix_madvise iconv_open iconv open open64 stat access'
def wraps(names): return ' '.join('-Wl,--wrap=' + n for n in names.split())
COMMON = ['single-threaded use of each object unless stated', 'g++ 13, glibc iconv, ICU as installed', 'letters and words outside the enumerated alphabets behave like those inside']
CHECKS = {}
def check(id, targets, technique, note, bounds, level='model_checking', **kw):
    CHECKS[id] = dict(targets=targets, technique=technique, note=note, bounds=bounds, level=level, assumptions=COMMON, **kw)

check('C08', std('c08.cc'), 'exhaustive bounded exploration of dictionaries and queries on the real index, against an exhaustive edit-cost reference',
      'all words up to 6 letters over 2 (4 over 3) symbols as dictionary and query, all ordered dictionaries of up to 3 words, all edit positions in long words, costs beyond 2^16, up to 70000 matches, all histories of 4 (5) insertions and lookups mixed',
      dict(quick='words <=6 over {x,y}, <=4 over {x,y,z}, 5 alphabets; ordered dictionaries of <=3 of 14 words; lengths to 256 with 2 edits; insertions and lookups mixed to depth 4; 70000 matches', thorough='words <=8 over {x,y}, <=5 over {x,y,z}; dictionaries of 4; lengths to 300; mixed to depth 5'))
check('C01', both('c01.cc'), 'exhaustive enumeration of Unicode scalar values, short byte strings and lengths on the real conversion code, against an independent codec',
      'well-formedness is decided by a hand-written RFC 3629 decoder; lower-casing by ICU per code point; both letter-width builds',
      dict(quick='every scalar value alone and in context; all byte strings <=2; <=4 over 23 class bytes; lengths 0..400 per width',
           thorough='all scalar values in 5 contexts; byte strings <=5 over 23 class bytes; lengths 0..2400'))
check('C02', both('c02.cc'), 'exhaustive exploration of operation histories on words, against plain values',
      'all histories of up to 3 (4) operations on two words and 2 (3) on three, from about 40-80 operations; order/equality/hash of all pairs of 400 words; long words against each word that differs in one letter and each prefix',
      dict(quick='histories: 2 words depth 3, 3 words depth 2; pairs of 400 words', thorough='2 words depth 4, 3 words depth 3'))
check('C03', both('c03.cc'), 'exhaustive enumeration of letter sequences and texts against the validity rule',
      'letter sequences to length 5 (6) over 12 letters (null among them) on both sides of every boundary, every single letter in 6 contexts, words to 65537 letters with one bad letter',
      dict(quick='sequences <=5 over 12 letters; every letter in 6 contexts; text <=4 over 9 symbols', thorough='sequences <=6; text <=6'))
check('C04', both('c04.cc'), 'exhaustive enumeration of (word, buffer size) pairs on exact heap blocks under AddressSanitizer',
      'all words to 4 (6) symbols over 4 encodings widths, every buffer size from 0 to past the fit, both the C++ and the C call',
      dict(quick='words <=4 symbols, all buffer sizes; long words around the fit', thorough='words <=6 symbols; lengths to 6000'))
check('C05', both('c05.cc'), 'exhaustive enumeration of texts against the run definition',
      'texts to 7 (9) characters over 4 symbols, to 4 (5) over 13 symbols including ill-formed bytes; run length triples for buffer reuse, words and gaps beyond 2^16',
      dict(quick='<=7 over 4 symbols, <=4 over 13, run lengths to 4096', thorough='<=9 over 4 symbols, <=5 over 13'))
check('C06', both('c06.cc'), 'exhaustive exploration of request histories on the real word store, against a plain map',
      'all histories of up to 5 (6) requests over 9 prefix-sharing words, all orders of 5-6 words of 3 vocabularies, growth to 70000 words in 6 shapes',
      dict(quick='histories depth 5 over 9 words; growth to 70000 words', thorough='depth 6; growth to 70000 words'))
check('C07', std('c07.cc'), 'exhaustive exploration of insertion histories on the real index, against a plain multiset',
      'all histories of up to 5 (7) insertions over 8 words, repetition counts across 8- and 16-bit boundaries, growth in 5 shapes; one identifier per word as the library requires',
      dict(quick='histories depth 5 over 8 words; counts to 65537; 2000 words', thorough='depth 7; 40000 words'))
check('C09', std('c09.cc'), 'exhaustive enumeration of cost configurations, queries and words on the real index, against an exhaustive search for the cheapest edit script',
      'grid of 4 (7) values for each of five costs x 3 limits x substitution tables x all words to 4 (5) letters; substring mode; accumulation over long words; all histories of 3 (4) changes to two tables used with one index; costs to 10^6; words to 300000 letters reached by free or unlimited edits',
      dict(quick='4^5 cost grid x 3 limits x 3 tables, words <=4, queries <=3; letters around the 512 boundary', thorough='7^5 grid x 3 x 5, words <=5, queries <=4'))
check('C10', std('c10.cc'), 'exhaustive exploration of definition histories on the real cost table, against the written rule',
      'all histories of 3 (4) definitions from about 34 over letters on both sides of the table boundary, all pairs of 8 letters after each; full 640x640 sweeps; hundreds of groups; cost values to 2^30',
      dict(quick='depth 3 over 33+23 operations; groups to 24 letters', thorough='depth 4; groups to 60 letters'))
check('C11', std('c11.cc'), 'exhaustive exploration of preset combinations and data-file situations, all letter pairs compared with the documented layouts',
      'all sequences of up to 3 (4) of 8 operations, all pairs of about 200 letters; 6 directory situations x 13 data files',
      dict(quick='sequences <=3 of 8 presets; 78 data-file situations', thorough='sequences <=4'))

ENG = 'corpora of up to 3 documents over 2 fields and 4-5 words chosen to lie on both sides of every tolerance are complete; larger corpora (65537 documents, thorough also 65535 and 70000; 70000 occurrences, 100 fields) in fixed shapes'
check('C12', std('c12.cc'), 'exhaustive enumeration of small corpora, queries and parameters on the real engine, against an independent reference engine', ENG,
      dict(quick='1 document x all texts <=3 words x queries <=2; all pairs of documents (<=2 words in one field, <=1 in another) x queries <=2 x 4 parameter sets; all triples in one field; 300 documents; 100 fields; 5^4 cost grid',
           thorough='same plus 1000 documents and 5^5 cost grid'))
check('C13', std('c12.cc', flags='-DRELEVANCY', name='asan16/c12.cc-relevancy'), 'exhaustive enumeration of small corpora, weights, queries and parameters on the real engine, relevancies and order compared with the written formula', ENG + '; relevancies compared with relative tolerance 1e-9',
      dict(quick='as C12 with field weights; frequencies to 70000', thorough='as C12 thorough with 12 weight combinations'))

check('C14', std('c14.cc'), 'exhaustive exploration of operation histories on result lists, against plain vectors',
      'all histories of 4 (5) operations on two lists (20 operations each: additions with ties, reads, merges, single copies, copies, moves, self operations), 3 (5) after preloading, three lists depth 2 (3); all orders of up to 6 (8) additions with reads at every point; lists to 70000',
      dict(quick='2 lists depth 4; 1 list depth 5; 3 lists depth 2; additions to 6', thorough='2 lists depth 5; 1 list depth 6; 3 lists depth 3; additions to 8'))

check('C15', std('c15.cc'), 'exhaustive enumeration of filters over small corpora on the real engine, against the plain predicate',
      'all filters of one term with up to two requirements and two terms with up to one over 3 fields x 3 words (unknown ones included) on all 256 pairs of documents; two terms of two and three terms of one over 2x2; up to 257 requirements or terms; 3000 documents',
      dict(quick='256 corpora x 4 searches x 191 filters; 256 corpora x 21x21 filters of two terms of up to two requirements, and three terms of one', thorough='256 corpora x 91x91 filters of two terms of up to two requirements over 9 pairs'))
check('C17', std('c17.cc'), 'exhaustive enumeration of small corpora and live queries on the real engine, against the reference engine',
      'all pairs of documents with up to two words in one field and one in the other, all queries of up to three of three words, both fields primary; titles of three words with repetitions; titles to 70000 words; a field is unknown if its name was never seen in the data at all',
      dict(quick='all queries for one field, every third for the other', thorough='all queries for both; queries of 4 words against titles'))

check('C16', std('c16.cc'), 'exhaustive exploration of histories of indexing, querying and failing calls on the real engine, against the reference engine',
      'all histories of up to 4 (5) of 14 operations, all 1920 ways to order and cut five documents into indexing calls (with and without queries in between), re-indexing and growth to 3000 documents; indexing calls that fail half-way are left to C21 and C22',
      dict(quick='histories <=4 of 14 operations, 29 probes each; 3840 partitions', thorough='histories <=5'))

check('C18', std('c18.cc'), 'exhaustive exploration of operation histories on documents, corpora and word lists, against plain maps and vectors',
      'all histories of 4 (5) operations on two word lists (16 operations each) and on two documents (12 (17) operations each), 6 (8) on two corpora; lists, documents and corpora to 70000 entries',
      dict(quick='two lists depth 4, three depth 2, two documents depth 4, corpora depth 6', thorough='two lists depth 5, three depth 3, two documents depth 5, corpora depth 8'))
check('C26', std('c26.cc'), 'exhaustive exploration of setting histories on weights, parameters and filters, and of their effect on real queries, against plain values and the reference engine',
      'all histories of 3 (4) weight settings over 2 objects x 6 fields x 4 values, 5 (6) of 9 parameter operations, 3 (4) settings/queries over two engines, 4 (5) over a reused parameter object; all pairs of 82 field names that are prefixes and neighbours of each other, up to 300 letters; filters to 65537 terms or requirements',
      dict(quick='depths 3, 5, 3, 4', thorough='depths 4, 6, 4, 5'))

check('C25', both('c25.cc'), 'exhaustive enumeration of case patterns over every place where text enters the real engine, answers compared with the lower-case spelling',
      'all case patterns of two letters in eight places at once for 2 (4) alphabets; every cased letter of the supported range in each of nine places; letters whose case mapping is not one-to-one are compared with their lower-case form only',
      dict(quick='2 x 16384 patterns; about 2300 (default build) letters x 9 places', thorough='4 x 262144 patterns'))

check('C27', [dict(flavour=A16, harness='c27.cc'), dict(flavour='trie16', harness='c27.cc')], 'exhaustive exploration of insertion sequences around every storage growth, and of exhaustion in a build whose storage offsets are narrowed to 16 bits, against plain containers',
      'growth at every alignment of the first 140 (530) words lengths with all prefix-sharing continuations; words to 70000 letters; exhaustion of a 64 KiB address range in 5 shapes x 13 lengths x 8 (33) alignments with all continuations of two operations; the 4 GiB limit of the real build is represented by the narrowed one',
      dict(quick='140 alignments x 2 objects x 400 continuations; 5 shapes x 13 lengths x 8 alignments x 36 continuations', thorough='530 alignments; 100000 words; 33 alignments'))

check('C19', std('c19.cc'), 'exhaustive exploration of histories of C calls on the real C interface, each mirrored by the corresponding C++ calls',
      'all histories of up to 3 (4) of 19 operations from an empty and from a prepared world; texts of up to 2 (3) bytes over 21 byte classes through every entry; missing data files; calls with null handles are outside the property',
      dict(quick='histories <=3 (14478), texts <=2', thorough='histories <=4 (about 275000), texts <=3'))

check('C20', std('c20.cc', flags=wraps(SYSCALLS)), 'exhaustive exploration of histories of operations, each repeated in fresh worlds while live heap, descriptors, shared mappings and files are compared',
      'all histories of up to 2 (3) of 53 operations covering every class, refused calls included; the same with each system request of a history refused once; leaks when memory itself runs out are outside the property',
      dict(quick='histories <=2 of 53 operations; single refused requests in single operations', thorough='histories <=3; single refused requests in histories of 2'))

check('C21', std('c21.cc', flags=wraps(SYSCALLS)), 'fault enumeration: the explorer lets every system request of every history fail in turn, and compares the real objects with reference models after the failure and after the repetition',
      'one failing request per history (two in the thorough tier); operations on every class, failing reads of the data files included',
      dict(quick='one failure; histories of up to 2 engine operations; 6 vocabularies with growth', thorough='two failures; histories of up to 3 engine operations (with three, one failure)'),
      level='fault_enumeration', rule='executions in which a request was made to fail, counted by their complete sequence of choices: each lets a different request of a different history fail')
MEMWRAPS = 'malloc calloc realloc strdup strndup exit'
check('C22', [dict(flavour=A16, harness='c21.cc', flags='-DFAULT_MEMORY ' + wraps(MEMWRAPS), name='asan16/c22'), dict(flavour='nosparse16', harness='c21.cc', flags='-DFAULT_MEMORY ' + wraps(MEMWRAPS), name='nosparse16/c22')],
      'fault enumeration: the explorer lets every allocation of every history fail in turn, and compares the real objects with reference models after the failure and after the repetition',
      'one failing allocation per history; operator new, malloc, calloc, realloc, strdup and strndup called by the library; allocations inside libc, ICU and iconv are not made to fail; with and without sparsehash',
      dict(quick='one failure; histories of up to 2 engine operations', thorough='one failure; histories of up to 3 engine operations'),
      level='fault_enumeration', rule='executions in which a request was made to fail, counted by their complete sequence of choices: each lets a different request of a different history fail')

check('C24', [dict(name='python', prepare=lambda run: run.prepare_python())],
      'exhaustive exploration of short histories of Python operations on the real module, compared call by call with the same C++ library called directly, under AddressSanitizer',
      'about 43 operations to depth 2 (3); all texts to 2 (3) characters over 12; numbers at every representation boundary; all interleavings of two of 10 object lifetimes; every argument of every method given wrong types',
      dict(quick='histories <=2, texts <=2', thorough='histories <=3, texts <=3'))

SCHEDWRAPS = 'memcpy memmove memset memcmp strlen strcmp strcpy strncpy strcat strdup strtok setlocale rand iconv mmap mmap64 munmap'
check('C23', [dict(flavour=A16, harness='c23.cc', name='asan16/c23'), dict(flavour='sched16', harness='c23.cc', flags=wraps(SCHEDWRAPS), name='sched16/c23')],
      'exhaustive exploration of the schedules of two threads on the real code under a controlled scheduler that switches at conflicting memory accesses, and of the merges of two and three histories in one thread; every result compared with running alone',
      'all pairs of 20 programs over private objects; switches at accesses of the library and its inline code to addresses both threads use (found by iteration to a fixpoint), up to 3 preemptions where these are few, else 1; libc, iconv and ICU calls are single steps; sequentially consistent memory',
      dict(quick='all pairs of 20 programs: schedules with 1-3 preemptions, merges with 1-2 switches; triples with <=1', thorough='merges with <=4 switches; triples with <=2; preemption bound 2-3 for more places'))
