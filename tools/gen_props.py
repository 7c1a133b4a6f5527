#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('C01', 'Text becomes a word letter by letter, lower-cased, and back again',
 'Constructing a word from well-formed UTF-8 text without whitespace yields exactly the letters of that text, each lower-cased, and exporting the word as UTF-8 yields the UTF-8 of those letters. Text that is not well-formed UTF-8 is refused with an exception, never altered silently. In the default build letters outside the Basic Multilingual Plane keep their case and count as two letters; in the full-Unicode build they count as one and are lower-cased too.',
 ['inputs', 'configurations'], 'all Unicode scalar values, all short byte strings (well-formed or not), all text lengths, both letter-width configurations',
 'WordTest.cc converts a handful of literals; nothing enumerates encodings, lengths (the buffer is shrunk depending on them), ill-formed bytes, or the 32-bit letter build.',
 ['src/Word.cc', 'src/ColumbusHelpers.cc', 'include/ColumbusCore.hh.in'],
 [('utf8ToInternal: iconv conversion, shrink to size, lower-case', 'src/ColumbusHelpers.cc'), ('internalToUtf8', 'src/ColumbusHelpers.cc'), ('Word::convertString', 'src/Word.cc')],
 observe=['Word::length', 'Word::operator[]', 'Word::asUtf8'])

prop('C02', 'Words are independent values under any history of operations',
 'After any sequence of copies, moves, assignments, joins, self-assignments and assignments that were refused, every word still is a valid word holding its own value: its letters, length, UTF-8 form, equality and hash agree with each other, and changing one word never changes another. Words are ordered lexicographically by letter, equal words have equal hashes, and reading a letter past the end raises an exception.',
 ['histories', 'inputs'], 'all operation sequences up to a bounded depth on a set of word variables, all pairs of short words',
 'Unit tests run each operation once from a fresh word; aliasing, reuse after a refused assignment or after a move, and the ordering axioms are not covered.',
 ['src/Word.cc', 'include/Word.hh'],
 [('Word::duplicateFrom / operator= / move operations / join', 'src/Word.cc'), ('Word::operator<, operator==, hash', 'src/Word.cc')],
 state=[('text,len', 'owned letter buffer and its length', 'include/Word.hh')])

prop('C03', 'No word ever contains whitespace, a null letter or a broken surrogate pair',
 'A word can only be created if none of its letters is whitespace (space, tab, newline, carriage return) or null (one null may follow the letters to terminate them) and every surrogate in it belongs to a properly ordered high/low pair; every other attempt is refused with an invalid-argument exception, whichever constructor is used. Letter sequences that satisfy this are accepted and preserved exactly.',
 ['inputs', 'configurations'], 'all letter sequences up to a bounded length over an alphabet with every boundary of the surrogate ranges, every whitespace letter and null; every single letter value',
 'The tests try three malformed sequences; position, truncation at the end, repetition and the range boundaries are open.',
 ['src/Word.cc', 'include/ColumbusCore.hh.in', 'src/ColumbusHelpers.cc'],
 [('Word::hasBrokenSurrogates', 'src/Word.cc'), ('Word::hasWhitespace, isWhitespace', 'src/Word.cc, src/ColumbusHelpers.cc'), ('isHighSurrogate/isLowSurrogate', 'include/ColumbusCore.hh.in')])

prop('C04', 'Exporting a word never writes outside the caller\'s buffer',
 'Writing a word as UTF-8 into a caller-supplied buffer of n bytes touches at most those n bytes, for every word and every n. If the text and its terminating NUL fit, the buffer holds exactly that NUL-terminated text; if they do not fit, the C++ call raises an exception, and the buffer (if n is at least 1) still holds a NUL-terminated string.',
 ['inputs'], 'all words over letters of every UTF-8 width up to a bounded length, every buffer size from 0 to beyond the needed size, C++ and C entry points',
 'Tests use two ample buffers; the exact-fit and too-small sizes are never tried and an overflow by one byte would pass them.',
 ['src/ColumbusHelpers.cc', 'src/Word.cc', 'src/ColumbusCAPI.cc'],
 [('internalToUtf8 output accounting', 'src/ColumbusHelpers.cc'), ('col_word_as_utf8', 'src/ColumbusCAPI.cc')])

prop('C05', 'Splitting text yields exactly its maximal non-whitespace runs, in order',
 'Splitting any well-formed UTF-8 text yields one word per maximal run of non-whitespace characters, in order of appearance, none lost, merged, truncated or empty. Text that contains a null letter, or whose runs are not well-formed UTF-8, is refused with an exception, never cut short.',
 ['inputs'], 'all texts up to a bounded length over an alphabet of whitespace, ASCII and multi-byte characters; all combinations of run lengths',
 'HelpersTest.cc checks a dozen literals; the reuse of the scratch buffer across runs of different lengths and multi-byte text are not explored.',
 ['src/ColumbusHelpers.cc', 'src/WordList.cc'],
 [('split / splitToWords', 'src/ColumbusHelpers.cc'), ('WordList', 'src/WordList.cc')])

prop('C06', 'Word identifiers are a stable one-to-one numbering of the words seen',
 'A word store gives each distinct word one identifier that never changes, different words get different identifiers, and an identifier always maps back to exactly its word. Membership answers are exact: only words actually added are reported present (not their prefixes, extensions or neighbours), only issued identifiers are known, and asking never adds anything.',
 ['histories', 'inputs'], 'all insertion/query sequences up to a bounded depth over words chosen to share prefixes, plus every growth point of the backing storage',
 'WordStoreTest.cc inserts a few words; orderings, shared prefixes, re-insertion and growth of the storage are not enumerated.',
 ['src/WordStore.cc', 'src/Trie.cc'],
 [('WordStore::getID / getWord / hasWord', 'src/WordStore.cc'), ('Trie::insertWord / findWord / getWord', 'src/Trie.cc')],
 state=[('wordIndex', 'id to trie node', 'src/WordStore.cc')])

prop('C07', 'An index knows exactly the words inserted and how often',
 'After any sequence of insertions an index reports as present exactly the inserted non-empty words, the number of distinct words, for each word identifier how many times it was inserted, and the largest such count. Inserting the empty word has no effect.',
 ['histories'], 'all insertion sequences up to a bounded depth over prefix-sharing words, and long repetition counts',
 'LevTrieTest.cc walks a few fixed sequences of at most three words.',
 ['src/LevenshteinIndex.cc', 'src/Trie.cc'],
 [('LevenshteinIndex::insertWord / wordCount / maxCount', 'src/LevenshteinIndex.cc'), ('Trie::insertWord', 'src/Trie.cc')])

prop('C08', 'Error-tolerant lookup is sound, complete and reports the exact distance',
 'With the default costs, looking up a query with a maximum error returns every indexed word whose Damerau-Levenshtein distance to the query (insert, delete, substitute, swap adjacent letters, each costing 100, no substring edited twice) is at most that maximum, each exactly once with exactly that distance, and nothing else. Results come in order of increasing distance, each naming the query it answers, and do not depend on which other words are indexed or on the insertion order.',
 ['inputs', 'histories'], 'all dictionaries and insertion orders of bounded size, all queries up to a bounded length, all maximum errors at and around each threshold; every word length and edit position up to a larger bound',
 'LevIndexTest.cc checks some fifteen word pairs; a pruning or matrix bug that loses one candidate in one dictionary shape passes it.',
 ['src/LevenshteinIndex.cc', 'src/ErrorMatrix.cc', 'src/Trie.cc', 'src/IndexMatches.cc'],
 [('searchRecursive: depth-first search with row reuse and pruning', 'src/LevenshteinIndex.cc'), ('findOptimalError recurrence', 'src/LevenshteinIndex.cc'), ('ErrorMatrix', 'src/ErrorMatrix.cc')],
 state=[('ErrorMatrix', 'one row per trie depth, overwritten by each branch', 'src/ErrorMatrix.cc')])

prop('C09', 'Configured error costs are honoured exactly, including substring mode',
 'For every configuration of non-negative insertion, deletion, end-deletion, start-insertion, transposition and per-letter substitution costs, lookup returns exactly the words whose cheapest edit script under those costs is within the maximum error, with that cost. An extra query letter costs the insertion error; an indexed letter missing from the query costs the start-insertion error before the first query letter (the insertion error if the query is shorter than the substring limit), the end-deletion error after the last one, and the deletion error in between.',
 ['configurations', 'inputs'], 'all cost configurations over a grid including equal, cheap, zero and expensive values, all short words and queries, thresholds at every attainable cost',
 'Tests vary one cost at a time on a single word pair; combinations (e.g. cheap swaps under pruning, unequal insertion and deletion) are never run.',
 ['src/LevenshteinIndex.cc', 'include/ErrorValues.hh', 'src/ErrorMatrix.cc', 'src/ErrorValues.cc'],
 [('findWords initial row and column', 'src/LevenshteinIndex.cc'), ('findOptimalError', 'src/LevenshteinIndex.cc'), ('ErrorValues getters, setSubstringMode', 'include/ErrorValues.hh, src/ErrorValues.cc')])

prop('C10', 'The substitution cost table reflects the configured errors for all letters',
 'At any time the cost of substituting one letter for another is symmetric, zero for equal letters, the most recently set individual error of that pair if there is one, otherwise the error of the group containing both letters, otherwise the default; clearing restores the defaults. This holds identically for all letter values, whichever internal lookup serves them, and a group definition that is refused because a letter already belongs to another group changes nothing.',
 ['histories', 'inputs'], 'all sequences of individual-error, group-error and clear operations up to a bounded depth over letters on both sides of the fast-lookup limit, all letter pairs after each step',
 'ErrorValuesTest.cc sets a few pairs once; precedence, re-setting, refused groups and the boundary between fast and slow lookup are not covered.',
 ['src/ErrorValues.cc', 'include/ErrorValues.hh'],
 [('setError / setGroupError / addToLUT / clearErrors', 'src/ErrorValues.cc'), ('getSubstituteError fast path and substituteErrorSlow', 'src/ErrorValues.cc')],
 state=[('lut', 'precomputed costs for letters below 512', 'src/ErrorValues.cc')])

prop('C11', 'Accent, keyboard and number-pad presets set exactly the documented costs',
 'The accent presets give every pair of distinct letters on one line of the installed data file the group error and refuse with an exception when the data file cannot be found; the keyboard preset gives every pair of horizontally or diagonally adjacent keys of the Finnish layout the typo error; the number-pad preset gives a digit and the letters on its key error 0 and a digit and the letters on the key left, right, above or below it error 50. All other pairs keep their previous cost, in whatever order and combination presets are applied.',
 ['configurations', 'inputs'], 'all ordered combinations of presets and clearing, all pairs of letters occurring in any preset or in the fast-lookup range, all data-directory settings',
 'Tests probe two or three pairs per preset; edges of the layouts and combinations of presets are not checked.',
 ['src/ErrorValues.cc', 'src/ColumbusSlow.cc', 'share/latinAccentedLetterGroups.txt', 'share/greekAccentedLetterGroups.txt'],
 [('addAccents / addKeyboardErrors / addNumberpadErrors / addStandardErrors', 'src/ErrorValues.cc'), ('findDataFile', 'src/ColumbusSlow.cc')])

prop('C12', 'A query returns exactly the documents containing a close-enough word',
 'A query returns each document at most once, and exactly those documents that contain, in a searchable field, a word within the permitted error of some query word: 100 for one-letter query words and 200 for others by default, 200 for all when dynamic tolerance is off. An empty query, or one without close words, returns nothing; documents, fields and words of every kind (including empty fields and empty words) can be indexed without affecting the others.',
 ['inputs', 'histories', 'configurations'], 'all small corpora (documents x fields x texts), all short queries, both tolerance modes, all sets of non-searching fields; corpora of every size up to a bound',
 'MatcherTest.cc checks ten hand-written scenarios with one or two documents and two fields.',
 ['src/Matcher.cc', 'src/LevenshteinIndex.cc', 'src/SearchParameters.cc', 'src/WordStore.cc'],
 [('Matcher::buildIndexes / addToIndex', 'src/Matcher.cc'), ('matchIndexes, addMatches, gatherMatchedDocuments', 'src/Matcher.cc'), ('ReverseIndex', 'src/Matcher.cc'), ('getDynamicError', 'src/SearchParameters.cc')],
 state=[('reverseIndex', '(field, word) to documents', 'src/Matcher.cc')])

prop('C13', 'Relevancy adds up over matched words and results are ranked by it',
 'The relevancy of a returned document is the sum, over each searchable field and each distinct word of it that matched, of the field weight times 100/(100+error) times 1-n/(N+1), where error is the smallest error to any query word that matched it, n is how often the word was indexed in that field and N the count of the most frequent word of that field. Results are listed in order of non-increasing relevancy, and the same query on the same index always gives the same list.',
 ['inputs', 'configurations'], 'all small corpora and multi-word queries, all assignments of a set of field weights (including zero and fractional)',
 'Tests only compare the top one or two results of hand-picked corpora; best-error selection, word counts, per-field sums and weights are not checked numerically.',
 ['src/Matcher.cc', 'src/MatchResults.cc', 'src/IndexWeights.cc', 'src/LevenshteinIndex.cc'],
 [('calculateRelevancy, gatherMatchedDocuments, addMatches', 'src/Matcher.cc'), ('MatchResults::sortIfRequired', 'src/MatchResults.cc')])

prop('C14', 'A result list keeps exactly what was added, best first, under any history',
 'After any sequence of additions, merges, single-result copies, copies, moves and reads, a result list holds exactly the results put into it, listed by non-increasing relevancy with ties in order of addition; copying result i from another list copies what that list reports as result i. Lists are independent values, a moved-from list can be reused, reading never changes what later reads report, and an index past the end raises an exception.',
 ['histories'], 'all operation sequences up to a bounded depth over several result lists, relevancies with ties, reads interleaved at every point',
 'MatchResultsTest.cc adds three results and exercises assignments only for memory checking; the lazy sort combined with copying and merging is not covered.',
 ['src/MatchResults.cc', 'include/MatchResults.hh'],
 [('sortIfRequired lazy stable sort', 'src/MatchResults.cc'), ('copyResult / addResults / assignment and move', 'src/MatchResults.cc')],
 state=[('sorted', 'lazy-sort flag', 'src/MatchResults.cc')])

prop('C15', 'Filters keep exactly the results that satisfy one of their alternatives',
 'A filter is a disjunction of terms, each a conjunction of (field, word) requirements: the filtered result list is exactly the unfiltered list restricted to documents for which, in at least one term, every required word occurs exactly in its required field. Relevancies and order are unchanged; a term without requirements accepts everything; requirements may name fields excluded from searching, and unknown fields or words simply match no document.',
 ['inputs', 'configurations'], 'all filters of bounded numbers of terms and requirements over known and unknown fields and words, on a set of corpora and queries',
 'ResultFilterTest.cc checks four filters on two documents.',
 ['src/Matcher.cc', 'src/ResultFilter.cc', 'src/SearchParameters.cc'],
 [('subtermsMatch and the filter loop of Matcher::match', 'src/Matcher.cc'), ('ReverseIndex::documentHasTerm', 'src/Matcher.cc'), ('ResultFilter', 'src/ResultFilter.cc')])

prop('C16', 'Queries leave no trace; only the indexed documents determine the answers',
 'The answer to a query depends only on the documents indexed, the configured costs and weights, and the query itself: not on queries, filters or failed calls made before, not on how the documents were spread over indexing calls or ordered within them, and not on whether the original corpus and documents still exist. Documents indexed later are found as if they had been there from the start.',
 ['histories'], 'all interleavings up to a bounded depth of indexing steps and queries of every kind, compared with a freshly built engine; all partitions and permutations of a small document set',
 'Every test builds one corpus, indexes once and queries; no test queries, then indexes, then queries, or mixes filtered and live queries.',
 ['src/Matcher.cc', 'src/WordStore.cc', 'src/Corpus.cc', 'src/Document.cc'],
 [('Matcher::match / onlineMatch / index', 'src/Matcher.cc'), ('WordStore::getID (inserts unknown words)', 'src/WordStore.cc')],
 state=[('store', 'word numbering shared by indexing and querying', 'src/Matcher.cc')])

prop('C17', 'Live search boosts exact matches in the primary field, perfect ones most',
 'A live search returns every document the ordinary query returns plus every document containing some query word exactly in the primary field. Each document scores its ordinary relevancy plus 2 for every query word that occurs exactly in its primary field, plus 100 if all query words do and their number equals the number of words in that field; naming a primary field that occurs nowhere in the indexed data is refused with an invalid-argument exception.',
 ['inputs', 'histories'], 'all small corpora and queries over a two-field vocabulary with repeated, partial and perfect matches, every choice of primary field',
 'Tests check the top document of six corpora; the scores, the perfect-match condition with repeated words, and re-indexed documents are not checked.',
 ['src/Matcher.cc'],
 [('Matcher::onlineMatch, countExacts', 'src/Matcher.cc')],
 state=[('originalSizes', 'words per (document, field)', 'src/Matcher.cc')])

prop('C18', 'Documents, corpora and word lists hold exactly what was put in them',
 'After any sequence of operations a document reports its identifier, its field names, and for each field exactly the text last added to it; word counts equal the number of occurrences; a corpus and a word list report exactly the items added, in order. Copies are independent of their originals, moved-from lists can be reused, and unknown fields or positions past the end raise exceptions.',
 ['histories'], 'all operation sequences up to a bounded depth over several documents, word lists and a corpus',
 'Container tests run one short fixed sequence each.',
 ['src/Document.cc', 'src/Corpus.cc', 'src/WordList.cc'],
 [('Document::addText / getText / wordCount', 'src/Document.cc'), ('Corpus::addDocument', 'src/Corpus.cc'), ('WordList copy, move, assignment', 'src/WordList.cc')])

prop('C19', 'The C interface behaves as the C++ library and never lets errors escape',
 'Every sequence of C calls gives the same words, documents, results, relevancies, weights and costs as the corresponding C++ calls. Any failure (ill-formed text, whitespace in a word, index past the end) is reported by the documented sentinel value (NULL, 0, the invalid document identifier, -1) with no exception leaving the call, and leaves all handles usable.',
 ['histories', 'inputs'], 'all sequences of C calls up to a bounded depth, with valid and failing arguments, mirrored step by step on the C++ classes',
 'CAPITest.c runs one successful scenario and never reads a relevancy or provokes an error.',
 ['src/ColumbusCAPI.cc', 'include/columbus.h'],
 [('col_* wrappers and their catch blocks', 'src/ColumbusCAPI.cc')])

prop('C20', 'Destroying objects releases everything they held',
 'Once the objects created by any sequence of library calls, successful or refused, are destroyed, all memory, open files, temporary files and memory mappings they used have been released, so creating and destroying objects repeatedly never accumulates resources.',
 ['histories', 'fault_sequences'], 'all short programs over the library operations including refused inputs, each repeated and compared for growth in live heap, descriptors, mappings and files',
 'No test looks at resources after destruction; a leak per object or per refused input passes all of them.',
 ['src/Trie.cc', 'src/Word.cc', 'src/ColumbusHelpers.cc', 'src/Matcher.cc', 'src/WordList.cc', 'src/MatchResults.cc'],
 [('Trie::~Trie', 'src/Trie.cc'), ('utf8ToInternal / split error paths', 'src/ColumbusHelpers.cc'), ('destructors of all public classes', 'src/*.cc')])

prop('C21', 'System failures surface as errors and leave the index intact',
 'If the operating system refuses a request (temporary file creation, growing or mapping index storage, creating or running a character converter, opening or reading a data file) at any point of any operation, that operation either still gives its full normal result or reports an exception (or the C sentinel), and nothing crashes. Everything recorded by operations that had completed before is kept: words keep their value, stores and word indexes answer as before, and indexed documents are still found (an indexing call that fails half-way may have added part of its documents, which may shift relevancies but must not hide or invent documents). Repeating the failed operation once the system recovers succeeds, with the result it would have had.',
 ['fault_sequences', 'histories'], 'every single system call of every step of a set of histories made to fail (and every pair in the deep tier), with the state compared before and after',
 'No test injects a failure; the growth path that unmaps before remapping is never run with an error.',
 ['src/Trie.cc', 'src/ColumbusHelpers.cc', 'src/WordStore.cc', 'src/Matcher.cc', 'src/ErrorValues.cc'],
 [('Trie::Trie, Trie::expand error handling', 'src/Trie.cc'), ('iconv_open / iconv error handling', 'src/ColumbusHelpers.cc')])

prop('C22', 'Running out of memory never corrupts objects',
 'If any memory allocation fails at any point of any operation, the failure is reported as an exception (or the C sentinel), every object involved can still be used and destroyed without touching freed memory, and everything completed before is kept: words keep their value, stores and word indexes answer as before, and indexed documents are still found (an indexing call that fails half-way may have added part of its documents, which may shift relevancies but must not hide or invent documents). Repeating the failed operation with memory available succeeds, with the result it would have had.',
 ['fault_sequences', 'histories'], 'every single allocation of every step of a set of histories made to fail',
 'No test injects allocation failures; a dangling pointer or a duplicated identifier after a failed allocation is invisible to them.',
 ['src/Word.cc', 'src/WordStore.cc', 'src/LevenshteinIndex.cc', 'src/WordList.cc', 'src/MatchResults.cc', 'src/Document.cc', 'src/Matcher.cc'],
 [('Word::duplicateFrom', 'src/Word.cc'), ('WordStore::getID', 'src/WordStore.cc'), ('container assignments', 'src/*.cc')])

prop('C23', 'Separate objects never influence each other, whatever the schedule',
 'Objects that share no data (different engines, indexes, cost tables, result lists, words) never influence each other: operations on them can be interleaved in any order, including concurrently from different threads under any schedule, and each still gives the result it would give alone.',
 ['schedules', 'histories'], 'all interleavings, at the granularity of single accesses to memory shared by the threads, of pairs of operation sequences on disjoint objects, up to a preemption bound; all sequential interleavings of two histories',
 'Tests are single threaded and use one object of each kind at a time; a shared scratch buffer or cache would go unnoticed.',
 ['src/LevenshteinIndex.cc', 'src/ErrorMatrix.cc', 'src/ErrorValues.cc', 'src/Trie.cc', 'src/Matcher.cc', 'src/ColumbusHelpers.cc', 'src/Word.cc'],
 [('absence of shared mutable state: all state hangs off the object', 'src/*.cc')])

prop('C24', 'The Python module gives the same results as the C++ library',
 'Every operation offered by the Python module (words, lists, documents, corpora, matching, costs, weights) gives the same values as the C++ library for the same arguments, refused inputs raise Python exceptions, and objects obtained from another object stay valid as long as Python holds them.',
 ['histories', 'inputs'], 'all short sequences of Python operations over small argument domains compared with the C++ library called directly; every exported method',
 'pythontest.py calls each method about once; the cost-table letter arguments and relevancies are not effectively tested.',
 ['python/columbus.cc', 'src/Matcher.cc', 'src/ErrorValues.cc'],
 [('BOOST_PYTHON_MODULE bindings and call policies', 'python/columbus.cc')])

prop('C25', 'Upper and lower case never make a difference',
 'Replacing any letters of a document text, field name, query, filter, weight name or error group given as text by their upper- or lower-case variants changes no answer: neither which documents are found nor their relevancy, weights or order.',
 ['inputs'], 'all case patterns of short field names, texts and queries, for one- and multi-byte letters',
 'One test compares one upper- and lower-case word.',
 ['src/ColumbusHelpers.cc', 'src/Word.cc', 'src/Matcher.cc', 'src/Document.cc'],
 [('lower-casing in utf8ToInternal, the only text entry point', 'src/ColumbusHelpers.cc')])

prop('C26', 'Field weights and search parameters hold the last value set, per field',
 'After any sequence of settings, the weight of a field is the value last set for exactly that field and 1 if never set; a field is excluded from searching exactly if it was declared so; filters report exactly the terms and requirements added, in order, and positions past the end raise exceptions. Changed weights and parameters apply to the next query, and only where they were set.',
 ['histories', 'configurations'], 'all sequences of set and get operations up to a bounded depth over several fields, and all settings against a fixed index',
 'Tests set one or two values once.',
 ['src/IndexWeights.cc', 'src/SearchParameters.cc', 'src/ResultFilter.cc', 'src/Matcher.cc'],
 [('IndexWeights map', 'src/IndexWeights.cc'), ('SearchParameters, ResultFilter', 'src/SearchParameters.cc, src/ResultFilter.cc')])

prop('C27', 'Index storage growth and exhaustion never lose or corrupt words',
 'However many and however long the words, every word indexed stays findable with its identity while the storage grows, whichever operation triggers the growth. When the address range of the storage is exhausted the insertion is refused with an exception, all words inserted before remain intact, and later queries keep working.',
 ['histories', 'inputs'], 'growth triggered at every byte alignment and by every kind of insertion step; with the storage address type narrowed, all fill levels up to and beyond exhaustion',
 'The unit tests never store enough to grow more than once and the 4 GB limit cannot be reached in a test.',
 ['src/Trie.cc', 'src/WordStore.cc', 'src/LevenshteinIndex.cc', 'include/ColumbusCore.hh.in'],
 [('Trie::expand / append / addNewSibling', 'src/Trie.cc')],
 state=[('totalSize, firstFree', 'storage size and fill level', 'src/Trie.cc')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
