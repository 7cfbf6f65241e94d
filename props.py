"""What each property's check runs and how its evidence is made from measured counts."""


def total(results, key):
    return sum(s['count'].get(key, 0) for _, s in results)


def distinct(results, key):
    return sum(s['distinct'].get(key, 0) for _, s in results)


def samples(results):
    r = []
    for _, s in results:
        r += s['samples'][:6]
    return r or ['(none recorded)']


def extra(results):
    """All further counters, as measured."""
    skip = {'cases', 'model_states', 'model_transitions', 'evaluations'}
    r = {}
    for _, s in results:
        for k, v in list(s['count'].items()) + [('distinct_' + k, v) for k, v in s['distinct'].items()]:
            if k not in skip and k != 'distinct_nontrivial':
                r[k] = r.get(k, 0) + v
    return r


def model(results):
    c = dict(states=total(results, 'model_states'), transitions=total(results, 'model_transitions'),
             traces_validated_against_impl=total(results, 'cases'), samples=samples(results))
    c.update(extra(results))
    return c


def explore(rule):
    def f(results):
        c = dict(evaluations=total(results, 'cases'), distinct_nontrivial=distinct(results, 'nontrivial'),
                 rule=rule, samples=samples(results))
        c.update(extra(results))
        return c
    return f


PROPS = {
    'C05': dict(
        level='model_checking',
        steps=[dict(check='grammar', units=['c_grammar'])],
        coverage=model,
        technique='bounded exhaustive enumeration of spellings, each parsed by the real parser and by an independent reference grammar',
        note='exhaustive over the listed spelling spaces; every model result is compared with the parser',
        assumptions=['the reference grammar states the documented spelling rules'],
    ),
    'C06': dict(
        level='model_checking',
        steps=[dict(check='except', units=['c_except'])],
        coverage=model,
        technique='exhaustive enumeration of texts against a family of compiled dictionaries, compared with the reference grammar extended by the lexicon rule',
        note='exhaustive over the listed texts, dictionaries and segmentation settings; every model result is compared with the parser',
        assumptions=['the reference grammar states the documented spelling rules'],
    ),
    'C07': dict(
        level='model_checking',
        steps=[dict(check='segment', units=['c_segment'])],
        coverage=model,
        technique='exhaustive enumeration of texts analysed with word breaks, compared with the reference grammar confined to words; product composition of parts on the real code',
        note='exhaustive over the listed texts and part/separator combinations',
        assumptions=['word breaks are those the segmentation library reports for the text'],
    ),
    'C08': dict(
        level='model_checking',
        steps=[dict(check='abbrev', units=['c_abbrev'])],
        coverage=model,
        technique='exhaustive enumeration of texts over consonants, vowel signs, period, space, digit and Latin letter, compared with the reference grammar',
        note='exhaustive over the listed texts, with and without segmentation',
        assumptions=['the reference grammar states the documented abbreviation rule'],
    ),
    'C04': dict(
        level='exploration',
        steps=[dict(check='regular', units=['c_regular'])],
        coverage=explore('one evaluation per regularly spelled syllable of the full product; distinct by expected syllable code'),
        technique='exhaustive enumeration of the full product of initials, vowel frames, tone marks, finals and silenced endings on the real parser, against separately typed orthography tables',
        note='exhaustive over the product; the tables are typed from school orthography, independent of code and reference grammar',
        assumptions=['orthography tables of the check state the standard rules'],
    ),
    'C02': dict(
        level='exploration',
        steps=[dict(check='effort', units=['c_effort'], hang=20)],
        coverage=explore('one evaluation per pattern, each repeated to 18, 36 and 72 characters under three configurations; distinct by size of result and text'),
        technique='exhaustive enumeration of repeated letter patterns on the real parser with a processor-time and result-size bound',
        note='exhaustive over the listed patterns; a pattern that exceeds the bound is re-run alone before it is reported',
        assumptions=['one second of processor time for at most 72 characters is far above a tractable analysis, which takes milliseconds'],
    ),
    'C03': dict(
        level='exploration',
        steps=[dict(check='cover', units=['c_cover'])],
        coverage=explore('one evaluation per text and configuration; distinct by the sequence of runs and the number of readings'),
        technique='exhaustive enumeration of mixed texts on the real analyser; every listed reading is walked against the runs of the text',
        note='exhaustive over the listed texts; every reading of each is checked',
        assumptions=['characters of Thai words are those of the Thai block that spell words'],
    ),
    'C01': dict(
        level='exploration',
        steps=[dict(check='robust', units=['c_robust'], variant='asan', hang=60)],
        coverage=explore('one evaluation per text (analysed under three configurations and rendered) or batch; distinct by raw readings or printed records'),
        technique='exhaustive enumeration of texts and batches on the real code built with address, undefined-behaviour and container checking; batch output compared with the words answered alone',
        note='exhaustive over the listed texts and batches',
        assumptions=['memory errors are those the sanitizers can see'],
    ),
    'C09': dict(
        level='exploration',
        steps=[dict(check='notation', units=['c_notation'])],
        coverage=explore('one evaluation per syllable or literal character, rendered in five notations at several positions; distinct by rendering'),
        technique='exhaustive enumeration of all syllables in all notations on the real renderers, against typed tables and a read-back of every Thai respelling',
        note='exhaustive over all 90,720 syllables; literal characters exhaustive in the basic plane',
        assumptions=['documented symbols are those of the typed tables', 'an initial o-ang never begins a cluster'],
    ),
    'C21': dict(
        level='exploration',
        steps=[dict(check='join', units=['c_join'])],
        coverage=explore('one evaluation per sequence of units, joined with every delimiter and capitalisation; distinct by joined text'),
        technique='exhaustive enumeration of unit sequences on the real joiners, against the joining rules',
        note='exhaustive over sequences of up to 3 of 19 units, up to 6 of 6 units, and all pairs by initial and final',
        assumptions=[],
    ),
    'C10': dict(
        level='exploration',
        steps=[dict(check='json', units=['c_json'])],
        coverage=explore('one evaluation per text and configuration, rendered in five notations and three structures; distinct by grouped output'),
        technique='exhaustive enumeration of texts on the real renderers; outputs read by a strict parser, expanded and compared as sets with the paths of the reading graph',
        note='exhaustive over the listed texts; every character of the basic plane occurs as a literal',
        assumptions=[],
    ),
    'C11': dict(
        level='exploration',
        steps=[dict(check='roundtrip', units=['c_roundtrip'])],
        coverage=explore('one evaluation per word or block of syllable codes, compiled as a dictionary and analysed again at seven places; distinct by dictionary line'),
        technique='exhaustive enumeration of syllable codes and words: real analyser, real compiler, real analyser again',
        note='exhaustive over all 90,720 codes and the listed words; words whose readings exceed the entry length are counted and skipped',
        assumptions=[],
    ),
    'C12': dict(
        level='model_checking',
        steps=[dict(check='dag', units=['c_dag'])],
        coverage=model,
        technique='explicit-state search: every operation applied to real graphs from every edge set of small universes, and breadth-first over iteration-ordered states, against a mathematical set',
        note='exhaustive over edge sets of 12 and 9 possible edges and over all iteration-ordered states of a 6-edge universe',
        assumptions=['labels are equal when their sound or quoted text is'],
    ),
    'C13': dict(
        level='exploration',
        steps=[dict(check='group', units=['c_group'])],
        coverage=explore('one evaluation per edge set, under up to three labellings and six node namings; distinct by set of readings and number of chains'),
        technique='exhaustive enumeration of small reading graphs: real grouping against path enumeration',
        note='exhaustive over all graphs of up to 4 nodes with 3 parallel edges, 5 nodes with 2, 6 nodes with 1 (7 in the thorough tier)',
        assumptions=['every way through the graph leads to its end, as in every graph the analyser makes'],
    ),
    'C14': dict(
        level='exploration',
        steps=[dict(check='order', units=['c_order'])],
        coverage=explore('one evaluation per pair of components, representative value, string, or sequence of additions; distinct by compared pair and relation'),
        technique='exhaustive enumeration of value pairs, triples and addition histories on the real comparison operators',
        note='exhaustive over all pairs differing in any two components, all triples of 170 syllable values and 341 strings, all addition sequences up to length 6 over 8 alternatives',
        assumptions=[],
    ),
    'C15': dict(
        level='exploration',
        steps=[dict(check='dict', units=['c_dict'], hang=120)],
        coverage=explore('one evaluation per dictionary (or pair of interleaved lookups), probed with every text at every offset, twice; distinct by dictionary content'),
        technique='exhaustive enumeration of small dictionaries in every order with every probe and offset, and of all interleavings of two lookups: real compiler and reader against a map',
        note='exhaustive over ordered selections of up to 3 of 16 words, 376 probe texts, 36 pairs of lookups in every interleaving, size ladders (up to 16.8 MB of data) and every data byte',
        assumptions=['an entry has a word of at least one character'],
    ),
    'C16': dict(
        level='fault_enumeration',
        steps=[dict(check='badfile', units=['c_badfile'], variant='asan')],
        coverage=explore('one evaluation per file content or history of opens; distinct by file content or history'),
        technique='enumeration of every truncation point of compiled dictionaries, foreign files, and all histories of opens, under address and undefined-behaviour checking',
        note='exhaustive over truncations of the small dictionaries (of all in the thorough tier), first four bytes, and histories up to depth 5',
        assumptions=[],
    ),
    'C17': dict(
        level='fault_enumeration',
        steps=[dict(check='compiler', units=['c_compiler'], variant='asan'),
               dict(check='compiler-bytes', units=['c_compiler'])],
        coverage=explore('one evaluation per write-failure offset, malformed line and position, byte sequence, line length or environment; distinct by that'),
        technique='enumeration of a write failure at every output offset, every malformed-line shape at every position, and undecodable byte sequences, on the real compiler',
        note='exhaustive over offsets of the small outputs and around every buffer boundary of the large one (every offset in the thorough tier)',
        assumptions=['a write failure is produced by a file size limit or a full device'],
    ),
    'C18': dict(
        level='model_checking',
        steps=[dict(check='history', units=['c_history'])],
        coverage=model,
        technique='stateless search of all operation histories up to a depth; after every step the real result is compared with that of a fresh process in the model state (dictionary, segmentation)',
        note='exhaustive over all histories of 25 operations up to depth 4 (5 thorough) and of 6 (9) operations up to depth 7; states are nodes of the history tree',
        assumptions=['a process started for one word only is the reference'],
    ),
    'C19': dict(
        level='exploration',
        steps=[dict(check='options', units=['c_options'])],
        coverage=explore('one evaluation per argument list and standard input; distinct by expected output or message'),
        technique='exhaustive enumeration of argument sequences run on the real program, against a model of the documented options',
        note='exhaustive over all sequences of up to 3 of 22 arguments, up to 4 and 5 of fewer, and all orders of all notations',
        assumptions=['the renderings themselves are judged by other properties'],
    ),
    'C20': dict(
        level='exploration',
        steps=[dict(check='shipped', units=['c_shipped'])],
        coverage=explore('one evaluation per entry and context or pair of entries; distinct by text and reading'),
        technique='exhaustive enumeration of all shipped entries, alternatives, contexts and pairs on the real dictionary and analyser',
        note='exhaustive over all entries in 121 contexts and all ordered pairs of entries',
        assumptions=[],
    ),
    'C22': dict(
        level='exploration',
        steps=[dict(check='lines', units=['c_lines'])],
        coverage=explore('one evaluation per text and configuration, listed in five notations and two structures; distinct by list of raw readings, where there are several'),
        technique='exhaustive enumeration of texts on the real renderers; every list compared item by item with the list in raw notation',
        note='exhaustive over the listed texts; every item of every list is compared',
        assumptions=['the rendering of one reading is judged by other properties'],
    ),
    'C23': dict(
        level='fault_enumeration',
        steps=[dict(check='fault', units=['c_fault'])],
        coverage=explore('one evaluation per setting and fault: output failing at every byte, unusable output targets, output failing for some lines only, input failing after every byte; distinct by that'),
        technique='enumeration of a write failure at every output byte and a read failure at every input byte of the real program',
        note='exhaustive over all offsets of nine settings, some larger than the stream buffers',
        assumptions=['a write failure is produced by a file size limit, a full device, a closed descriptor or a pipe without reader; a read failure by a reset connection, an empty pipe that must not be waited for, or an unreadable descriptor'],
    ),
    'C24': dict(
        level='model_checking',
        steps=[dict(check='value', units=['c_value'], variant='asan')],
        coverage=model,
        technique='stateless search of all operation histories on two values of each kind up to a depth, compared after every step with plain lists',
        note='exhaustive over all histories of 19 to 21 operations up to depth 5 (4 for lattices; one more in the thorough tier)',
        assumptions=[],
    ),
    'C25': dict(
        level='exploration',
        steps=[dict(check='stream', units=['c_stream'], hang=90)],
        coverage=explore('one evaluation per input, setting and way to cut the input into pieces; distinct by that'),
        technique='enumeration of ways to cut standard input into pieces, each sent to the real program only after everything before is answered',
        note='exhaustive over every way to cut inputs of up to 10 bytes, every pair of cuts and byte by byte for longer ones',
        assumptions=['a piece is separate if the pipe is empty when the next one is written'],
    ),
    'C26': dict(
        level='exploration',
        steps=[dict(check='resource', units=['c_resource'])],
        coverage=explore('one evaluation per history of operations, run five times; distinct by history'),
        technique='exhaustive enumeration of operation histories in one process with every allocation and release counted, also those of the libraries',
        note='exhaustive over all histories of 19 operations up to depth 3 (4 in the thorough tier), repeated in one process and in one session',
        assumptions=['what is kept after two repetitions of a history is a bounded cache'],
    ),
    'C27': dict(
        level='model_checking',
        steps=[dict(check='baddata', units=['c_baddata'])],
        coverage=model,
        technique='exhaustive enumeration of deviations from well-formed entry data, compiled and analysed by the real code and compared with the reference grammar whose lexicon keeps the well-formed alternatives only',
        note='exhaustive over single deviations with every byte, pairs of deviations of one entry, short strings, positions and orders of positions',
        assumptions=['text after a position and an omitted position are left to the implementation'],
    ),
    'C28': dict(
        level='exploration',
        steps=[dict(check='environ', units=['c_environ'])],
        coverage=explore('one evaluation per program setting or dictionary source and environment; distinct by that'),
        technique='exhaustive enumeration of environments (locale, contents of fresh memory, kind of input and output, working directory and path names, other surroundings) of the real programs, output compared byte by byte',
        note='exhaustive over the product of the dimensions (for the program in the quick tier over all triples)',
        assumptions=['memory contents are set by the allocator of the C library'],
    ),
    'C29': dict(
        level='fault_enumeration',
        steps=[dict(check='facility', units=['c_facility'])],
        coverage=explore('one evaluation per setting and failing call (allocation, open or read) before the program asks for its input; distinct by that'),
        technique='enumeration of failing calls during the start of the real program, answers compared with those of fault-free runs with facilities turned off',
        note='every single fault of six settings with a small word list, and pairs of faults; with the word list of the system every set of opens (thorough: every allocation)',
        assumptions=['allocations, opens and reads are made to fail by a library loaded before the C library', 'a loss that leaves all answers as they are cannot be seen', 'an allocation failure for which the trie library reports success is the fault of that library'],
    ),
    'C30': dict(
        level='model_checking',
        steps=[dict(check='overlap', units=['c_overlap'], variant='step', hang=120),
               dict(check='overlapfirst', units=['c_overlap'], variant='step', hang=120)],
        coverage=model,
        technique='enumeration of all schedules of two operations in two threads with one interruption (two for some short operations) at any basic block of the real library; results compared with those of the operations alone',
        note='exhaustive over the schedules with one interruption at a basic block, for first uses only of like operations, for two interruptions only of like short operations (thorough: all pairs of these); states are schedules, transitions executed basic blocks, traces the pairs of operations in eight parts each',
        assumptions=['interruptions within a basic block and within the libraries used are not enumerated'],
    ),
}
