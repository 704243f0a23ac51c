# What each check builds and runs; `rule` and `assumptions` go to the evidence file.
COMMON = ['the reference models in harness/ref.hh and harness/dbm.hh are right (they share no code with the library)',
          'times in the workloads are dyadic rationals, so that floating-point arithmetic is exact',
          'nothing is said about inputs the workloads did not drive']
CHECKS = {}
UB = ['-O2', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']   # where AddressSanitizer would cost reach


def check(pid, rule, src, required=(), assumptions=(), technique='', note='', more=(), **kw):
    CHECKS[pid] = dict(rule=rule, parts=[dict(src=[src] if isinstance(src, str) else src, **kw)] + [dict(p) for p in more], required_events=list(required),
                       assumptions=list(assumptions) + COMMON, technique=technique, note=note)


check('C09', 'Random deterministic automata (up to 5 states, 4 clocks, 3 events; copies, swaps, fractional constants; internal urgent '
      'transitions in half of the cases) run on random words with boundary-biased delays, random splits of delays and interleaved second '
      'runs; a word counts as non-trivial if it has more than two steps; distinct by word and automaton.',
      'c09.cc', ['delays', 'events', 'accepted_points', 'sink_points', 'delay_pieces', 'open_steps', 'after_open_transitions'],
      ['internal transitions in the workloads form no loop and never tie; after one with an open lower bound, answers that hang on an infinitesimal are not judged'],
      technique='trace monitor: every step of the runner is compared with an independent executable semantics, under ASan+UBSan',
      note='Held on the executions observed: about 10^5 words per quick run, each step compared with an exact integer-time simulator.')
check('C12', 'Random histories of 3 to 16 zone operations over 1 to 6 clocks, starting from the zero zone, a point, or no constraint, with '
      'integer or half-integer constants; after each operation the matrix is compared with an independently computed set; a history counts '
      'as non-trivial if it has more than 4 operations; distinct by the text of the history.',
      'c12.cc', ['operations', 'comparisons', 'inclusions', 'samples', 'extrapolations_enlarging', 'extrapolated_points', 'empty'],
      ['operations documented to need a canonical zone get one'],
      technique='online reference-model monitor over operation histories, exact set comparison, under ASan+UBSan',
      note='Held on the operations observed; each result is compared exactly (canonical forms on integer ticks), extrapolation by sampled points.')
check('C13', 'Random lists of guards over 1 to 3 clocks with small or scaled constants; every operation is compared at all points of the '
      'half-integer grid (exact for bounds without differences); a case counts as non-trivial if it has at least two constraints or disjuncts.',
      'c13.cc', ['valuations', 'hulls', 'weaker_pairs', 'earliest_delays', 'never_satisfied'],
      ['the hull is checked for satisfiable guards with at most one bound of each direction per clock'],
      technique='oracle monitor: exhaustive evaluation of every result on a grid that separates all guards, under ASan+UBSan',
      note='Held on the guard lists observed; for each of them the comparison over valuations is exhaustive up to region equivalence.')
check('C14', 'Random histories of operations on timed conditions of 1 to 5 durations (restriction, conjunction, juxtaposition, hulls, adding, '
      'prolonging and cutting durations, enumeration), on updates through reset relations and on elementary languages; every result is compared '
      'with exact sets of duration vectors; a case is non-trivial if it has at least two operations; distinct by its text.',
      'c14.cc', ['conditions_compared', 'hulls', 'restrictions', 'concatenations', 'enumerations', 'cover_points', 'memberships', 'samples',
                 'included', 'updates', 'updates_fractional', 'juxtapositions', 'renamings'],
      ['bounds of concatenated conditions are finite or come from the library (adding two infinities is out of scope)'],
      technique='reference-model monitor over operation histories: exact set comparison with an independent integer DBM, under ASan+UBSan',
      note='Held on the conditions observed; equality of sets is decided exactly, membership also at sampled points.')
check('C15', 'Random walks of discrete and time successors (and predecessors) over regions of timed words with up to 5 events, and pairs of words '
      'at halves down to thirty-seconds of a time unit, a part of them off by 2^-5 to 2^-20; every region is compared with the exact region of a representative word; distinct by the text of the walk.',
      'c15.cc', ['regions_compared', 'almost_equal_fractions', 'time_successors', 'discrete_successors', 'prefixes', 'suffixes', 'time_predecessors',
                 'discrete_predecessors', 'word_pairs', 'same_region', 'samples'],
      ['the lists of prefixes of backward regions, which the library marks as unfinished and never uses, are not examined'],
      technique='trace monitor: each step of a walk through regions is compared with independently computed regions, under ASan+UBSan',
      note='Held on the walks observed; each region is compared exactly.')
check('C22', 'Random timed words (up to 6 events, internal events included, durations on eighths, a part of them off by 2^-5 to 2^-30) concatenated, cut, compared and hashed; '
      'distinct by the words.', 'c22.cc', ['words_checked', 'almost_equal', 'concatenations', 'suffixes', 'internal_absorbed', 'pairs_compared'],
      technique='oracle monitor against an independent model of timed words, under ASan+UBSan',
      note='Held on the words observed.')
check('C23', 'Random source and target regions (up to 4 clocks) with renamings that relate them, several at a time; random renamings as relations; '
      'pairs of random updates; histories of delays, events, restarts and transitions of neighbour sets (up to 4 clocks) next to an enumeration of the regions; '
      'small automata whose guards get relaxed; random transitions of a state over a grid of valuations; distinct by the text of the case.',
      'c23.cc', ['external_transitions', 'relaxations_on_arrival', 'relaxations_further_on', 'waited_for_the_first_match', 'internal_transitions', 'full_renamings', 'partial_renamings', 'valuations_moved', 'relations_judged', 'imprecise_renamings',
                 'closures_that_add', 'updates_applied', 'embeddings', 'neighbour_sets_with_others', 'guards_relaxed', 'time_steps', 'events', 'restarts',
                 'transitions_followed', 'inner_transitions', 'relaxations_needed', 'relaxed_transitions', 'states_deterministic', 'states_nondeterministic', 'states_merged'],
      ['a renaming relates two regions if some valuations of both satisfy it', 'at least one clock is precise where neighbours are followed'],
      technique='reference-model monitor: updates applied to valuations, neighbour sets next to an enumeration of regions, under ASan+UBSan',
      note='Held on the cases observed; the regions of a case are compared exactly.')
check('C03', 'Pairs of random deterministic automata (one to three clocks): mutated copies, renamed clocks, complements, unrelated ones; every '
      'answer of the exact oracle is confirmed by running the word, and its silence by an exact decision over the product of integer-time '
      'semantics; queries are repeated in another order, and one hypothesis is changed in place between queries; distinct by the pair.',
      'c03.cc', ['queries', 'counterexamples', 'equivalences', 'words_confirmed', 'repeated_queries', 'queries_in_place', 'answers_changed'],
      ['the automata have no internal transitions'],
      technique='differential oracle monitor: answers of equivalence queries against an exact reference decision, under ASan+UBSan',
      note='Held on the pairs observed; for each pair the reference decision is exact.')
check('C04', 'Replay oracles with random lists of stored words, random-testing oracles (with and without reachability guidance), chains and '
      'memoising oracles around exact and failing members, on random pairs of target and hypothesis, a part of them with internal transitions; distinct by the pair and words.',
      'c04.cc', ['queries', 'separated', 'not_separated', 'random_counterexamples', 'chain_found', 'chain_nothing', 'memo_found',
                 'memo_could_recall', 'internal_transitions'],
      technique='oracle monitor: every returned or withheld word is judged by an independent semantics of both automata, under ASan+UBSan',
      note='Held on the queries observed.')
check('C05', 'Random deterministic automata, partial and complete, copies of clocks included, complemented, completed once and twice; languages '
      'compared exactly, successors counted at all points of the region grid.',
      'c05.cc', ['complements', 'completions', 'completed_twice', 'decided', 'valuations', 'steps'], ['the automata have no internal transitions'],
      technique='reference-model monitor: exact language comparison and exhaustive successor counting per state, under ASan+UBSan',
      note='Held on the automata observed; the language comparison per automaton is exact.')
check('C06', 'Pairs (and triples) of random automata with different numbers of clocks, shared events, copies of clocks, a factor with itself; the '
      'product language is compared exactly with the pair of factors, words are run, and the factors are read again afterwards.',
      'c06.cc', ['products', 'products_with_itself', 'different_clock_counts', 'triple_products', 'updates_of_marks', 'decided', 'words',
                 'common_words'], ['the automata have no internal transitions'],
      technique='reference-model monitor: exact language comparison of product and factors, under ASan+UBSan', note='Held on the pairs observed.')
check('C07', 'Random deterministic and nondeterministic automata, with chains of clock copies, rarely accepting states and degenerate shapes; '
      'emptiness is decided by an independent region exploration and compared with the sampled word, with and without early termination '
      'and pruning; witnesses are run on the automaton.',
      'c07.cc', ['empty', 'nonempty', 'pruned', 'witnesses', 'runs_followed', 'zone_states'], ['the automata have no internal transitions'],
      technique='differential oracle monitor: emptiness and witnesses against an exact region-graph reference, under ASan+UBSan',
      note='Held on the automata observed; each emptiness verdict is exact.')
check('C08', 'Random automata with dead and unreachable states, redundant and neighbouring transitions, useless loops and unused clocks; each '
      'simplification and random sequences of them; languages compared exactly and well-formedness checked after each.',
      'c08.cc', ['languages_compared', 'states_removed', 'clocks_removed', 'merged', 'words', 'words_accepted', 'simplifyWithZones'],
      ['the automata have no internal transitions'],
      technique='reference-model monitor: exact language comparison before and after each simplification, under ASan+UBSan',
      note='Held on the automata observed.')
check('C01', 'Learning runs on random deterministic targets with one or two clocks (copies and constant updates in some), on fixed shapes in the '
      'style of the examples, with the exact oracle alone, simplified, memoised, behind stored words, or with random separating words; the '
      'result is compared with the target exactly, and both are run on random words; non-trivial if it took more than one hypothesis.',
      'c01.cc', ['learned', 'decided_equal', 'learned_from_random_counterexamples', 'learned_with_states', 'learned_with_clocks',
                 'words_accepted'],
      ['the targets have no internal transitions', 'runs that exceed the CPU limit are inconclusive',
       'pairs too large for the exact comparison are compared on random words only'], san=UB,
      technique='end-to-end oracle monitor: exact language comparison of the learned automaton with the target, under UBSan with assertions',
      note='Held on the learning runs observed; nearly every result is compared exactly.')
check('C02', 'Learning runs as for C01; every hypothesis is inspected when it is shown to the oracle, consecutive ones are compared as '
      'languages, every query is counted; small targets have bounds on queries, rounds and CPU time.',
      'c02.cc', ['hypotheses', 'learning_runs', 'counts_compared', 'counterexamples', 'hypotheses_compared', 'rounds_7_to_12'],
      ['bounds for small targets (one clock, three states): 60000 words, 40 rounds, 90 s of CPU twice; the usual values are below a tenth',
       'larger targets have no bound; those that exceed the CPU limit are inconclusive'], san=UB,
      technique='online monitor of the learning protocol (queries, hypotheses, counters, progress), under UBSan with assertions',
      note='Held on the learning runs observed.')
check('C10', 'Random lists of words that are easy to mix up (permuted, shifted, extended by zeros) asked of plain, cached and symbolic oracles '
      'over a system that records every call; histories of 9000 to 20000 different words with repetitions in between and afterwards; runs of the '
      'library runner; whole learning runs with every word recorded.',
      'c10.cc', ['queries', 'repeated', 'repeated_late', 'first_time', 'accepted', 'symbolic_queries', 'learning_runs', 'words_of_learning_runs'],
      technique='trace monitor over the calls received by the system under learning (protocol, exactly-once, counters), under ASan+UBSan',
      note='Held on the histories observed.')
check('C11', 'Symbolic queries over hulls of regions and concatenations of prefixes and suffixes (up to 4 durations), to automata, to boxes and to '
      'arbitrary sets of regions; the answer is compared at points of every region of the query.',
      'c11.cc', ['queries', 'regions', 'points', 'asked_again', 'all_accepted', 'all_rejected', 'convex_answers', 'nonconvex_answers'],
      ['queries of more than 36 (thorough: 70) regions are skipped'],
      technique='oracle monitor: answers compared at a point of every region of the query, under ASan+UBSan',
      note='Held on the queries observed; per query the comparison is exhaustive up to regions.')
check('C16', 'Pairs of regions with rows answered by random automata or by arbitrary sets of regions that differ in a few, judged by the library and by random timed words related by the given '
      'renaming; renamings that are not equivalences must be refused by a pair of related words.',
      'c16.cc', ['judgements', 'judged_different', 'judged_equivalent_empty', 'judged_equivalent_renaming', 'related_words',
                 'related_words_accepted', 'given_renamings', 'given_renamings_accepted', 'nonconvex_cells'],
      technique='oracle monitor: each judgement confirmed or refuted on related timed words run on the automaton, under ASan+UBSan',
      note='Held on the judgements observed.')
check('C17', 'Random sets of prefixes closed as an observation table closes them, with morphisms found by the library or arbitrary ones; each '
      'substitution of a word by its representative is judged, and each answer of the counterexample analysis.',
      'c17.cc', ['words_mapped', 'substitutions', 'counterexamples', 'counterexamples_mapped_repeatedly', 'suffixes_found', 'nothing_fresh',
                 'judged_morphisms', 'arbitrary_morphisms', 'time_morphisms'],
      ['hypotheses are exterior-consistent and time-saturated, as the learner makes them before it asks for counterexamples'],
      technique='trace monitor: every step of the chain of substitutions and its result judged independently, under ASan+UBSan',
      note='Held on the words observed.')
check('C18', 'Jobs (complements, products, zone graphs, queries, runs, copies, symbolic queries, learning, judgements of rows) on a pool of random '
      'automata, repeated in random order with unrelated work of other sizes in between; results used after everything they were made from is '
      'changed or gone; distinct by the list of jobs and automata.',
      'c18.cc', ['operations', 'repetitions', 'repetitions_decided', 'results_decided', 'inputs_intact', 'clutter', 'clutter_learning', 'words',
                 'results_outliving', 'learned_outlive', 'hypotheses_kept', 'outliving_queries'],
      ['runs that exceed the CPU limit are inconclusive'],
      technique='trace monitor: inputs compared before and after each operation, repeated answers compared as languages, under ASan+UBSan',
      note='Held on the histories observed.')
check('C19', 'Degenerate automata (no states, clocks, initial or accepting states; empty lists of transitions; large constants) through random '
      'sequences of all operations; several learning runs of degenerate targets alive at once; regions, conditions, zones and guards of unusual '
      'sizes. Three builds: address and undefined-behaviour sanitizers with float conversions, the checking standard library, and valgrind.',
      'c19.cc', ['operations', 'complements', 'products', 'zone_graphs', 'simplified', 'simplified_with_zones', 'runs', 'printed', 'destroyed',
                 'equivalence_queries', 'learned', 'learners_destroyed', 'prefixes', 'enumerated', 'zones', 'guards', 'judgements',
                 'watched_by_valgrind'],
      ['the other checks run under ASan+UBSan or UBSan, with assertions, too'],
      san=['-O1', '-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
      more=[dict(src=['c19.cc'], name='debug', san=['-O1', '-D_GLIBCXX_DEBUG']),
            dict(src=['c19.cc'], name='memcheck', san=['-O1', '-DHN_VALGRIND', '-DSMALL'],
                 wrap=['env', 'HN_NOASLR=1', 'valgrind', '-q', '--error-limit=no'])],
      technique='sanitizers (ASan, UBSan), debug-mode standard library, valgrind memcheck and assertions over hostile workloads',
      note='No report on the executions observed.')
check('C20', 'Random one-clock descriptions (up to 5 locations, 3 events, constants to 30; rows of touching, non-overlapping intervals with open, '
      'closed and unbounded ends; names that are easy to take for each other; keys, spacing and order varied) parsed and compared exactly and on boundary words; files made nondeterministic at '
      'one point or over an interval, or with long events, which must be refused; the command-line program run on random files, its printed '
      'target and result read back and compared exactly; distinct by the file.',
      'c20.cc', ['files_parsed', 'languages_decided', 'words', 'words_accepted', 'refusals', 'nondeterministic_files', 'long_event_files',
                 'programs_run', 'programs_judged', 'printed_targets', 'program_without_file'],
      ['files are in the documented format', 'programs that exceed their CPU limit are inconclusive'],
      technique='end-to-end oracle monitor: parsed and learned automata against an independent model of the file, under ASan+UBSan',
      note='Held on the files observed; each comparison of languages is exact.')
check('C21', 'Random automata (internal transitions, copies, constants, several clocks, parallel transitions), learned automata, timed words and '
      'guards printed in varied stream states and read back by a reader that shares no code with the library; distinct by the text.',
      'c21.cc', ['automata_read', 'transitions_read', 'words', 'words_accepted', 'languages_decided', 'learned_read', 'guards_read',
                 'guard_valuations', 'timed_words_read', 'internal_printed'],
      technique='oracle monitor: printed text read back by an independent reader, compared transition by transition and as languages, under ASan+UBSan',
      note='Held on the automata, words and guards observed.')
