# Generates properties.jsonl (kept as a generator so that the anchors stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = state
    d['anchors']['observe_at'] = observe or []
    d['anchors']['hook_needed'] = hook
    P.append(d)

p('C01', 'A learned automaton recognises exactly the target language',
  'When learning from a deterministic timed target without internal (unobservable) transitions with an exact equivalence oracle returns, the returned automaton accepts a timed word if and only if the target accepts it, for every timed word. This holds whatever the number of clocks, guard boundaries (open or closed), resets and dead or unreachable parts of the target.',
  ['inputs', 'programs'], 'Every deterministic target automaton and every timed word over its alphabet.',
  'The end-to-end learner test is not even compiled; the other unit tests check single table operations on a handful of automata.',
  ['include/learner.hh', 'include/observation_table.hh', 'src/observation_table.cc', 'include/imprecise_clock_handler.hh', 'include/internal_transition_maker.hh', 'include/external_transition_maker.hh', 'include/neighbor_conditions.hh', 'include/equivalence.hh', 'include/counterexample_analyzer.hh'],
  [('learning loop', 'include/learner.hh'), ('hypothesis construction', 'include/observation_table.hh generateHypothesis, src/observation_table.cc'), ('row equivalence', 'include/equivalence.hh'), ('counterexample handling', 'include/observation_table.hh handleCEX')],
  ['the automaton returned by Learner::run', 'SUL and EquivalenceOracle interfaces'])

p('C02', 'Learning progresses: bounded queries, proper hypotheses, a final answer',
  'Learning a small deterministic target ends within a bounded number of membership and equivalence queries and without aborting, and the reported query counts are the numbers of queries made. Every hypothesis shown to the equivalence oracle is a well-formed deterministic automaton: one initial state, transitions between its own states, declared clocks only, and at most one transition enabled for every event and clock valuation. After a counterexample has been handled, the same hypothesis (as a language) is not proposed again without end.',
  ['inputs', 'histories'], 'Every deterministic target and every sequence of counterexamples an equivalence oracle may answer with.',
  'No test runs the loop, so neither termination, the shape of intermediate hypotheses nor arbitrary counterexample sequences are exercised.',
  ['include/learner.hh', 'include/observation_table.hh', 'src/observation_table.cc', 'src/timed_automaton.cc', 'include/counterexample_analyzer.hh'],
  [('closedness/consistency loop', 'include/learner.hh run'), ('counterexample analysis', 'include/counterexample_analyzer.hh'), ('guard merging', 'src/timed_automaton.cc mergeNondeterministicBranching')],
  ['EquivalenceOracle::findCounterExample argument', 'SUL::pre count'])

p('C03', 'Equivalence queries are sound and complete',
  'Asked about a deterministic hypothesis, target and hypothesis having no internal (unobservable) transitions, the exact equivalence oracle answers with a timed word on which target and hypothesis really disagree, or with nothing only if the two automata accept the same timed words. The answer for a pair of automata does not depend on which queries were asked before.',
  ['inputs', 'programs', 'histories'], 'Every deterministic target, every deterministic hypothesis over the same alphabet, in any order of queries.',
  'The tests query a few fixed pairs; a counterexample missed on one boundary, reset pattern or clock copy makes the learner return a wrong automaton silently.',
  ['include/timed_automata_equivalence_oracle.hh', 'src/ta2za.cc', 'src/intersection.cc', 'include/zone_automaton.hh', 'include/symbolic_run.hh'],
  [('inclusion in both directions', 'include/timed_automata_equivalence_oracle.hh subset/superset'), ('zone graph', 'src/ta2za.cc'), ('witness reconstruction', 'include/symbolic_run.hh reconstructWord')],
  ['findCounterExample'])

p('C04', 'Test-based and composed equivalence oracles answer truthfully',
  'An equivalence oracle that replays stored words reports a disagreement exactly when one of the stored words (or a stored word cut after any of its events or delays) separates target and hypothesis, and every word it returns separates them. The random-testing oracle only returns separating words within its length and duration limits; the chained oracle answers like its first member that finds something; the memoising oracle finds a counterexample whenever the oracle it wraps would.',
  ['inputs', 'histories'], 'Every target, hypothesis, stored set of words and sequence of queries.',
  'One test with two words exercises the test-based oracle; composition, random testing and memory across queries are untested.',
  ['include/equivalence_oracle_by_test.hh', 'include/equivalence_oracle_by_random_test.hh', 'include/equivalance_oracle_chain.hh', 'include/equivalence_oracle_memo.hh', 'include/equivalence_oracle.hh'],
  [('replay', 'include/equivalence_oracle_by_test.hh'), ('memo', 'include/equivalence_oracle_memo.hh')], ['findCounterExample', 'numEqQueries'])

p('C05', 'Complementation is exact and total',
  'The complement of a deterministic automaton without internal transitions accepts a timed word over the given alphabet exactly when the original rejects it. Making an automaton complete gives every state and clock valuation exactly one successor (target and clock values) for each event of the alphabet without changing the language, and the original automaton of a complement is left as it was.',
  ['inputs', 'programs'], 'Every deterministic automaton, every alphabet containing its events and every timed word over it.',
  'Existing tests complement a few automata and look at the number of transitions; guard negation has many boundary cases.',
  ['include/timed_automaton.hh', 'include/constraint.hh'],
  [('makeComplete / complement', 'include/timed_automaton.hh'), ('negation of a disjunction of guards', 'include/constraint.hh negate')], ['TimedAutomaton::complement', 'TimedAutomaton::makeComplete'])

p('C06', 'The product of two automata accepts exactly the common words',
  'For automata without internal transitions, the product accepts a timed word exactly when both factors accept it, also when the factors have different numbers of clocks, resets to constants or copies of clocks, share event names, or are one and the same object. Building it leaves the meaning of both factors unchanged.',
  ['inputs', 'programs'], 'Every pair of automata and every timed word.',
  'No test compares the product language with its factors.',
  ['src/intersection.cc', 'include/intersection.hh'], [('intersectionTA', 'src/intersection.cc'), ('updateInitAccepting', 'src/intersection.cc')], ['the product automaton'])

p('C07', 'The zone graph decides emptiness and yields real witnesses',
  'A timed word sampled from the zone graph of an automaton without internal transitions is accepted by the automaton, and a word is found exactly when the automaton accepts some word, with early termination on or off. Pruning dead zones keeps all accepting runs.',
  ['inputs', 'programs'], 'Every automaton, including clock copies, constant assignments, unbounded loops and nondeterminism.',
  'A few fixed automata are converted in tests; soundness of extrapolation, state merging and word reconstruction cannot be sampled by them.',
  ['src/ta2za.cc', 'include/zone_automaton.hh', 'include/symbolic_run.hh', 'include/zone.hh'],
  [('ta2za', 'src/ta2za.cc'), ('sample', 'include/zone_automaton.hh'), ('reconstructWord', 'include/symbolic_run.hh')], ['ZoneAutomaton::sample'])

p('C08', 'Simplifying an automaton never changes its language',
  'For an automaton without internal transitions, each simplification (dropping redundant transitions, merging neighbouring ones on one clock, unreachable or dead states, useless loops, unused clocks, and pruning with zones), alone or in sequence, yields an automaton that accepts exactly the same timed words and is still well formed and deterministic if it was.',
  ['inputs', 'programs'], 'Every deterministic automaton and every order of simplifications.',
  'The tests simplify two automata and compare sizes or printed text.',
  ['include/timed_automaton.hh', 'src/timed_automaton.cc'],
  [('simplify / simplifyStrong', 'include/timed_automaton.hh'), ('simplifyWithZones', 'src/timed_automaton.cc')], ['TimedAutomaton::simplify*'])

p('C09', 'Running an automaton follows timed-automaton semantics',
  'Feeding a timed word to a running automaton gives, after every event and delay, the acceptance that timed-automaton semantics prescribes: guards are tested on the clock values before the step, updates happen simultaneously, a missing transition rejects for the rest of the word, and restarting forgets the past. Splitting a delay in pieces, or adding delays of length zero, changes nothing, also when internal transitions fire urgently during a delay.',
  ['inputs', 'programs', 'histories'], 'Every deterministic automaton, timed word and way to split delays; any sequence of runs on one object.',
  'Tests walk a few words through fixed automata with at most one clock.',
  ['include/timed_automaton_runner.hh', 'include/timed_automaton.hh', 'include/constraint.hh'],
  [('step', 'include/timed_automaton_runner.hh'), ('lowerBoundDurationToSatisfy', 'include/constraint.hh')], ['TimedAutomatonRunner::step'])

p('C10', 'Membership queries report what the system says, caching included',
  'A membership query feeds exactly the asked timed word to the system under learning (start, delays and events in order, stop) and returns its last answer; a cached query returns the same answer as an uncached one and never mixes up two different words. Each distinct word is sent at most once, and the reported query count is the number of words actually sent.',
  ['inputs', 'histories'], 'Every system under learning and every sequence of queries, with repetitions and nearly equal words.',
  'No test observes the calls the system receives or repeats queries.',
  ['include/membership_oracle.hh', 'include/symbolic_membership_oracle.hh', 'include/sul.hh', 'include/timed_word.hh'],
  [('SULMembershipOracle', 'include/membership_oracle.hh'), ('MembershipOracleCache', 'include/membership_oracle.hh')], ['SUL::pre/step/post', 'answerQuery', 'count'])

p('C11', 'Symbolic membership is exact on every region',
  'A symbolic membership query for a set of timed words with a common event sequence returns a set of timed conditions that contains the durations of a word of that set exactly when the target accepts the word. Asking again gives an equivalent answer, and the conditions returned never exceed the queried set.',
  ['inputs', 'programs', 'histories'], 'Every target, every elementary language (simple or not) and every word in it.',
  'Two tests query one automaton; convex-hull merging and reduction of the answers have many shapes.',
  ['include/symbolic_membership_oracle.hh', 'include/timed_condition_set.hh', 'include/elementary_language.hh', 'include/timed_condition.hh'],
  [('query', 'include/symbolic_membership_oracle.hh'), ('reduce', 'include/timed_condition_set.hh'), ('convexHull', 'include/elementary_language.hh')], ['SymbolicMembershipOracle::query'])

p('C12', 'Zone operations compute exactly the sets they stand for',
  'For every zone and clock valuation: adding a constraint, intersecting, letting time pass forwards or backwards, updating clocks (constants and copies, simultaneously) and undoing an update give exactly the set of valuations the operation means. Emptiness, inclusion and equality tests agree with the sets of valuations, a sampled valuation lies in its zone, and extrapolation only adds valuations that agree up to the maximal constants.',
  ['inputs', 'histories'], 'Every zone reachable by a sequence of operations over any number of clocks, and every valuation.',
  'Unit tests check single operations on one or two matrices of fixed size.',
  ['include/zone.hh', 'include/bounds.hh', 'include/juxtaposed_zone.hh'],
  [('canonical DBM operations', 'include/zone.hh'), ('applyResets/revertResets', 'include/zone.hh')], ['Zone public operations'])

p('C13', 'Guard operations agree with the valuations they describe',
  'Negating a disjunction of guards yields exactly the valuations satisfying none of them; conjunction, simplification and satisfiability are exact; a guard reported weaker is satisfied whenever the other one is; the hull of guards covers all of them and is the tightest conjunction of bounds that does. The reported earliest delay to satisfy a guard is the infimum of the delays that satisfy it.',
  ['inputs'], 'Every list of guards over any clocks and every non-negative clock valuation.',
  'Unit tests enumerate some guard pairs over one or two clocks.',
  ['include/constraint.hh', 'include/bounds.hh', 'include/conjunctive_constraint.hh'],
  [('negate, satisfiable, simplify, unionHull, isWeaker', 'include/constraint.hh')], ['free functions on guards'])

p('C14', 'Timed conditions form an exact algebra on durations',
  'For every timed condition and vector of durations: membership, restriction, conjunction, inclusion, concatenation, and prolonging, trimming or updating a condition denote exactly the corresponding sets of duration vectors. Splitting a condition into simple ones gives pairwise disjoint pieces that are simple, non-empty and together cover it exactly; the hull covers all of its arguments.',
  ['inputs', 'histories'], 'Every timed condition reachable by operations, of any length, and every duration vector.',
  'Unit tests compare a few hand-written matrices.',
  ['include/timed_condition.hh', 'include/timed_condition_set.hh', 'include/juxtaposed_zone.hh'],
  [('operator+, enumerate, successor, prefix, suffix, extend, remove', 'include/timed_condition.hh')], ['TimedCondition public operations'])

p('C15', 'Regional languages partition timed words and move step by step',
  'The region of a timed word contains it, and two words have the same region exactly when no bound on sums of consecutive durations separates them. The discrete successor, the time successor, the predecessor and the prefixes and suffixes of a region are exactly the regions of the words obtained by adding the event, letting time pass to the next region, or cutting the word there; a word sampled from a region lies in it.',
  ['inputs', 'histories'], 'Every timed word, event and chain of successor or predecessor steps.',
  'Unit tests follow a few hand-made chains of at most four steps.',
  ['include/forward_regional_elementary_language.hh', 'include/backward_regional_elementary_language.hh', 'include/fractional_order.hh', 'include/elementary_language.hh'],
  [('fromTimedWord, successor, predecessor', 'include/forward_regional_elementary_language.hh, include/backward_regional_elementary_language.hh'), ('fractional order', 'include/fractional_order.hh')], ['regional language operations'])

p('C16', 'Rows judged equivalent really are equivalent under the renaming',
  'When two prefixes are judged equivalent through a renaming of their durations, the renaming is compatible with both prefixes, and for each suffix of the table and all words of the two prefixes related by the renaming, the target accepts one continuation exactly when it accepts the other. Every prefix is equivalent to itself, and the judgement for given rows is independent of earlier judgements.',
  ['inputs', 'programs', 'histories'], 'Every target, pair of simple prefixes, set of suffixes and related pair of words.',
  'Unit tests check fixed rows and expected renamings only.',
  ['include/equivalence.hh', 'include/renaming_relation.hh', 'include/juxtaposed_zone_set.hh', 'include/juxtaposed_zone.hh'],
  [('findDeterministicEquivalentRenaming, findEquivalentRenaming, equivalence', 'include/equivalence.hh'), ('juxtaposed zone sets', 'include/juxtaposed_zone_set.hh')], ['equivalence and renaming search'])

p('C17', 'Counterexamples are turned into genuinely distinguishing suffixes',
  'Given a timed word on which the target and a hypothesis of the learner (closed and time-saturated) disagree, the analysis returns a suffix of that word that is not among the known ones and after which some prefix is answered differently from its representative in the hypothesis, or nothing if no such suffix is met. Mapping a timed word through the representation keeps it in the language of its class.',
  ['inputs', 'programs', 'histories'], 'Every target, hypothesis representation and counterexample.',
  'Unit tests analyse one counterexample with one hand-made representation.',
  ['include/counterexample_analyzer.hh', 'include/recognizable_languages.hh', 'include/single_morphism.hh'],
  [('analyzeCEX', 'include/counterexample_analyzer.hh'), ('maps', 'include/single_morphism.hh')], ['analyzeCEX', 'SingleMorphism::maps'])

p('C18', "Operations leave the caller's automata intact and are repeatable",
  'Learning, equivalence queries, products, complements, zone graphs and runs do not change what the automata passed in accept, nor how many states they have, and automata handed out stay valid after the objects that made them are gone. Repeating an operation on the same input gives an equivalent result whatever other automata, clock counts or sizes were processed in between in the same process.',
  ['inputs', 'histories', 'programs'], 'Every interleaving of operations on any automata within one process.',
  'Each test builds fresh fixtures and performs one operation; process-wide caches and shared state graphs never meet a second size.',
  ['include/timed_automaton.hh', 'include/zone.hh', 'include/juxtaposed_zone.hh', 'include/timed_automata_equivalence_oracle.hh', 'include/observation_table.hh', 'src/intersection.cc'],
  [('deepCopy', 'include/timed_automaton.hh'), ('process-wide zone caches', 'include/zone.hh, include/juxtaposed_zone.hh')], ['public operations, before and after'])

p('C19', 'No memory error or undefined behaviour on any valid input',
  'On valid input no operation of the library reads or writes outside its objects, uses freed or uninitialised memory, overflows signed arithmetic, follows a dangling state or violates one of its own assertions. This includes automata without states, accepting states or clocks, repeated simplification, several learning runs in one process and automata that outlive or predecease each other.',
  ['inputs', 'histories', 'programs'], 'Every valid sequence of public operations.',
  'The tests run without sanitizers, on small, well-shaped inputs.',
  ['include/', 'src/'], [('ownership by shared state lists with raw transition targets', 'include/timed_automaton.hh'), ('matrix indexing', 'include/zone.hh, include/timed_condition.hh')], ['sanitizer reports', 'assertion failures'])

p('C20', 'Automata given as JSON are learned as written',
  'Reading a one-clock automaton from a JSON file yields an automaton that accepts exactly the words the file describes: initial and accepting locations, open and closed interval ends, unbounded intervals, and resets. Files that describe a nondeterministic automaton or events longer than one character are refused, and the command-line learner run on a valid file prints an automaton that is equivalent to the file.',
  ['inputs', 'programs'], 'Every deterministic one-clock description in the documented format.',
  'No test touches the parser or the command-line programs.',
  ['examples/ota_json_parser.hh', 'examples/learn_ota_json.cc', 'examples/experiment_runner.hh'],
  [('OtaJsonParser', 'examples/ota_json_parser.hh')], ['OtaJsonParser::getTarget', 'standard output/log of learn_ota_json'])

p('C21', 'Printed automata, words and guards say what they are',
  'The text printed for an automaton lists every state with its initial and accepting marks and every transition with its event, guard and updates, so that reading it back gives an automaton with the same language. Printed timed words and guards likewise carry all their events, durations and bounds.',
  ['inputs', 'programs'], 'Every automaton (with internal transitions, copies and constants), timed word and guard.',
  'Tests compare the printed form of one or two automata.',
  ['include/timed_automaton.hh', 'include/timed_word.hh', 'include/constraint.hh'],
  [('operator<<', 'include/timed_automaton.hh')], ['text written to a stream'])

p('C22', 'Timed words keep their time and events',
  'Concatenating timed words adds the durations where they meet and keeps every other event and duration in order; absorbing internal events keeps the total time and all visible events; removing a prefix and putting it back gives the original word. The accumulated durations are the sums of the remaining durations, and equal words hash and compare equal while different words do not compare equal.',
  ['inputs'], 'Every timed word, with internal events anywhere and zero durations.',
  'Unit tests check a few words.',
  ['include/timed_word.hh'], [('TimedWord', 'include/timed_word.hh')], ['TimedWord operations'])

p('C23', 'Transitions built for hypotheses lead where their renaming says',
  'A transition made from a source region, a target region and a renaming of their clocks is enabled exactly on the intervals of the source region, and its update gives every renamed clock the value of its partner, every clock with a fixed value that value, and every other clock one and the same value for all sources, taken from the target region; if the renaming fixes every clock, all valuations of the source region are led into the target region. Composing, completing and cleaning updates gives the updates that act like one after the other, like the first with the second as default, and as before. The neighbours of a region under a set of precise clocks are all regions with the same intervals and the same differences among precise and among other clocks, together with what time makes of them while the precise clocks stay in step; the relaxed guard is the smallest guard that holds on all of them, after any delays, events, restarts and transitions, and relaxing the guards of a hypothesis for its imprecise clocks only adds transitions, among them every one the neighbours need. A state is called deterministic exactly if no valuation enables two of its transitions for one event; removing redundant transitions changes nothing that is enabled, and merging loses nothing.',
  ['inputs', 'histories'], 'Every pair of regions, every renaming that relates them, every update, set of precise clocks and sequence of steps, and every set of guarded transitions.',
  'Unit tests build a handful of transitions and neighbours by hand; whether an update leads into the region it claims depends on the order of fractions of all clocks at once.',
  ['include/external_transition_maker.hh', 'include/internal_transition_maker.hh', 'include/renaming_relation.hh', 'include/neighbor_conditions.hh', 'include/imprecise_clock_handler.hh', 'include/timed_automaton.hh', 'src/timed_automaton.cc'],
  [('transitions between regions', 'include/external_transition_maker.hh make, include/internal_transition_maker.hh make'), ('renaming to update', 'include/renaming_relation.hh toReset, toValuation, addImplicitConstraints'), ('updates', 'include/timed_automaton.hh composition, addDefault, clean'), ('neighbours', 'include/neighbor_conditions.hh'), ('guard relaxation', 'include/imprecise_clock_handler.hh run'), ('state operations', 'src/timed_automaton.cc TAState')],
  ['ExternalTransitionMaker::make', 'RenamingRelation::toReset', 'NeighborConditions::toRelaxedGuard', 'ImpreciseClockHandler::run', 'TAState operations'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
