// C04: equivalence oracles that test, remember, or combine others.
#include "drv.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_memo.hh"
#include "timed_automata_equivalence_oracle.hh"
using namespace hn;

static std::string show(const TimedWord &w) { std::ostringstream o; o << w; return o.str(); }
static std::string show(const std::optional<TimedWord> &w) { return w ? show(*w) : "nothing"; }
static const long T = 1L << 40;

static bool accepts(const TimedAutomaton &A, const TimedWord &w) {
  auto v = convert(A, T); ref::Word x; x.w = w.getWord();
  for (double d : w.getDurations()) x.d.push_back((long) std::llround(d * (double) T));
  ref::Runner R{v.ta}; return R.run(x);
}
// do they disagree after some event or delay of the word?
static bool separates(const TimedAutomaton &A, const TimedAutomaton &B, const TimedWord &w) {
  auto a = convert(A, T), b = convert(B, T);
  ref::Runner R{a.ta}, S{b.ta}; R.reset(); S.reset();
  auto &d = w.getDurations();
  for (size_t i = 0; i < d.size(); ++i) {
    long t = (long) std::llround(d[i] * (double) T);
    R.delay(t); S.delay(t); if (R.acc() != S.acc()) return true;
    if (i < w.getWord().size()) { R.act((unsigned char) w.getWord()[i]); S.act((unsigned char) w.getWord()[i]); if (R.acc() != S.acc()) return true; }
  }
  return false;
}
static Gen target(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = c.r.in(0, 2); g.maxConst = c.r.in(1, 3); g.letters = c.r.in(1, 2);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.acceptDen = c.r.in(2, 3);
  Gen x = genDTA(c.r, g); if (c.r.chance(1, 50)) { x.A.states.clear(); x.A.initialStates.clear(); } return x;
}
static Gen variant(Ctx &c, const Gen &t) {
  Gen h; h.A = copyOf(t.A); h.alphabet = t.alphabet;
  int m = c.r.in(0, 3);
  for (int j = 0; j < m; ++j) { Gen k; k.A = copyOf(h.A); k.alphabet = h.alphabet; mutate(c.r, k); if (isDeterministic(k.A)) h = k; }
  return h;
}
static TimedWord word(Ctx &c, const std::vector<Alphabet> &al) {
  std::string w; std::vector<double> d{c.r.in(0, 8) / 4.0}; int n = c.r.in(0, 5);
  for (int i = 0; i < n; ++i) { w.push_back((char) c.r.pick(al)); d.push_back(c.r.chance(1, 2) ? c.r.in(0, 3) : c.r.in(0, 10) / 4.0); }
  return TimedWord{w, d};
}

// an internal transition per state at most, to a later state, at a closed lower bound
static void internals(Ctx &c, TimedAutomaton &A) {
  int n = (int) A.states.size(), k = (int) A.maxConstraints.size();
  for (int i = 0; i + 1 < n && k > 0; ++i) if (c.r.chance(1, 2)) {
    learnta::TATransition t; t.target = A.states[c.r.in(i + 1, n - 1)].get(); int x = c.r.in(0, k - 1); t.guard.push_back(ConstraintMaker(x) >= c.r.in(0, std::min(3, A.maxConstraints[x])));
    for (int y = 0; y < k; ++y) if (c.r.chance(1, 3)) t.resetVars.emplace_back(y, (double) c.r.in(0, 1)); A.states[i]->next[learnta::UNOBSERVABLE] = {t};
  }
}
static void byTest(Ctx &c) {
  Gen t = target(c); Gen base; base.A = copyOf(t.A); base.alphabet = t.alphabet; bool internal = c.r.chance(1, 3); if (internal) internals(c, t.A); TimedAutomaton T0 = copyOf(t.A);
  learnta::EquivalenceOracleByTest o{t.A};
  std::vector<TimedWord> stored; size_t q = 0;
  std::string text = "target\n" + dump(t.A); c.nontrivial(text); c.sample(text);
  for (int i = 0; i < 12; ++i) {
    for (int j = c.r.in(0, 2); j > 0; --j) { stored.push_back(word(c, t.alphabet)); o.push_back(stored.back()); }
    Gen h = variant(c, base); if (internal) internals(c, h.A);
    auto r = ((learnta::EquivalenceOracle &) o).findCounterExample(h.A); ++q; if (internal) c.ev("internal_transitions");
    bool any = false; for (auto &w : stored) any = any || separates(T0, h.A, w);
    c.ev("queries"); c.ev(any ? "separated" : "not_separated");
    std::string full = text + "hypothesis\n" + dump(h.A) + "stored words:"; for (auto &w : stored) full += "\n  " + show(w);
    if (any != (bool) r) { c.fail("by-test", "the answer is " + show(r) + ", but " + (any ? "a" : "no") + " stored word separates them\n" + full); return; }
    if (r && accepts(T0, *r) == accepts(h.A, *r)) { c.fail("by-test-word", "the answer " + show(r) + " does not separate them\n" + full); return; }
    if (o.numEqQueries() != q) { c.fail("count", "reported " + std::to_string(o.numEqQueries()) + " of " + std::to_string(q) + "\n" + full); return; }
  }
}

static void byRandom(Ctx &c) {
  Gen t = target(c); Gen h = variant(c, t); bool internal = c.r.chance(1, 3); if (internal) { internals(c, t.A); internals(c, h.A); } TimedAutomaton T0 = copyOf(t.A);
  int tests = c.r.in(0, 40), len = c.r.in(0, 6), dur = c.r.in(1, 5);
  learnta::EquivalenceOracleByRandomTest o{t.alphabet, t.A, tests, len, dur};
  std::string text = "target\n" + dump(t.A) + "hypothesis\n" + dump(h.A) + "tests " + std::to_string(tests) + " length " + std::to_string(len) + " duration " + std::to_string(dur) + "\n";
  c.nontrivial(text);
  bool differAtOnce = !internal && accepts(T0, TimedWord{"", {0}}) != accepts(h.A, TimedWord{"", {0}});
  for (int i = 0; i < 5; ++i) {
    auto r = ((learnta::EquivalenceOracle &) o).findCounterExample(h.A);
    c.ev("random_queries");
    if (o.numEqQueries() != (size_t) i + 1) c.fail("count", "the number of queries is wrong\n" + text);
    if (!r) { if (differAtOnce && tests > 0) c.fail("random-missed", "nothing found though they disagree on every test from the start\n" + text); continue; }
    c.ev("random_counterexamples");
    if ((int) r->wordSize() > len) c.fail("random-length", "the answer " + show(r) + " is too long\n" + text);
    for (double d : r->getDurations()) if (d < 0 || d > dur) c.fail("random-duration", "the answer " + show(r) + " has a duration out of range\n" + text);
    for (char a : r->getWord()) if (std::find(t.alphabet.begin(), t.alphabet.end(), a) == t.alphabet.end()) c.fail("random-event", "the answer " + show(r) + " has an event outside the alphabet\n" + text);
    if (tests == 0) c.fail("random-tests", "an answer without a test\n" + text);
    if (accepts(T0, *r) == accepts(h.A, *r)) c.fail("random-word", "the answer " + show(r) + " does not separate them\n" + text);
    if (c.failed()) return;
  }
}

// random testing finds what most of its tests separate; a test of the oracle's reach, not of luck: the two disagree
// after a first event whatever its time, so every single test separates them
static void byRandomReach(Ctx &c) {
  int k = c.r.in(1, 3), m = c.r.in(1, 3); std::vector<Alphabet> al; for (int i = 0; i < m; ++i) al.push_back((Alphabet) ('a' + i));
  auto make = [&](bool acc) {
    TimedAutomaton A; for (int i = 0; i <= k; ++i) A.states.push_back(std::make_shared<TAState>(i == k ? acc : i % 2 == 0));
    for (int i = 0; i < k; ++i) for (Alphabet a : al) { TATransition t; t.target = A.states[i + 1].get(); A.states[i]->next[a].push_back(t); }
    A.initialStates = {A.states[0]}; return A;
  };
  TimedAutomaton A = make(true), B = make(false);
  c.nontrivial(std::to_string(k) + "," + std::to_string(m) + "," + std::to_string(c.idx));
  for (int len = k - 1; len <= k + 1; ++len) {
    learnta::EquivalenceOracleByRandomTest o{al, A, c.r.in(1, 3), len, 2};
    auto r = ((learnta::EquivalenceOracle &) o).findCounterExample(B); c.ev("random_queries");
    if ((bool) r != (len >= k)) c.fail("random-reach", "words of length " + std::to_string(len) + ", the difference shows after " + std::to_string(k) + " events, answer " + show(r));
    if (r) { c.ev("random_counterexamples"); if ((int) r->wordSize() != k) c.fail("random-shortest", "the answer " + show(r) + " goes on after the first difference"); }
  }
}

// an oracle that answers as told and records what it is asked
struct Scripted : learnta::EquivalenceOracle {
  std::vector<std::optional<TimedWord>> answers; std::vector<size_t> *log; size_t id; const TimedAutomaton **seen; size_t at = 0;
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override { ++eqQueryCount; log->push_back(id); *seen = &h; return answers.at(at++); }
};
static bool same(const std::optional<TimedWord> &a, const std::optional<TimedWord> &b) {
  return a.has_value() == b.has_value() && (!a || (a->getWord() == b->getWord() && a->getDurations() == b->getDurations()));
}

static void chain(Ctx &c) {
  Gen t = target(c); int m = c.r.in(0, 4), n = c.r.in(1, 6);
  learnta::EquivalenceOracleChain ch; std::vector<size_t> log; const TimedAutomaton *seen = nullptr; std::vector<std::vector<std::optional<TimedWord>>> plan(m);
  std::vector<Scripted *> raw; std::string text;
  for (int i = 0; i < m; ++i) {
    auto s = std::make_unique<Scripted>(); s->log = &log; s->id = i; s->seen = &seen; raw.push_back(s.get());
    for (int j = 0; j < n; ++j) { std::optional<TimedWord> w; if (c.r.chance(1, 3)) w = word(c, t.alphabet); plan[i].push_back(w); }
    s->answers = plan[i]; ch.push_back(std::move(s));
  }
  std::vector<size_t> at(m, 0);
  for (int j = 0; j < n; ++j) {
    log.clear();
    auto r = ((learnta::EquivalenceOracle &) ch).findCounterExample(t.A); c.ev("chain_queries");
    // what each member would say now
    std::optional<TimedWord> want; int first = m;
    for (int i = 0; i < m; ++i) { auto w = plan[i][at[i]]; if (w) { want = w; first = i; break; } }
    for (size_t id : log) at[id]++;
    text += "query " + std::to_string(j) + ": " + show(r) + "\n";
    if (!same(r, want)) { c.fail("chain", "the chain answers " + show(r) + ", its first successful member " + show(want) + "\n" + text); return; }
    for (int i = 0; i < std::min(first + 1, m); ++i) if (std::count(log.begin(), log.end(), (size_t) i) != 1) { c.fail("chain-asked", "member " + std::to_string(i) + " was asked " + std::to_string(std::count(log.begin(), log.end(), (size_t) i)) + " times\n" + text); return; }
    if (!std::is_sorted(log.begin(), log.end())) { c.fail("chain-order", "members were asked out of order\n" + text); return; }
    if (ch.numEqQueries() != (size_t) j + 1) { c.fail("count", "the chain counts " + std::to_string(ch.numEqQueries()) + "\n" + text); return; }
    if (want) c.ev("chain_found"); else c.ev("chain_nothing");
    if (m && seen != &t.A) { c.fail("chain-hypothesis", "another automaton was passed on\n" + text); return; }
  }
  c.nontrivial(text + std::to_string(m));
}

struct Counting : learnta::EquivalenceOracle {
  std::unique_ptr<learnta::EquivalenceOracle> inner; long *calls;
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override { ++eqQueryCount; ++*calls; return inner->findCounterExample(h); }
};

static void memo(Ctx &c) {
  Gen t = target(c); TimedAutomaton T0 = copyOf(t.A); long calls = 0;
  auto mk = [&]() { return std::make_unique<learnta::ComplementTimedAutomataEquivalenceOracle>(t.A, t.A.complement(t.alphabet), t.alphabet); };
  auto cnt = std::make_unique<Counting>(); cnt->inner = mk(); cnt->calls = &calls;
  learnta::EquivalenceOracleMemo o{std::move(cnt), t.A};
  auto plain = mk(); learnta::EquivalenceOracle &ref_ = *plain;
  std::string text = "target\n" + dump(t.A); c.nontrivial(text + "memo"); c.sample(text);
  std::vector<TimedWord> given; std::vector<Gen> hs; size_t q = 0;
  for (int i = 0; i < 8; ++i) {
    Gen h = !hs.empty() && c.r.chance(1, 3) ? hs[c.r.next() % hs.size()] : variant(c, t); hs.push_back(h);
    auto want = ref_.findCounterExample(h.A);
    auto exact = compare(T0, h.A, t.alphabet, 40000).d.st;
    auto r = ((learnta::EquivalenceOracle &) o).findCounterExample(h.A); ++q;
    c.ev("memo_queries"); if (r) c.ev("memo_found");
    std::string full = text + "hypothesis\n" + dump(h.A);
    if ((bool) r != (bool) want) { c.fail("memo", "the memoising oracle answers " + show(r) + ", the wrapped one " + show(want) + "\n" + full); return; }
    if (exact != ref::Diff::UNKNOWN && (bool) r != (exact == ref::Diff::DIFFERENT)) { c.fail("memo-exact", "the answer is " + show(r) + "\n" + full); return; }
    if (r && accepts(T0, *r) == accepts(h.A, *r)) { c.fail("memo-word", "the answer " + show(r) + " does not separate them\n" + full); return; }
    for (auto &w : given) if (separates(T0, h.A, w)) { c.ev("memo_could_recall"); break; }
    if (r) given.push_back(*r);
    if (o.numEqQueries() != q) { c.fail("count", "the memo counts " + std::to_string(o.numEqQueries()) + " of " + std::to_string(q) + "\n" + full); return; }
    std::ostringstream s; o.printStatistics(s);
    std::vector<long> nums; std::istringstream is(s.str()); std::string tok; while (is >> tok) { bool dig = !tok.empty(); for (char x : tok) dig = dig && isdigit((unsigned char) x); if (dig) nums.push_back(std::stol(tok)); }
    if (nums != std::vector<long>{(long) q, calls}) { c.fail("statistics", "the statistics say\n" + s.str() + "for " + std::to_string(q) + " queries, " + std::to_string(calls) + " of them passed on\n" + full); return; }
  }
  if (calls > (long) q) c.fail("memo-calls", "the wrapped oracle was asked more often than the memo");
}

int main(int ac, char **av) {
  return drive(ac, av, {{"by-test", byTest, 1500, 15000}, {"by-random", byRandom, 1500, 15000}, {"by-random-reach", byRandomReach, 100, 1000}, {"chain", chain, 1500, 15000}, {"memo", memo, 1500, 15000}});
}
