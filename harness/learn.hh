// Learning runs under observation: a recording system under learning and a recording equivalence oracle.
#pragma once
#include "drv.hh"
#include "learner.hh"
#include "timed_automaton_runner.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_memo.hh"
#include <cassert>

namespace hn {
inline std::string show(const TimedWord &w) { std::ostringstream o; o << w; return o.str(); }

// runs words on an automaton, on exact ticks (a power of two of them in a time unit)
struct Judge {
  static constexpr long T = 1L << 30;
  ref::TA ta; bool ok; std::string why;
  explicit Judge(const TimedAutomaton &A) { auto c = convert(A, T); ok = c.ok; why = c.why; ta = c.ta; }
  bool operator()(const std::string &w, const std::vector<double> &d) const {
    ref::Word x; x.w = w; for (double t : d) x.d.push_back((long) std::llround(t * (double) T));
    ref::Runner R{ta}; return R.run(x);
  }
  bool operator()(const TimedWord &w) const { return (*this)(w.getWord(), w.getDurations()); }
};
inline TimedWord randomWord(Rng &r, const std::vector<Alphabet> &al, int maxLen, int maxConst) {
  std::string w; std::vector<double> d; int n = r.in(0, maxLen); int den = 1 << r.in(0, 4);
  for (int i = 0; i <= n; ++i) { d.push_back(r.chance(1, 4) ? 0 : r.chance(1, 3) ? r.in(0, maxConst + 1) : r.in(0, den * (maxConst + 1)) / (double) den); if (i < n) w.push_back((char) r.pick(al)); }
  return TimedWord{w, d};
}
// one more way to compare, for pairs beyond the exact decision
inline std::optional<TimedWord> differByTesting(Rng &r, const TimedAutomaton &A, const TimedAutomaton &B, const std::vector<Alphabet> &al, int words, int maxLen, int K) {
  Judge a{A}, b{B};
  for (int i = 0; i < words; ++i) { auto w = randomWord(r, al, maxLen, K); if (a(w) != b(w)) return w; }
  return std::nullopt;
}

// a random target; nine in ten times one whose language looks neither empty nor full
inline Gen target(Rng &r, const GenCfg &g) {
  for (int tries = 0;; ++tries) {
    Gen t = genDTA(r, g); if (tries == 12 || r.chance(1, 10)) return t;
    Judge j{t.A}; int acc = 0; for (int i = 0; i < 30; ++i) acc += j(randomWord(r, t.alphabet, 5, g.maxConst));
    if (acc > 2 && acc < 28) return t;
  }
}

struct TooMuch : std::runtime_error { using runtime_error::runtime_error; };

struct Observed {
  std::vector<TimedAutomaton> hyps; std::vector<std::optional<TimedWord>> answers; long words = 0, pres = 0; long maxWords = 1L << 60; size_t maxRounds = 1000;
};
struct WatchedSUL : learnta::SUL {   // counts words
  std::unique_ptr<learnta::SUL> in; Observed *o;
  void pre() override { ++o->pres; if (o->pres > o->maxWords) throw TooMuch("more than " + std::to_string(o->maxWords) + " membership queries"); in->pre(); }
  void post() override { in->post(); }
  bool step(char a) override { return in->step(a); }
  bool step(double d) override { return in->step(d); }
  size_t count() const override { return in->count(); }
};
struct WatchedOracle : learnta::EquivalenceOracle {
  std::unique_ptr<learnta::EquivalenceOracle> in; Observed *o; std::function<void(const TimedAutomaton &)> onHyp;
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
    ++eqQueryCount; o->hyps.push_back(copyOf(h)); if (onHyp) onHyp(h);
    if (o->hyps.size() > o->maxRounds) throw TooMuch("more than " + std::to_string(o->maxRounds) + " equivalence queries");
    auto a = in->findCounterExample(h); o->answers.push_back(a); return a;
  }
};
// exact, but with words of its own choice: random separating words where there are some
struct WildOracle : learnta::EquivalenceOracle {
  Rng r{0}; TimedAutomaton T; std::vector<Alphabet> al; int K = 2, maxLen = 8; std::unique_ptr<learnta::EquivalenceOracle> fallback;
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
    ++eqQueryCount;
    if (r.chance(3, 4)) if (auto w = differByTesting(r, T, h, al, 300, maxLen, K)) return w;
    return fallback->findCounterExample(h);
  }
};
enum OracleKind { EXACT, SIMPLIFIED, MEMO, RUNNER, WILD };
inline const char *kindName(int k) { static const char *n[] = {"exact", "exact with a simplified complement", "memoising", "stored words, then exact, memoised", "random counterexamples"}; return n[k]; }

inline std::unique_ptr<learnta::EquivalenceOracle> makeOracle(Rng &r, const Gen &t, int kind) {
  auto comp = t.A.complement(t.alphabet);
  if (kind != EXACT && kind != MEMO) { comp.simplifyStrong(); comp.simplifyWithZones(); }
  auto exact = std::make_unique<learnta::ComplementTimedAutomataEquivalenceOracle>(t.A, comp, t.alphabet);
  int K = 1; for (int m : t.A.maxConstraints) K = std::max(K, m);
  if (kind == MEMO) return std::make_unique<learnta::EquivalenceOracleMemo>(std::move(exact), t.A);
  if (kind == RUNNER) {
    auto chain = std::make_unique<learnta::EquivalenceOracleChain>(); auto test = std::make_unique<learnta::EquivalenceOracleByTest>(t.A);
    for (int i = r.in(0, 4); i > 0; --i) test->push_back(randomWord(r, t.alphabet, 4, K));
    chain->push_back(std::move(test)); chain->push_back(std::move(exact));
    return std::make_unique<learnta::EquivalenceOracleMemo>(std::move(chain), t.A);
  }
  if (kind == WILD) { auto w = std::make_unique<WildOracle>(); w->r = Rng{r.next()}; w->T = copyOf(t.A); w->al = t.alphabet; w->K = K; w->fallback = std::move(exact); return w; }
  return exact;
}
inline std::unique_ptr<learnta::Learner> makeLearner(Rng &r, const Gen &t, int kind, Observed &o, std::function<void(const TimedAutomaton &)> onHyp = nullptr) {
  auto s = std::make_unique<WatchedSUL>(); s->in = std::make_unique<learnta::TimedAutomatonRunner>(t.A); s->o = &o;
  auto e = std::make_unique<WatchedOracle>(); e->in = makeOracle(r, t, kind); e->o = &o; e->onHyp = std::move(onHyp);
  return std::make_unique<learnta::Learner>(t.alphabet, std::make_unique<learnta::SymbolicMembershipOracle>(std::move(s)), std::move(e));
}
// fixed targets in the style of the repository's examples
inline Gen chainTarget(int scale, int shape) {
  using learnta::ConstraintMaker; Gen g; auto S = [&](bool acc) { g.A.states.push_back(std::make_shared<TAState>(acc)); return g.A.states.back().get(); };
  auto add = [&](TAState *a, char ev, TAState *b, std::vector<Constraint> gd, TATransition::Resets rs) { TATransition t; t.target = b; t.guard = gd; t.resetVars = rs; a->next[ev].push_back(t); };
  ConstraintMaker x(0), y(1);
  switch (shape) {
    case 0: { g.alphabet = {'a', 'b', 'c'}; auto *p = S(false), *q = S(false), *r = S(false), *s = S(true);   // unbalanced: overlapping intervals
      add(p, 'a', q, {}, {{1, 0.0}}); add(q, 'b', r, {x >= scale, x <= scale}, {}); add(r, 'c', s, {y >= scale, y <= scale}, {}); g.A.maxConstraints = {scale, scale}; break; }
    case 1: { g.alphabet = {'s', 'p'}; auto *o = S(false), *l = S(true), *b = S(false);   // light switch
      add(o, 'p', l, {}, {{0, 0.0}}); add(l, 'p', b, {x <= scale}, {{0, 0.0}}); add(l, 'p', o, {x > scale}, {}); add(b, 'p', o, {}, {}); add(l, 's', o, {x >= scale}, {}); g.A.maxConstraints = {scale}; break; }
    case 2: { g.alphabet = {'a'}; auto *p = S(true), *q = S(false);   // a tick no later than `scale`, alternating
      add(p, 'a', q, {x > 0, x <= scale}, {{0, 0.0}}); add(q, 'a', p, {x >= scale}, {{0, 0.0}}); g.A.maxConstraints = {scale}; break; }
    case 3: { g.alphabet = {'a', 'b'}; auto *p = S(false), *q = S(false), *r = S(true);   // two clocks started apart
      add(p, 'a', q, {}, {{0, 0.0}}); add(q, 'a', q, {x < scale}, {{1, 0.0}}); add(q, 'b', r, {x > scale, y < scale}, {}); g.A.maxConstraints = {scale, scale}; break; }
    case 4: { g.alphabet = {'a', 'b'}; auto *p = S(false), *q = S(true);   // a loop that must be kept balanced
      add(p, 'a', q, {x >= 1, x <= scale}, {{0, 0.0}}); add(q, 'b', p, {x >= scale}, {{0, 0.0}}); add(q, 'a', q, {x < 1}, {}); g.A.maxConstraints = {scale}; break; }
    default: { g.alphabet = {'a'}; auto *p = S(false), *q = S(false), *r = S(true);   // copies: the first clock keeps the time of the event before
      add(p, 'a', q, {}, {{1, 0.0}}); add(q, 'a', r, {y <= scale}, {{0, (learnta::ClockVariables) 1}, {1, 0.0}}); add(r, 'a', q, {x > scale}, {{1, 0.0}}); g.A.maxConstraints = {scale, scale}; }
  }
  g.A.initialStates = {g.A.states[0]};
  return g;
}
}  // namespace hn
