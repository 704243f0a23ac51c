// C01: what is learned from an exact oracle is the target.
#include "learn.hh"
using namespace hn;

static void learnIt(Ctx &c, const Gen &t, int kind) {
  TimedAutomaton T0 = copyOf(t.A); std::string text = dump(t.A);
  Observed o; if (c.replay) printf("target\n%s%s\n", text.c_str(), kindName(kind));
  auto learner = makeLearner(c.r, t, kind, o, [&](const TimedAutomaton &h) { if (c.replay) { printf("hypothesis %zu after %ld words: %zu states, %zu clocks\n", o.hyps.size(), o.pres, h.stateSize(), h.clockSize()); fflush(stdout); } });
  TimedAutomaton H = learner->run(); c.ev("learned"); c.ev("equivalence_queries", (long) o.hyps.size()); c.ev("membership_queries", o.pres);
  c.ev(kind == WILD ? "learned_from_random_counterexamples" : "learned_from_exact_counterexamples");
  std::string full = "with the oracle: " + std::string(kindName(kind)) + "\ntarget\n" + text + "learned\n" + dump(H);
  int K = 1; for (int m : T0.maxConstraints) K = std::max(K, m);
  auto d = compare(T0, H, t.alphabet);
  if (d.d.st == ref::Diff::DIFFERENT) { c.fail("wrong-language", "the learned automaton differs from the target on [" + d.word + "]\n" + full); return; }
  if (d.d.st == ref::Diff::EQUAL) { c.ev("decided_equal"); c.ev("configurations", (long) d.d.configs); } else c.ev("decided_by_testing");
  // testing as well: the runner of the library and the reference, on words of every kind
  Judge a{T0}, b{H}; if (!b.ok) { c.fail("malformed", b.why + "\n" + full); return; }
  learnta::TimedAutomatonRunner run{H}; learnta::SUL &s = run;
  for (int i = 0; i < (d.d.st == ref::Diff::EQUAL ? 60 : 1500); ++i) {
    auto w = randomWord(c.r, t.alphabet, 9, K); bool want = a(w); c.ev("words");
    if (b(w) != want) { c.fail("wrong-language", "the learned automaton differs from the target on [" + show(w) + "]\n" + full); return; }
    s.pre(); bool got = s.step(w.getDurations()[0]); for (size_t j = 0; j < w.wordSize(); ++j) { s.step(w.getWord()[j]); got = s.step(w.getDurations()[j + 1]); } s.post();
    if (got != want) { c.fail("wrong-run", "running the learned automaton on [" + show(w) + "] gives " + std::to_string(got) + "\n" + full); return; }
    if (want) c.ev("words_accepted");
  }
  if (o.hyps.size() > 1) c.nontrivial(text); c.sample(full);
  if (H.stateSize() > 1) c.ev("learned_with_states"); if (H.clockSize() > 0) c.ev("learned_with_clocks");
}
static int kind(Ctx &c) { return c.r.pick(std::vector<int>{EXACT, SIMPLIFIED, SIMPLIFIED, MEMO, RUNNER, WILD}); }
static void oneClock(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 3); g.maxClocks = c.r.chance(1, 12) ? 0 : 1; g.maxConst = c.r.in(1, 2); g.letters = c.r.in(1, 2); g.complete = c.r.chance(1, 2);
  if (c.r.chance(1, 5)) { g.maxStates = 4; g.maxConst = 3; } if (c.r.chance(1, 10)) g.letters = 3; g.constResets = c.r.chance(1, 4);
  Gen t = target(c.r, g); if (c.r.chance(1, 60)) { t.A.states.clear(); t.A.initialStates.clear(); }
  else if (c.r.chance(1, 30)) for (auto &s : t.A.states) s->isMatch = false;
  learnIt(c, t, kind(c));
}
static void twoClocks(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 2); g.maxClocks = 2; g.maxConst = c.r.in(1, 2); g.letters = g.maxConst == 2 ? 1 : c.r.in(1, 2); g.copies = g.constResets = c.r.chance(1, 3);
  learnIt(c, target(c.r, g), kind(c));
}
static void shapes(Ctx &c) { int n = c.idx; learnIt(c, chainTarget(1 + n / 6 % 2, n % 6), n < 12 ? SIMPLIFIED : kind(c)); }
int main(int ac, char **av) { return drive(ac, av, {{"one-clock", oneClock, 2000, 12000, 12, false}, {"two-clocks", twoClocks, 600, 4000, 12, false}, {"shapes", shapes, 24, 48, 40, false}}); }
