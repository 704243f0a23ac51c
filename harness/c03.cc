// C03: answers of the exact equivalence oracle against an independent decision over regions.
#include "drv.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace hn;

static std::string show(const TimedWord &w) { std::ostringstream o; o << w; return o.str(); }

// acceptance by the reference semantics, on exact ticks; nullopt if the times are not dyadic
static std::optional<bool> accepts(const TimedAutomaton &A, const TimedWord &w) {
  const long T = 1L << 20; auto v = convert(A, T); if (!v.ok) return std::nullopt;
  ref::Word x; x.w = w.getWord();
  for (double d : w.getDurations()) { double t = d * (double) T; if (t != std::floor(t) || t < 0) return std::nullopt; x.d.push_back((long) t); }
  ref::Runner R{v.ta}; return R.run(x);
}

// the same automaton with states, transitions and clocks in another order, redundant parts, or simplified
static std::string disguise(Ctx &c, Gen &g) {
  auto &A = g.A; std::string s; int k = (int) A.clockSize();
  if (c.r.chance(1, 2)) { for (size_t i = A.states.size(); i > 1; --i) std::swap(A.states[i - 1], A.states[c.r.next() % i]); s += " states-permuted"; }
  if (k > 1 && c.r.chance(1, 2)) {
    auto f = [&](int x) { return (learnta::ClockVariables) (k - 1 - x); };
    for (auto &st : A.states) for (auto &[a, ts] : st->next) for (auto &t : ts) {
      for (auto &q : t.guard) q.x = f(q.x);
      for (auto &[x, v] : t.resetVars) { x = f(x); if (v.index() == 1) v = f(std::get<learnta::ClockVariables>(v)); }
    }
    std::reverse(A.maxConstraints.begin(), A.maxConstraints.end()); s += " clocks-permuted";
  }
  if (c.r.chance(1, 2)) { A.maxConstraints.push_back(c.r.in(0, 3)); for (auto &st : A.states) for (auto &[a, ts] : st->next) for (auto &t : ts) if (c.r.chance(1, 2)) t.resetVars.emplace_back(k, 0.0); s += " extra-clock"; }
  if (c.r.chance(1, 3)) { A = A.complement(g.alphabet).complement(g.alphabet); s += " twice-complemented"; }
  if (c.r.chance(1, 4)) { A.simplifyStrong(); s += " simplified"; }
  if (c.r.chance(1, 4)) { A.simplifyWithZones(); s += " zone-simplified"; }
  if (!A.states.empty() && !A.initialStates.empty() && c.r.chance(1, 3)) {   // a second copy of a state
    auto o = A.states[c.r.next() % A.states.size()]; auto d = std::make_shared<TAState>(*o); A.states.push_back(d);
    for (auto &st : A.states) for (auto &[a, ts] : st->next) for (auto &t : ts) if (t.target == A.states[0].get() && o == A.states[0] && c.r.chance(1, 2)) t.target = d.get();
    s += " state-doubled";
  }
  return s;
}

static void body(Ctx &c, int maxClocks) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = c.r.in(0, maxClocks); g.maxConst = c.r.in(1, g.maxClocks > 1 ? 2 : 3); g.letters = c.r.in(1, 2);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.complete = c.r.chance(1, 3); g.acceptDen = c.r.in(2, 4);
  Gen t = genDTA(c.r, g);
  if (c.r.chance(1, 50)) { t.A.states.clear(); t.A.initialStates.clear(); }
  if (c.r.chance(1, 3)) { int n = (int) t.A.clockSize(); auto m = TimedAutomaton::makeMaxConstants(t.A.states); m.resize(n); t.A.maxConstraints = m; }
  TimedAutomaton T0 = copyOf(t.A);
  TimedAutomaton comp = t.A.complement(t.alphabet);
  if (c.r.chance(1, 3)) { comp.simplifyWithZones(); }   // as the examples do
  learnta::ComplementTimedAutomataEquivalenceOracle oracle{t.A, comp, t.alphabet};
  learnta::EquivalenceOracle &eq = oracle;
  std::string text = "target\n" + dump(t.A);
  c.nontrivial(text); c.sample(text);
  struct Asked { TimedAutomaton h; bool found; };
  std::vector<Asked> asked;
  int n = c.r.in(2, 5); size_t queries = 0;
  for (int i = 0; i < n; ++i) {
    Gen h; std::string how;
    int kind = c.r.in(0, 9);
    if (kind == 0) { h = genDTA(c.r, g); h.alphabet = t.alphabet; how = "another automaton"; }
    else if (kind < 5) {
      h.A = copyOf(T0); h.alphabet = t.alphabet; how = "changed:";
      int m = c.r.chance(2, 3) ? 1 : 2; for (int j = 0; j < m; ++j) how += " " + mutate(c.r, h);
      if (!isDeterministic(h.A)) { h.A = copyOf(T0); how = "unchanged"; }
      if (c.r.chance(1, 3)) how += disguise(c, h);
    }
    else if (kind < 9) { h.A = copyOf(T0); h.alphabet = t.alphabet; how = "disguised:" + disguise(c, h); }
    else if (!asked.empty()) { h.A = copyOf(c.r.pick(asked).h); h.alphabet = t.alphabet; how = "asked before"; }
    else continue;
    auto r = compare(T0, h.A, t.alphabet, c.thorough ? 300000 : 40000);
    if (r.d.st == ref::Diff::UNKNOWN) { c.ev("undecided"); continue; }
    const std::string before = dump(h.A);
    auto ce = eq.findCounterExample(h.A); ++queries;
    c.ev("queries"); c.ev(ce ? "counterexamples" : "equivalences"); c.ev("configurations", (long) r.d.configs);
    std::string full = text + "hypothesis (" + how + ")\n" + before;
    if (ce && r.d.st == ref::Diff::EQUAL) { c.fail("unsound", "the answer " + show(*ce) + " for automata with the same language\n" + full); return; }
    if (!ce && r.d.st == ref::Diff::DIFFERENT) { c.fail("incomplete", "nothing found, but they disagree on " + r.word + "\n" + full); return; }
    if (ce) {
      auto a = accepts(T0, *ce), b = accepts(h.A, *ce);
      if (!a || !b) c.ev("not_dyadic");
      else { c.ev("words_confirmed"); if (*a == *b) { c.fail("witness", "target and hypothesis agree on the answer " + show(*ce) + "\n" + full); return; } }
    }
    if (eq.numEqQueries() != queries) { c.fail("count", "the oracle reports " + std::to_string(eq.numEqQueries()) + " queries, " + std::to_string(queries) + " were made\n" + full); return; }
    if (compare(T0, t.A, t.alphabet, 40000).d.st == ref::Diff::DIFFERENT) { c.fail("target-changed", "the target accepts other words after the query\n" + full); return; }
    asked.push_back({h.A, (bool) ce});
    // an earlier question again
    if (c.r.chance(1, 2)) {
      auto &q = asked[c.r.next() % asked.size()];
      auto again = eq.findCounterExample(q.h); ++queries; c.ev("repeated_queries");
      if ((bool) again != q.found) { c.fail("history", std::string("asked again, the oracle ") + (again ? "finds " + show(*again) : "finds nothing") + " unlike before\n" + text + dump(q.h)); return; }
    }
  }
}
// one hypothesis, changed in place between the queries of one oracle
static void inPlace(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = c.r.in(0, 2); g.maxConst = c.r.in(1, 2); g.letters = c.r.in(1, 2); g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.complete = c.r.chance(1, 3);
  Gen t = genDTA(c.r, g), h; h.A = copyOf(t.A); h.alphabet = t.alphabet; TimedAutomaton T0 = copyOf(t.A);
  learnta::ComplementTimedAutomataEquivalenceOracle oracle{t.A, t.A.complement(t.alphabet), t.alphabet}; std::string text = "target\n" + dump(t.A); int was = -1;
  for (int i = 0; i < 6; ++i) {
    if (i && c.r.chance(4, 5)) {   // the states of the hypothesis stay where they are, what they hold is exchanged
      Gen m; m.A = copyOf(c.r.chance(1, 3) ? T0 : h.A); m.alphabet = t.alphabet; if (c.r.chance(2, 3)) mutate(c.r, m);
      if (isDeterministic(m.A) && m.A.states.size() == h.A.states.size()) {
        std::unordered_map<const TAState *, TAState *> at; for (size_t k = 0; k < m.A.states.size(); ++k) at[m.A.states[k].get()] = h.A.states[k].get();
        for (size_t k = 0; k < m.A.states.size(); ++k) { h.A.states[k]->isMatch = m.A.states[k]->isMatch; h.A.states[k]->next = m.A.states[k]->next; for (auto &[a, ts] : h.A.states[k]->next) for (auto &tr : ts) tr.target = at.at(tr.target); }
        for (size_t k = 0; k < m.A.states.size(); ++k) if (m.A.states[k] == m.A.initialStates[0]) h.A.initialStates = {h.A.states[k]};
        h.A.maxConstraints = m.A.maxConstraints;
      }
    }
    auto r = compare(T0, h.A, t.alphabet, 40000); if (r.d.st == ref::Diff::UNKNOWN) { c.ev("undecided"); continue; }
    auto ce = ((learnta::EquivalenceOracle &) oracle).findCounterExample(h.A); c.ev("queries_in_place"); std::string full = text + "hypothesis\n" + dump(h.A);
    if (was >= 0 && was != (int) (bool) ce) c.ev("answers_changed"); was = (bool) ce;
    if ((bool) ce != (r.d.st == ref::Diff::DIFFERENT)) { c.fail(ce ? "unsound-in-place" : "incomplete-in-place", (ce ? "the answer " + show(*ce) + " for automata with the same language\n" : "nothing found, but they disagree on " + r.word + "\n") + full); return; }
    if (ce) { auto a = accepts(T0, *ce), b = accepts(h.A, *ce); if (a && b && *a == *b) { c.fail("witness", "target and hypothesis agree on the answer " + show(*ce) + "\n" + full); return; } }
  }
  c.nontrivial(text); c.sample(text);
}
static void one(Ctx &c) { body(c, 1); }
static void two(Ctx &c) { body(c, 2); }
static void three(Ctx &c) { body(c, 3); }

int main(int ac, char **av) { return drive(ac, av, {{"one-clock", one, 6000, 40000}, {"two-clocks", two, 4000, 30000}, {"three-clocks", three, 300, 4000}, {"in-place", inPlace, 1500, 15000}}); }
