// C02: learning makes progress: bounded queries, proper hypotheses, correct counts, an end.
#include "learn.hh"
using namespace hn;
static std::vector<long> numbers(const std::string &s, const std::string &what) {   // the numbers of the lines that mention `what`
  std::vector<long> n; std::istringstream ls(s); std::string line;
  while (std::getline(ls, line)) { if (line.find(what) == std::string::npos) continue; std::istringstream is(line); std::string t; while (is >> t) { bool dig = !t.empty(); for (char x : t) dig = dig && isdigit((unsigned char) x); if (dig) n.push_back(std::stol(t)); } }
  return n;
}
// what is wrong with a hypothesis, or nothing
static std::string malformed(const TimedAutomaton &h, const std::vector<Alphabet> &al) {
  std::set<const TAState *> st; for (auto &s : h.states) { if (!s) return "a missing state"; st.insert(s.get()); }
  if (st.size() != h.states.size()) return "a state listed twice";
  if (h.initialStates.size() != (h.states.empty() ? 0u : 1u)) return std::to_string(h.initialStates.size()) + " initial states";
  for (auto &s : h.initialStates) if (!s || !st.count(s.get())) return "an initial state that is not its own";
  int k = (int) h.clockSize();
  for (auto &s : h.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
    if (!t.target || !st.count(t.target)) return "a transition to a state that is not its own";
    if (std::find(al.begin(), al.end(), a) == al.end() && a != 0) return "a transition with an event outside the alphabet";
    for (auto &g : t.guard) if ((int) g.x >= k) return "a guard on an undeclared clock";
    for (auto &[x, v] : t.resetVars) { if ((int) x >= k || (v.index() == 1 && (int) std::get<learnta::ClockVariables>(v) >= k)) return "an update of (or from) an undeclared clock"; if (v.index() == 0 && !(std::get<double>(v) >= 0)) return "an update to a negative value"; }
    for (auto &g : t.guard) if (g.c > h.maxConstraints[g.x]) return "a guard beyond the declared maximal constant";
  }
  if (!isDeterministic(h)) return "two transitions enabled together";
  return "";
}

static void learnIt(Ctx &c, const Gen &t, int kind, long maxWords, size_t maxRounds) {
  TimedAutomaton T0 = copyOf(t.A); std::string text = "with the oracle: " + std::string(kindName(kind)) + "\ntarget\n" + dump(t.A);
  Observed o; o.maxWords = maxWords; o.maxRounds = maxRounds; std::string bad;
  auto learner = makeLearner(c.r, t, kind, o, [&](const TimedAutomaton &h) { c.ev("hypotheses"); if (bad.empty()) { bad = malformed(h, t.alphabet); if (!bad.empty()) bad += "\n" + dump(h); } });
  std::optional<TimedAutomaton> H;
  try { H = learner->run(); } catch (TooMuch &e) { c.fail("no-end", std::string("learning needs ") + e.what() + "\n" + text); return; }
  c.ev("learning_runs"); c.ev("membership_queries", o.pres);
  if (!bad.empty()) { c.fail("hypothesis", "a hypothesis has " + bad + text); return; }
  bad = malformed(*H, t.alphabet); if (!bad.empty()) { c.fail("result", "the result has " + bad + "\n" + dump(*H) + text); return; }
  // the counts
  std::ostringstream s; learner->printStatistics(s); auto eq = numbers(s.str(), "quivalence"), mem = numbers(s.str(), "number of membership"), mem2 = numbers(s.str(), "Number of membership");
  mem.insert(mem.end(), mem2.begin(), mem2.end());
  if (learner->numEqQueries() != o.hyps.size()) { c.fail("count", "reported " + std::to_string(learner->numEqQueries()) + " of " + std::to_string(o.hyps.size()) + " equivalence queries\n" + text); return; }
  if (std::count(eq.begin(), eq.end(), (long) o.hyps.size()) == 0 || std::count(mem.begin(), mem.end(), o.pres) == 0) { c.fail("count", "the statistics are wrong for " + std::to_string(o.hyps.size()) + " equivalence and " + std::to_string(o.pres) + " membership queries:\n" + s.str() + text); return; }
  c.ev("counts_compared");
  // the last answer is that nothing was found; the answers before did separate
  if (o.answers.size() != o.hyps.size() || o.answers.back()) { c.fail("stopped", "learning ended after a counterexample\n" + text); return; }
  { auto d = compare(*H, o.hyps.back(), t.alphabet, 60000); if (d.d.st == ref::Diff::DIFFERENT) { c.fail("final", "the returned automaton is not the last hypothesis\n" + dump(*H) + text); return; } }
  Judge jt{T0};
  int run = 1, longest = 1;
  for (size_t i = 0; i < o.hyps.size(); ++i) {
    if (o.answers[i]) { Judge jh{o.hyps[i]}; if (jh.ok && jh(*o.answers[i]) == jt(*o.answers[i])) { c.fail("harness", "the oracle gave a wrong counterexample"); return; } c.ev("counterexamples"); }
    if (i == 0) continue;
    auto d = compare(o.hyps[i - 1], o.hyps[i], t.alphabet, 60000); c.ev("hypotheses_compared");
    if (d.d.st == ref::Diff::EQUAL) { ++run; c.ev("hypotheses_repeated"); } else run = 1;
    longest = std::max(longest, run);
  }
  if (longest > 1) c.ev(("longest_repetition_" + std::to_string(std::min(longest, 9))).c_str());
  if (longest > 12) { c.fail("repeated", "the same hypothesis was proposed " + std::to_string(longest) + " times in a row\n" + text); return; }
  if (c.replay) printf("rounds %zu words %ld\n", o.hyps.size(), o.pres);
  c.ev(o.hyps.size() > 12 ? "rounds_over_12" : o.hyps.size() > 6 ? "rounds_7_to_12" : o.hyps.size() > 3 ? "rounds_4_to_6" : "rounds_1_to_3");
  if (o.pres > 3000) c.ev("words_over_3000"); if (o.pres > 10000) c.ev("words_over_10000");
  if (o.hyps.size() > 1) c.nontrivial(text); c.sample(text + dump(*H));
}
static int kind(Ctx &c) { return c.r.pick(std::vector<int>{EXACT, SIMPLIFIED, SIMPLIFIED, MEMO, RUNNER, WILD}); }
// small targets: these must end, quickly
static void small(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 3); g.maxClocks = 1; g.maxConst = c.r.in(1, 2); g.letters = c.r.chance(1, 3) ? 2 : 1; g.complete = c.r.chance(1, 2); g.constResets = c.r.chance(1, 4);
  Gen t = target(c.r, g); if (c.r.chance(1, 60)) { t.A.states.clear(); t.A.initialStates.clear(); }
  learnIt(c, t, kind(c), 60000, 40);
}
static void larger(Ctx &c) {
  GenCfg g; bool two = c.r.chance(1, 2);
  if (two) { g.maxStates = c.r.in(1, 2); g.maxClocks = 2; g.maxConst = 1; g.letters = c.r.in(1, 2); g.copies = g.constResets = c.r.chance(1, 3); }
  else { g.maxStates = 4; g.maxClocks = 1; g.maxConst = 3; g.letters = c.r.in(1, 2); g.complete = true; }
  learnIt(c, target(c.r, g), kind(c), 1L << 40, 1000);
}
static void shapes(Ctx &c) { int n = c.idx; learnIt(c, chainTarget(1 + n / 6 % 2, n % 6), n < 12 ? MEMO : kind(c), 60000, 60); }
int main(int ac, char **av) { return drive(ac, av, {{"small", small, 1500, 12000, 90, true}, {"larger", larger, 500, 4000, 12, false}, {"shapes", shapes, 24, 48, 150, true}}); }
