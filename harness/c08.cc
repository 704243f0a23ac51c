// C08: every simplification, alone and in sequences, against the language before it (exact over regions for
// deterministic automata, word by word otherwise).
#include "drv.hh"
using namespace hn;

struct Op { const char *name; std::function<void(TimedAutomaton &)> fn; };
static const std::vector<Op> OPS = {
  {"simplifyTransitions", [](TimedAutomaton &A) { A.simplifyTransitions(); }},
  {"removeTriviallyUnreachableStates", [](TimedAutomaton &A) { A.removeTriviallyUnreachableStates(); }},
  {"removeTriviallyDeadStates", [](TimedAutomaton &A) { A.removeTriviallyDeadStates(); }},
  {"removeDeadLoop", [](TimedAutomaton &A) { A.removeDeadLoop(); }},
  {"removeUselessTransitions", [](TimedAutomaton &A) { A.removeUselessTransitions(); }},
  {"removeUnusedClockVariables", [](TimedAutomaton &A) { A.removeUnusedClockVariables(); }},
  {"simplify", [](TimedAutomaton &A) { A.simplify(); }},
  {"simplifyStrong", [](TimedAutomaton &A) { A.simplifyStrong(); }},
  {"simplifyWithZones", [](TimedAutomaton &A) { A.simplifyWithZones(); }},
};
static std::vector<int> initsOf(const TimedAutomaton &A) {
  std::vector<int> r;
  for (auto &i : A.initialStates) r.push_back((int) (std::find(A.states.begin(), A.states.end(), i) - A.states.begin()));
  return r;
}
static bool wellFormed(Ctx &c, const TimedAutomaton &A, const std::string &ctx) {
  auto v = convert(A, scaleOf(A));
  if (!v.ok) return c.fail("well-formed", v.why + "\n" + ctx + dump(A));
  for (auto &i : A.initialStates) if (std::find(A.states.begin(), A.states.end(), i) == A.states.end()) return c.fail("well-formed", "an initial state is not a state\n" + ctx + dump(A));
  for (auto &s : A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
    for (auto &g : t.guard) if (A.maxConstraints[g.x] < g.c) return c.fail("well-formed", "a guard exceeds the declared maximal constant\n" + ctx + dump(A));
    std::set<int> seen; for (auto &[x, v2] : t.resetVars) if (!seen.insert(x).second) return c.fail("well-formed", "a clock is updated twice\n" + ctx + dump(A));
  }
  return true;
}
// adds what simplification is there to remove
static void clutter(Ctx &c, Gen &g) {
  auto &A = g.A; int k = (int) A.clockSize();
  int extra = c.r.in(0, 3);
  for (int i = 0; i < extra; ++i) A.states.push_back(std::make_shared<TAState>(c.r.chance(1, 3)));
  std::vector<int> order; int n = (int) A.states.size();
  for (int i = n - extra; i < n; ++i) for (Alphabet a : g.alphabet) if (c.r.chance(1, 2)) {   // unreachable, dead, or looping
    TATransition t; t.target = A.states[c.r.chance(1, 2) ? i : c.r.in(0, n - 1)].get();
    if (k && c.r.chance(1, 3)) { int x = c.r.in(0, k - 1), K = c.r.in(0, A.maxConstraints[x]); t.guard.push_back(ConstraintMaker(x) <= K); auto u = t; u.guard[0] = ConstraintMaker(x) > K; A.states[i]->next[a].push_back(u); }
    A.states[i]->next[a].push_back(t);
  }
  for (int i = 0; i < n; ++i) for (auto &[a, ts] : A.states[i]->next) {
    if (extra && c.r.chance(1, 4) && !ts.empty()) c.r.pick(ts);
    if (extra && c.r.chance(1, 4) && !ts.empty()) ts[c.r.next() % ts.size()].target = A.states[c.r.in(n - extra, n - 1)].get();
    if (k && !ts.empty() && c.r.chance(1, 4)) {   // a redundant transition: same effect, stronger guard
      TATransition t = c.r.pick(ts); int x = c.r.in(0, k - 1), K = c.r.in(0, A.maxConstraints[x]);
      t.guard.push_back(c.r.chance(1, 2) ? ConstraintMaker(x) <= K : ConstraintMaker(x) > K);
      ts.insert(ts.begin() + (long) (c.r.next() % (ts.size() + 1)), t);
    }
    if (k && !ts.empty() && c.r.chance(1, 6)) {   // one that is never enabled
      TATransition t = c.r.pick(ts); int x = c.r.in(0, k - 1), K = c.r.in(0, A.maxConstraints[x]);
      t.guard.push_back(ConstraintMaker(x) > K); t.guard.push_back(ConstraintMaker(x) <= K); t.target = A.states[c.r.in(0, n - 1)].get();
      ts.push_back(t);
    }
  }
  if (k && c.r.chance(1, 3)) {   // a clock that is written but never read, in the middle
    int at = c.r.in(0, k);
    A.maxConstraints.insert(A.maxConstraints.begin() + at, c.r.in(0, 3));
    for (auto &s : A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
      for (auto &q : t.guard) if ((int) q.x >= at) q.x++;
      for (auto &[x, v] : t.resetVars) { if ((int) x >= at) x++; if (v.index() == 1 && (int) std::get<learnta::ClockVariables>(v) >= at) std::get<learnta::ClockVariables>(v)++; }
      if (c.r.chance(1, 2)) { if (c.r.chance(1, 2)) t.resetVars.emplace_back(at, 0.0); else { int y = c.r.in(0, k); if (y != at) t.resetVars.insert(t.resetVars.begin(), {(learnta::ClockVariables) at, (learnta::ClockVariables) y}); } }
    }
  }
}

static void exact(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 5); g.maxClocks = c.r.in(0, 3); g.maxConst = c.r.in(1, g.maxClocks > 2 ? 2 : 3); g.letters = c.r.in(1, 2);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.complete = c.r.chance(1, 3); g.acceptNum = 1; g.acceptDen = c.r.in(2, 5);
  Gen x = genDTA(c.r, g);
  if (c.r.chance(3, 4)) clutter(c, x);
  // per-clock maximal constants, as the library computes them
  if (c.r.chance(1, 3)) { int n = (int) x.A.clockSize(); auto m = TimedAutomaton::makeMaxConstants(x.A.states); m.resize(n); x.A.maxConstraints = m; }
  if (c.r.chance(1, 80)) { x.A.states.clear(); x.A.initialStates.clear(); }
  TimedAutomaton A0; std::unordered_map<TAState *, std::shared_ptr<TAState>> m0; x.A.deepCopy(A0, m0);
  std::string text = dump(x.A), steps;
  c.nontrivial(text); c.sample(text);
  bool det = isDeterministic(x.A);
  int n = c.r.chance(1, 2) ? 1 : c.r.in(2, 5);
  TimedAutomaton A; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; x.A.deepCopy(A, m);
  for (int i = 0; i < n; ++i) {
    const Op &op = c.r.pick(OPS);
    size_t before = A.stateSize(), clocks = A.clockSize();
    op.fn(A); steps += std::string(" ") + op.name; c.ev(op.name);
    if (A.stateSize() < before) c.ev("states_removed", (long) (before - A.stateSize()));
    if (A.clockSize() < clocks) c.ev("clocks_removed", (long) (clocks - A.clockSize()));
    if (A.stateSize() > before) c.fail("states", "more states after" + steps + "\n" + text);
    if (!wellFormed(c, A, "after" + steps + " of\n" + text + "the result is\n")) return;
    if (det && !isDeterministic(A)) { c.fail("deterministic", "no longer deterministic after" + steps + "\n" + text + "the result is\n" + dump(A)); return; }
    auto r = compare(A0, A, x.alphabet, c.thorough ? 400000 : 60000);
    c.ev("configurations", (long) r.d.configs);
    if (r.d.st == ref::Diff::UNKNOWN) { c.ev("undecided"); continue; }
    c.ev("languages_compared");
    if (r.d.st == ref::Diff::DIFFERENT) { c.fail("language", "after" + steps + " the word " + r.word + " is treated differently\n" + text + "the result is\n" + dump(A)); return; }
  }
}

// merging transitions whose guards are neighbouring intervals of one clock
static void neighbours(Ctx &c) {
  Gen x; x.alphabet = {'a'}; if (c.r.chance(1, 3)) x.alphabet.push_back('b');
  int n = c.r.in(1, 3), K = c.r.in(1, 4), k = c.r.in(1, 2);
  for (int i = 0; i < n; ++i) x.A.states.push_back(std::make_shared<TAState>(c.r.chance(1, 2)));
  for (int i = 0; i < n; ++i) for (Alphabet a : x.alphabet) {
    int y = c.r.in(0, k - 1);
    // cut points in half units; the pieces are intervals with ends on integers
    std::vector<std::pair<int, int>> pieces; int lo = 0;
    while (lo <= 2 * K + 1) { int hi = std::min(2 * K + 1, lo + c.r.in(0, 3)); pieces.emplace_back(lo, hi); lo = hi + 1; }
    int target = c.r.in(0, n - 1); bool reset = c.r.chance(1, 2);
    std::vector<TATransition> ts;
    for (auto &[l, h] : pieces) {
      if (c.r.chance(1, 6)) continue;
      if (c.r.chance(1, 3)) target = c.r.in(0, n - 1);
      if (c.r.chance(1, 3)) reset = !reset;
      TATransition t; t.target = x.A.states[target].get(); if (reset) t.resetVars.emplace_back(y, 0.0);
      t.guard.push_back(l % 2 ? ConstraintMaker(y) > l / 2 : ConstraintMaker(y) >= l / 2);
      if (l == 0) t.guard.clear();
      if (h < 2 * K + 1) t.guard.push_back(h % 2 ? ConstraintMaker(y) < h / 2 + 1 : ConstraintMaker(y) <= h / 2);
      ts.push_back(t);
    }
    for (size_t j = ts.size(); j > 1; --j) std::swap(ts[j - 1], ts[c.r.next() % j]);
    x.A.states[i]->next[a] = ts;
  }
  x.A.initialStates = {x.A.states[0]}; x.A.maxConstraints.assign(k, K);
  TimedAutomaton A; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; x.A.deepCopy(A, m);
  std::string text = dump(A); c.nontrivial(text); c.sample(text);
  size_t before = 0, after = 0;
  for (auto &s : A.states) for (auto &[a, ts] : s->next) before += ts.size();
  A.mergeAdjacentTransitions();
  for (auto &s : A.states) for (auto &[a, ts] : s->next) after += ts.size();
  c.ev("mergeAdjacentTransitions"); c.ev("merged", (long) before - (long) after);
  if (!wellFormed(c, A, "after merging\n" + text)) return;
  if (!isDeterministic(A)) { c.fail("deterministic", "no longer deterministic after merging neighbours\n" + text + "the result is\n" + dump(A)); return; }
  auto r = compare(x.A, A, x.alphabet, 60000);
  if (r.d.st != ref::Diff::UNKNOWN) c.ev("languages_compared");
  if (r.d.st == ref::Diff::DIFFERENT) c.fail("language", "after merging neighbours the word " + r.word + " is treated differently\n" + text + "the result is\n" + dump(A));
}

static void words(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 6); g.maxClocks = c.r.in(0, 3); g.maxConst = c.r.in(1, g.maxClocks > 2 ? 2 : 3); g.letters = c.r.in(1, 2);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.copyHeavy = g.copies && c.r.chance(1, 2);
  Gen x = genNTA(c.r, g);
  if (c.r.chance(1, 2)) clutter(c, x);
  TimedAutomaton A; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; x.A.deepCopy(A, m);
  std::string text = dump(A), steps; c.nontrivial(text);
  int n = c.r.in(1, 3);
  for (int i = 0; i < n; ++i) { const Op &op = c.r.pick(OPS); op.fn(A); steps += std::string(" ") + op.name; c.ev(op.name); }
  if (!wellFormed(c, A, "after" + steps + " of\n" + text + "the result is\n")) return;
  const long T = 4;
  auto p = convert(x.A, T), q = convert(A, T); auto ip = initsOf(x.A), iq = initsOf(A);
  for (int i = 0; i < 120; ++i) {
    ref::Word w; int len = c.r.in(0, 6); w.d.push_back(c.r.in(0, 10));
    for (int j = 0; j < len; ++j) { w.w.push_back((char) c.r.pick(x.alphabet)); w.d.push_back(c.r.chance(1, 2) ? T * c.r.in(0, 2) : c.r.in(0, 10)); }
    bool u = ref::acceptsN(p.ta, ip, w), v = ref::acceptsN(q.ta, iq, w);
    c.ev("words"); if (u) c.ev("words_accepted");
    if (u != v) { c.fail("word", "after" + steps + " the word " + ref::show(w, (double) T) + " is " + (v ? "accepted" : "rejected") + "\n" + text + "the result is\n" + dump(A)); return; }
  }
}

int main(int ac, char **av) { return drive(ac, av, {{"exact", exact, 6000, 60000}, {"neighbours", neighbours, 2000, 20000}, {"words", words, 4000, 40000}}); }
