// C07: zone graphs against a region-graph oracle for emptiness, exact membership of witnesses, and a trace monitor
// that follows concrete runs of the automaton through the zone graph.
#include "drv.hh"
#include "ta2za.hh"
using namespace hn;
using learnta::ZoneAutomaton; using learnta::ZAState;

static std::vector<int> initsOf(const TimedAutomaton &A) {
  std::vector<int> r;
  for (auto &i : A.initialStates) r.push_back((int) (std::find(A.states.begin(), A.states.end(), i) - A.states.begin()));
  return r;
}

// the witness in ticks; false if it is not a multiple of the tick
static bool ticks(const TimedWord &w, long T, ref::Word &o) {
  o.w = w.getWord();
  for (double d : w.getDurations()) { double t = d * (double) T; if (t != std::floor(t) || t < 0) return false; o.d.push_back((long) t); }
  return true;
}
static std::string show(const TimedWord &w) { std::ostringstream o; o << w; return o.str(); }

// follows concrete runs: the set of (zone state, valuation) pairs reachable by the word
static bool follows(const ZoneAutomaton &Z, const ref::Word &w, long T, const TimedAutomaton &A) {
  std::set<std::pair<ZAState *, std::vector<long>>> cur;
  auto in = [&](ZAState *s, const std::vector<long> &v) {
    std::vector<double> p; for (long x : v) p.push_back((double) x / (double) T);
    // membership is evaluated here, on the matrix
    auto &M = s->zone.value; int n = (int) v.size() + 1;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      if (i == j) continue;
      double d = (i ? p[i - 1] : 0) - (j ? p[j - 1] : 0);
      if (d > M(i, j).first || (d == M(i, j).first && !M(i, j).second)) return false;
    }
    return true;
  };
  std::vector<long> zero(A.clockSize(), 0);
  for (auto &i : Z.initialStates) if (in(i.get(), zero)) cur.insert({i.get(), zero});
  for (size_t i = 0; i < w.w.size(); ++i) {
    std::set<std::pair<ZAState *, std::vector<long>>> nx;
    for (auto &[s, v0] : cur) {
      auto v = v0; for (auto &x : v) x += w.d[i];
      for (auto &[t, tgt] : s->next[(size_t) w.w[i]]) {
        bool ok = true;
        for (auto &g : t.guard) {
          ref::Op op = g.odr == Constraint::Order::lt ? ref::LT : g.odr == Constraint::Order::le ? ref::LE : g.odr == Constraint::Order::ge ? ref::GE : ref::GT;
          if (!ref::sat1(v[g.x], op, (long) g.c * T)) { ok = false; break; }
        }
        if (!ok) continue;
        auto u = v;
        for (auto &[x, y] : t.resetVars) u[x] = y.index() == 1 ? v[std::get<learnta::ClockVariables>(y)] : (long) (std::get<double>(y) * (double) T);
        auto l = tgt.lock();
        if (l && in(l.get(), u)) nx.insert({l.get(), u});
      }
    }
    cur.swap(nx);
  }
  for (auto &[s, v] : cur) if (s->isMatch) return true;
  return false;
}

static void check(Ctx &c, Gen &g, const char *kind) {
  long sc = scaleOf(g.A);
  if (!sc || sc > 4) { c.inconclusive("constants"); return; }
  auto cv = convert(g.A, sc);
  if (!cv.ok) { c.fail("harness", cv.why); return; }
  auto inits = initsOf(g.A);
  size_t regions = 0;
  int want = ref::nonEmpty(cv.ta, inits, c.thorough ? 400000 : 60000, &regions);
  if (want < 0) { c.inconclusive("region graph too large"); return; }
  std::string text = dump(g.A);
  c.nontrivial(text); c.sample(std::string(kind) + "\n" + text);
  c.ev("regions_explored", (long) regions); c.ev(want ? "nonempty" : "empty");
  const long T = 1L << 16;
  auto fine = convert(g.A, T);
  auto witness = [&](const std::optional<TimedWord> &w, const char *how) {
    if ((bool) w != (want == 1)) { c.fail("emptiness", std::string(how) + ": " + (w ? "a word " + show(*w) + " for an automaton that accepts nothing" : "no word although the automaton accepts one") + "\n" + text); return; }
    if (!w) return;
    ref::Word x;
    if (!ticks(*w, T, x)) { c.ev("witness_not_dyadic"); return; }
    c.ev("witnesses");
    if (!ref::acceptsN(fine.ta, inits, x)) c.fail("witness", std::string(how) + ": the word " + show(*w) + " is not accepted\n" + text);
  };
  std::vector<ref::Word> accepted;
  // accepted words found by random simulation
  for (int i = 0; i < 40 && want; ++i) {
    ref::Word w; int len = c.r.in(0, 5); w.d.push_back(T / 4 * c.r.in(0, 10));
    for (int j = 0; j < len; ++j) { w.w.push_back((char) c.r.pick(g.alphabet)); w.d.push_back(T / 4 * c.r.in(0, c.r.chance(1, 2) ? 4 : 10)); }
    if (ref::acceptsN(fine.ta, inits, w)) accepted.push_back(w);
  }
  for (bool quick : {true, false}) {
    ZoneAutomaton Z;
    learnta::ta2za(g.A, Z, quick);
    c.ev("zone_states", (long) Z.stateSize());
    auto w = Z.sample();
    witness(w, quick ? "early termination" : "full zone graph");
    auto m1 = Z.sampleWithMemo(), m2 = Z.sampleWithMemo();
    witness(m1, "memo"); 
    if (m1.has_value() != m2.has_value() || (m1 && !(m1->getWord() == m2->getWord() && m1->getDurations() == m2->getDurations()))) c.fail("memo", "two samples differ\n" + text);
    if (!quick) for (auto &x : accepted) { c.ev("runs_followed"); if (!follows(Z, x, T, g.A)) { c.fail("run-lost", "the zone graph does not follow the accepted word " + ref::show(x, (double) T) + "\n" + text); break; } }
    size_t before = Z.stateSize();
    Z.removeDeadStates();
    if (Z.stateSize() < before) c.ev("pruned");
    witness(Z.sample(), "after pruning");
    if (!quick) for (auto &x : accepted) { c.ev("runs_followed"); if (!follows(Z, x, T, g.A)) { c.fail("run-pruned", "the pruned zone graph does not follow the accepted word " + ref::show(x, (double) T) + "\n" + text); break; } }
    // no dead zone is left
    std::set<ZAState *> live; bool ch = true;
    for (auto &s : Z.states) if (s->isMatch) live.insert(s.get());
    while (ch) { ch = false; for (auto &s : Z.states) if (!live.count(s.get())) for (auto &e : s->next) for (auto &p : e) { auto l = p.second.lock(); if (l && live.count(l.get())) { live.insert(s.get()); ch = true; } } }
    if (live.size() != Z.stateSize()) c.fail("pruning", "a dead zone was kept\n" + text);
    for (auto &s : Z.initialStates) if (!live.count(s.get())) c.fail("pruning", "a dead initial zone was kept\n" + text);
    if (c.failed()) return;
  }
}

static void nondet(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 6); g.maxClocks = c.r.in(0, 3); g.maxConst = c.r.in(1, g.maxClocks > 2 ? 2 : 4); g.letters = c.r.in(1, 2);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3);
  Gen x = genNTA(c.r, g);
  check(c, x, "nondeterministic");
}
static void copies(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(2, 6); g.maxClocks = c.r.in(2, 3); g.maxConst = c.r.in(1, g.maxClocks > 2 ? 2 : 4); g.letters = c.r.in(1, 2);
  g.copies = true; g.constResets = c.r.chance(1, 3); g.copyHeavy = true;
  Gen x = genNTA(c.r, g);
  check(c, x, "copies");
}
static void det(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 5); g.maxClocks = c.r.in(0, 3); g.maxConst = c.r.in(1, g.maxClocks > 2 ? 2 : 4); g.letters = c.r.in(1, 2);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.acceptDen = 6;
  Gen x = genDTA(c.r, g);
  check(c, x, "deterministic");
}
// a clock that is never tested carries a value to one that is: only the second of two branches reaches the end
static void carried(Ctx &c) {
  Gen x; x.alphabet = {'a', 'b', 'c', 'd'};
  int n = 4; for (int i = 0; i < n; ++i) x.A.states.push_back(std::make_shared<TAState>(i == n - 1));
  auto add = [&](int s, char a, int t, std::vector<Constraint> g, TATransition::Resets r) { x.A.states[s]->next[a].push_back(TATransition{x.A.states[t].get(), r, g}); };
  int v1 = c.r.in(0, 3), v2 = c.r.in(0, 3), v = c.r.in(0, 3), perm = c.r.in(0, 5);
  int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  learnta::ClockVariables t = P[perm][0], m = P[perm][1], z = P[perm][2];  // tested, memory, zero test
  add(0, 'a', 1, {ConstraintMaker(t) >= v1, ConstraintMaker(t) <= v1}, {{t, 0.0}, {z, 0.0}});
  add(0, c.r.chance(1, 2) ? 'a' : 'b', 1, {ConstraintMaker(t) >= v2, ConstraintMaker(t) <= v2}, {{t, 0.0}, {z, 0.0}});
  add(1, 'c', 2, {ConstraintMaker(z) <= 0}, {{t, m}});
  add(2, 'd', 3, {ConstraintMaker(z) <= 0, ConstraintMaker(t) >= v, ConstraintMaker(t) <= v}, {});
  if (c.r.chance(1, 2)) add(c.r.in(0, 2), c.r.pick(x.alphabet), c.r.in(0, 2), {}, {{t, 0.0}});
  x.A.initialStates = {x.A.states[0]};
  x.A.maxConstraints = TimedAutomaton::makeMaxConstants(x.A.states);
  check(c, x, "carried");
}
// nothing but degenerate shapes
static void small(Ctx &c) {
  Gen x; x.alphabet = {'a'};
  int kind = c.r.in(0, 3);
  if (kind > 0) { x.A.states.push_back(std::make_shared<TAState>(c.r.chance(1, 2))); }
  if (kind > 1) x.A.initialStates.push_back(x.A.states[0]);
  if (kind > 2) { TATransition t; t.target = x.A.states[0].get(); x.A.states[0]->next['a'].push_back(t); }
  x.A.maxConstraints.assign(c.r.in(0, 2), c.r.in(0, 2));
  check(c, x, "degenerate");
}

int main(int ac, char **av) {
  return drive(ac, av, {{"nondeterministic", nondet, 6000, 60000}, {"copies", copies, 4000, 40000}, {"carried", carried, 1000, 3000}, {"deterministic", det, 3000, 30000}, {"degenerate", small, 60, 60}});
}
