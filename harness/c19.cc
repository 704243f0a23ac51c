// C19: degenerate and hostile but valid inputs through the whole library, judged by sanitizers, assertions and (where built so) valgrind.
#include <cstring>
#include <new>
#include "drv.hh"
#include "dbm.hh"
#include "learn.hh"
#include "equivalence.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "intersection.hh"
#include "ta2za.hh"
#include "zone_automaton.hh"
#include "symbolic_membership_oracle.hh"
#include "forward_regional_elementary_language.hh"
#include "counterexample_analyzer.hh"
using namespace hn;
using F = learnta::ForwardRegionalElementaryLanguage; using B = learnta::BackwardRegionalElementaryLanguage;
using learnta::Bounds; using learnta::TimedCondition; using learnta::Zone;

// any shape: no states, no clocks, no initial or accepting states, empty lists of transitions, many clocks, large constants
static Gen shape(Rng &r, bool det, int maxClocks) {
  Gen g; for (int i = r.in(0, 3); i > 0; --i) g.alphabet.push_back((Alphabet) "abc"[i - 1]);
  int n = r.chance(1, 8) ? 0 : r.in(1, 4), k = r.chance(1, 4) ? 0 : r.in(1, maxClocks), K = r.chance(1, 6) ? (r.chance(1, 2) ? 1 << 20 : 1 << 29) : r.in(1, 3);
  int accs = r.in(0, 2);
  for (int i = 0; i < n; ++i) g.A.states.push_back(std::make_shared<TAState>(accs == 1 ? true : accs == 2 && r.chance(1, 2)));
  g.A.maxConstraints.assign(k, 0);
  for (int i = 0; i < n; ++i) for (auto a : g.alphabet) {
    if (r.chance(1, 6)) { g.A.states[i]->next[a]; continue; }
    auto cut = [&](int x, int c, bool lo) { auto q = lo ? ConstraintMaker(x) <= c : ConstraintMaker(x) > c; g.A.maxConstraints[x] = std::max(g.A.maxConstraints[x], c); return q; };
    int m = r.in(0, det ? 2 : 3), x = k ? r.in(0, k - 1) : 0, c = r.in(0, K);
    for (int j = 0; j < m; ++j) {
      TATransition t; t.target = g.A.states[r.in(0, n - 1)].get();
      if (det) { if (m == 2) { if (!k) break; t.guard.push_back(cut(x, c, j == 0)); } else if (k && r.chance(1, 2)) t.guard.push_back(cut(x, c, r.chance(1, 2))); }
      if (k) for (int z = r.in(det ? 0 : 0, 2); z > 0; --z) t.guard.push_back(cut(r.in(0, k - 1), r.in(0, K), r.chance(1, 2)));
      for (int y = 0; y < k; ++y) { int w = r.in(0, 7); if (w < 2) t.resetVars.emplace_back(y, 0.0); else if (w == 2) t.resetVars.emplace_back(y, (double) r.in(0, std::min(K, 3)) + (r.chance(1, 4) ? 0.5 : 0)); else if (w == 3) t.resetVars.emplace_back(y, (learnta::ClockVariables) r.in(0, k - 1)); }
      g.A.states[i]->next[a].push_back(t);
    }
  }
  if (n) g.A.initialStates = {g.A.states[r.in(0, n - 1)]};
  return g;
}
static TimedAutomaton product(const TimedAutomaton &a, const TimedAutomaton &b) { TimedAutomaton p; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m; learnta::intersectionTA(a, b, p, m); return p; }
static size_t volume(const TimedAutomaton &A) { size_t s = 0; for (auto &q : A.states) for (auto &[a, t] : q->next) s += t.size(); return s; }

// a runner made in memory that holds something else already: what it says may not depend on it
static void runs(Ctx &c, Rng &r, const TimedAutomaton &A) {
  using R = learnta::TimedAutomatonRunner;
  struct Two { alignas(R) unsigned char m[2][sizeof(R)]; R *p[2] = {nullptr, nullptr}; ~Two() { for (auto *q : p) if (q) q->~R(); } } t;
#ifndef HN_VALGRIND // valgrind has to see the memory as never written
  std::memset(t.m[0], 0x55, sizeof t.m[0]); std::memset(t.m[1], 0xaa, sizeof t.m[1]);
#endif
  for (int i = 0; i < 2; ++i) t.p[i] = new (t.m[i]) R(A);
  size_t n = (size_t) r.in(1, 3);
  for (size_t q = 0; q < n; ++q) {
    auto w = randomWord(r, {'a', 'b', 'c', 'z'}, 5, 3); std::string seen[2];
    for (int i = 0; i < 2; ++i) {
      auto &x = *t.p[i]; x.pre(); for (size_t j = 0; j < w.getDurations().size(); ++j) { seen[i] += x.step(w.getDurations()[j]) ? '1' : '0'; if (j < w.wordSize()) seen[i] += x.step(w.getWord()[j]) ? '1' : '0'; } x.post();
    }
    if (seen[0] != seen[1]) c.fail("uninitialised", "two runners of one automaton, made in memory with different contents, answer " + seen[0] + " and " + seen[1] + " to " + show(w) + "\n" + dump(A));
  }
  for (auto *x : t.p) if (x->count() != n) c.fail("uninitialised", "a runner asked " + std::to_string(n) + " times counts " + std::to_string(x->count()) + "\n" + dump(A));
  c.ev("runs");
}

static void automata(Ctx &c) {
  Rng &r = c.r; std::vector<Gen> pool; std::string text;
  for (int i = 0; i < 3; ++i) { pool.push_back(shape(r, i != 2, 4)); text += dump(pool.back().A); }
  std::vector<Alphabet> al{'a', 'b', 'c', 'd'}; if (r.chance(1, 4)) al.clear();
  std::string log;
  int m = r.in(4, 14);
  for (int i = 0; i < m; ++i) {
    size_t k = r.next() % pool.size(); Gen &g = pool[k]; auto &A = g.A; int op = r.in(0, 15); c.ev("operations"); log += std::to_string(op) + "@" + std::to_string(k) + " ";
    int top = 0; for (int q : A.maxConstraints) top = std::max(top, q);
    bool small = (top <= 8 || A.clockSize() <= 1) && A.states.size() <= 24 && A.clockSize() <= 6 && volume(A) < 200, run = A.states.empty() || !A.initialStates.empty();
    switch (op) {
      case 0: A.simplify(); c.ev("simplified"); break;
      case 1: A.simplifyStrong(); c.ev("simplified"); break;
      case 2: if (small && A.clockSize() <= 3 && r.chance(1, 2)) { A.simplifyWithZones(); c.ev("simplified_with_zones"); } break;
      case 3: A.removeTriviallyUnreachableStates(); break;
      case 4: if (run) { A.removeTriviallyUnreachableStates(); A.removeTriviallyDeadStates(); } break;
      case 5: A.removeDeadLoop(); A.removeUselessTransitions(); break;
      case 6: A.simplifyTransitions(); A.removeUnusedClockVariables(); break;
      case 7: { if (volume(A) > 40) break; Gen n; n.A = A.complement(al); n.alphabet = al; pool.push_back(n); c.ev("complements"); break; }
      case 8: { auto &o = pool[r.next() % pool.size()]; if (A.states.size() * o.A.states.size() > 60 || A.clockSize() + o.A.clockSize() > 6) break; Gen n; n.A = product(A, o.A); n.alphabet = g.alphabet; pool.push_back(n); c.ev("products"); break; }
      case 9: { if (!small || A.clockSize() > 4) break; int big = 0; for (int q : A.maxConstraints) big = std::max(big, q); if (big > 8 && A.clockSize() > 2) break;
        learnta::ZoneAutomaton z; learnta::ta2za(A, z, r.chance(1, 2)); if (z.states.size() > 400) break; auto w = z.sample(); if (w) c.ev("words_sampled"); if (r.chance(1, 2)) { z.removeDeadStates(); z.sampleWithMemo(); } c.ev("zone_graphs"); break; }
      case 10: { if (!run || A.initialStates.size() > 1) break; runs(c, r, A); break; }
      case 11: { std::ostringstream o; o << A; c.ev("printed"); break; }
      case 12: { Gen n; n.A = copyOf(A); n.alphabet = g.alphabet; pool.push_back(n); break; }
      case 13: { if (pool.size() > 2) { pool.erase(pool.begin() + (long) k); c.ev("destroyed"); } break; }
      case 14: { (void) A.deterministic(); for (auto &s : A.states) (void) s->needSplitting(); break; }
      default: { auto &o = pool[r.next() % pool.size()]; if (!run || !A.deterministic() || !o.A.deterministic() || A.states.size() * o.A.states.size() > 16 || A.clockSize() + o.A.clockSize() > 3 || volume(A) + volume(o.A) > 24 || A.initialStates.size() > 1 || o.A.initialStates.size() > 1 || (o.A.initialStates.empty() && !o.A.states.empty())) break;
        int big = 0; for (int q : A.maxConstraints) big = std::max(big, q); for (int q : o.A.maxConstraints) big = std::max(big, q); if (big > 8) break;
        Gen t; t.A = A; t.alphabet = {'a', 'b', 'c'}; auto e = makeOracle(r, t, r.in(0, 3)); (void) e->findCounterExample(o.A); (void) e->findCounterExample(o.A); c.ev("equivalence_queries"); }
    }
    if (pool.size() > 6) pool.erase(pool.begin());
  }
  c.nontrivial(log + text); c.sample(log + "\n" + text);
}

// several learnings in one process, of degenerate targets too, alive at the same time and destroyed in any order
static void learnings(Ctx &c) {
  Rng &r = c.r; std::vector<TimedAutomaton> results; std::string text;
  int n = r.in(2, 4); std::vector<std::unique_ptr<learnta::Learner>> alive; std::vector<std::unique_ptr<Observed>> obs;
  for (int i = 0; i < n; ++i) {
    Gen g; int kind = r.in(0, 5);
    if (kind == 0) { g.A.states = {std::make_shared<TAState>(r.chance(1, 2))}; g.A.initialStates = g.A.states; g.A.maxConstraints.assign((size_t) r.in(0, 2), r.in(0, 2)); g.alphabet = {'a'}; if (r.chance(1, 2)) g.alphabet.push_back('b'); }   // nothing, or only the empty word with delays
    else if (kind == 1) { GenCfg q; q.maxStates = 3; q.maxClocks = 0; q.letters = r.in(1, 3); g = genDTA(r, q); }   // no clocks
    else if (kind == 2) { GenCfg q; q.maxStates = 2; q.maxClocks = 1; q.maxConst = 1; q.letters = 1; q.acceptNum = r.in(0, 1); q.acceptDen = 1; g = genDTA(r, q); g.alphabet.push_back('z'); }   // a letter without transitions
    else if (kind == 3) { g = chainTarget(1, r.in(1, 4)); if (r.chance(1, 2)) g.A.maxConstraints.assign(g.A.maxConstraints.size(), 3); }
    else { GenCfg q; q.maxStates = r.in(1, 3); q.maxClocks = 1; q.maxConst = r.in(1, 2); q.letters = r.in(1, 2); q.constResets = r.chance(1, 3); g = target(r, q); }
    text += dump(g.A);
    obs.push_back(std::make_unique<Observed>()); auto l = makeLearner(r, g, r.in(0, 4), *obs.back());
    results.push_back(l->run()); std::ostringstream o; l->printStatistics(o); o << results.back(); c.ev("learned");
    if (r.chance(1, 2)) alive.push_back(std::move(l));
    if (r.chance(1, 3)) { auto &x = results[r.next() % results.size()]; x.simplify(); x.simplifyStrong(); x.simplifyWithZones(); x.simplify(); }
    if (!alive.empty() && r.chance(1, 3)) { alive.erase(alive.begin() + (long) (r.next() % alive.size())); c.ev("learners_destroyed"); }
    if (r.chance(1, 3)) { auto w = randomWord(r, g.alphabet, 4, 2); for (auto &x : results) if (x.states.empty() || x.initialStates.size() == 1) { learnta::TimedAutomatonRunner R{x}; R.pre(); for (size_t j = 0; j < w.getDurations().size(); ++j) { R.step(w.getDurations()[j]); if (j < w.wordSize()) R.step(w.getWord()[j]); } R.post(); } }
  }
  c.nontrivial(text); c.sample(text);
}

// regions, conditions and zones of unusual sizes: the empty word, long words, no clocks, many clocks
static void algebra(Ctx &c) {
  Rng &r = c.r; std::string log;
  std::vector<Alphabet> al{'a', 'b'};
  auto word = [&](int len) { auto w = randomWord(r, al, len, 3); log += "[" + show(w) + "] "; return w; };
  int kind = r.in(0, 4);
  if (kind == 0) {
    auto f = F::fromTimedWord(word(r.chance(1, 4) ? 12 : 4)); auto ps = f.prefixes(); c.ev("prefixes", (long) ps.size());
    for (auto &p : ps) { (void) f.suffix(p); (void) p.sample(); (void) p.successor(); (void) p.successor('a'); (void) p.hash_value(); }
    F x; for (int i = r.in(0, 12); i > 0; --i) x = r.chance(1, 2) ? x.successor() : x.successor(r.pick(al)); (void) x.sample(); std::ostringstream o; o << x << f;
    auto b = B::fromTimedWord(word(4)); for (int i = r.in(0, 8); i > 0; --i) b = r.chance(1, 2) ? b.predecessor() : b.predecessor(r.pick(al)); (void) b.sample(); (void) (x + b).sample(); o << b;
  } else if (kind == 1) {
    auto a = F::fromTimedWord(word(4)), b = F::fromTimedWord(word(4)); auto A = a.getTimedCondition(), D = b.getTimedCondition(); auto S = A + D; (void) S.size(); 
    auto l = S.enumerate(); c.ev("enumerated", (long) l.size()); auto z = A ^ D; learnta::RenamingRelation q; for (int i = r.in(0, 3); i > 0; --i) q.emplace_back(r.next() % A.size(), r.next() % D.size()); z.addRenaming(q); z.canonize(); if (z.isSatisfiableNoCanonize()) (void) z.sample();
    auto e = A.extendZero(); (void) e.successor(std::deque<learnta::ClockVariables>{(learnta::ClockVariables) (e.size() - 1)}); std::ostringstream o; o << A << S << e;
  } else if (kind == 2) {
    int n = r.in(1, 9); std::vector<Zone> zs{Zone::zero(n), Zone::top((size_t) n)}; if (r.chance(1, 2)) { std::vector<double> v; for (int i = 0; i < n - 1; ++i) v.push_back(r.in(0, 12) / 4.0); zs.emplace_back(v, Bounds{r.in(1, 4), true}); }
    for (auto &y : zs) { for (int x = 0; x + 1 < n; ++x) y.tighten(-1, x, {0, true}); y.canonize(); }   // clocks are not negative
    auto &z = zs[r.next() % zs.size()]; log += "zone " + std::to_string(n) + " ";
    for (int i = r.in(2, 10); i > 0; --i) switch (r.in(0, 6)) {
      case 0: z.canonize(); if (z.isSatisfiableNoCanonize()) z.elapse(); break;
      case 1: if (n > 1) { int x = r.in(-1, n - 2), y = r.in(-1, n - 2); if (x != y) z.tighten(x, y, {r.in(-2, 3), r.chance(1, 2)}); } z.canonize(); break;
      case 2: z.canonize(); if (n > 1 && z.isSatisfiableNoCanonize()) z.reset(r.in(0, n - 2)); break;
      case 3: z.canonize(); (void) z.isSatisfiable(); break;
      case 4: { Zone y = z; y.M = Bounds{2, true}; y.canonize(); y.extrapolate(); break; }
      case 5: { z.canonize(); if (z.isSatisfiableNoCanonize()) (void) z.sample(); break; }
      default: { Zone y = zs[r.next() % zs.size()]; (void) z.includes(y); (void) (z == y); (void) (z && y).isSatisfiable(); (void) hash_value(z); }
    }
    c.ev("zones");
  } else if (kind == 3) {
    std::vector<std::vector<Constraint>> d; int n = r.in(0, 4), K = r.chance(1, 6) ? 1 << 29 : 3; for (int i = 0; i < n; ++i) { d.emplace_back(); for (int j = r.in(0, 3); j > 0; --j) { ConstraintMaker x((learnta::ClockVariables) r.in(0, r.chance(1, 5) ? 200 : 2)); int q = r.in(0, K); d.back().push_back(r.chance(1, 4) ? x < q : r.chance(1, 3) ? x <= q : r.chance(1, 2) ? x > q : x >= q); } }
    auto e = d.empty() ? d : learnta::negate(d); c.ev("guards", (long) e.size()); for (auto &g : d) { (void) learnta::satisfiable(g); (void) learnta::simplify(g); for (auto &h : d) { (void) learnta::isWeaker(g, h); (void) learnta::conjunction(g, h); if (learnta::satisfiable(g) && learnta::satisfiable(h)) (void) learnta::unionHull(g, h); } std::vector<double> v(201, 0.5); (void) learnta::lowerBoundDurationToSatisfy(g, v); std::ostringstream o; o << g; }
  } else {
    Gen g = shape(r, true, 2); if (g.A.states.empty() || g.A.maxConstraints.size() > 2) return; for (int &m : g.A.maxConstraints) if (m > 8) return; al = {'a', 'b', 'c'};
    learnta::SymbolicMembershipOracle o{std::make_unique<learnta::TimedAutomatonRunner>(g.A)}; std::vector<F> ps; std::vector<B> ss{B{}}; if (r.chance(1, 2)) ss.push_back(B::fromTimedWord(word(1)));
    for (int i = 0; i < 3; ++i) ps.push_back(F::fromTimedWord(word(2))); std::vector<std::vector<learnta::TimedConditionSet>> rows; for (auto &p : ps) { rows.emplace_back(); for (auto &s : ss) rows.back().push_back(o.query(p + s)); }
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { (void) learnta::findDeterministicEquivalentRenaming(ps[i], rows[i], ps[j], rows[j], ss); c.ev("judgements"); }
  }
  c.nontrivial(std::to_string(kind) + log + std::to_string(c.idx)); c.sample(log);
}
int main(int ac, char **av) {
#ifdef SMALL
  return drive(ac, av, {{"automata", automata, 400, 8000, 400, false}, {"learnings", learnings, 60, 1200, 400, false}, {"algebra", algebra, 300, 6000, 400, false}});
#else
  return drive(ac, av, {{"automata", automata, 12000, 300000, 20, false}, {"learnings", learnings, 400, 9000, 60, false}, {"algebra", algebra, 6000, 150000, 40, false}});
#endif
}
