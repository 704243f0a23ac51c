// C05: complements and completed automata against an exact region product, and exhaustive totality on a grid.
#include "drv.hh"
#include "timed_automaton_runner.hh"
using namespace hn;

static std::string alpha(const std::vector<Alphabet> &al) { return std::string(al.begin(), al.end()); }

// number of successors (target and updates) at each point of the half-integer grid that separates all guards
static bool total(Ctx &c, const TimedAutomaton &A, const std::vector<Alphabet> &al, const std::string &text) {
  int k = (int) A.clockSize(), K = 0;
  for (auto &s : A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) for (auto &g : t.guard) K = std::max(K, (int) g.c);
  std::vector<int> h(k, 0);
  std::set<const TAState *> own; for (auto &s : A.states) own.insert(s.get());
  for (;;) {
    for (auto &s : A.states) for (Alphabet a : al) {
      std::set<std::pair<const TAState *, std::map<int, std::string>>> succ; auto it = s->next.find(a);
      if (it != s->next.end()) for (auto &t : it->second) {
        if (!own.count(t.target)) return c.fail("target", "a transition leaves the automaton\n" + text);
        bool ok = true;
        for (auto &g : t.guard) {
          if ((int) g.x >= k) return c.fail("clock", "a guard uses an undeclared clock\n" + text);
          int v = h[g.x], q = 2 * g.c;
          ok = ok && (g.odr == Constraint::Order::lt ? v < q : g.odr == Constraint::Order::le ? v <= q : g.odr == Constraint::Order::ge ? v >= q : v > q);
        }
        if (!ok) continue;
        std::map<int, std::string> up;
        for (auto &[x, v] : t.resetVars) up[x] = v.index() == 1 ? "x" + std::to_string((int) std::get<learnta::ClockVariables>(v)) : std::to_string(std::get<double>(v));
        succ.insert({t.target, up});
      }
      int n = (int) succ.size();
      if (n != 1) {
        std::string p; for (int x : h) p += " " + std::to_string(x / 2.0);
        return c.fail("total", std::to_string(n) + " successors of q" + std::to_string(std::find(A.states.begin(), A.states.end(), s) - A.states.begin()) + " on " + a + " at clocks" + p + "\n" + text + "completed:\n" + dump(A));
      }
      c.ev("valuations");
    }
    int i = 0; while (i < k && ++h[i] > 2 * K + 1) h[i++] = 0;
    if (i == k) return true;
  }
}

static Gen gen(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = c.r.in(0, 3); g.maxConst = g.maxClocks > 2 ? c.r.in(1, 2) : c.r.in(1, 4); g.letters = c.r.in(1, 3);
  g.copies = c.r.chance(1, 3); g.constResets = c.r.chance(1, 3); g.complete = c.r.chance(1, 6); g.acceptNum = c.r.in(0, 3); g.acceptDen = 3;
  Gen x = genDTA(c.r, g);
  // several overlapping-looking but disjoint guards: split a guard at a constant, twice
  if (x.A.clockSize() && c.r.chance(1, 2)) for (auto &s : x.A.states) for (auto &[a, ts] : s->next) {
    std::vector<TATransition> out;
    for (auto &t : ts) {
      int y = c.r.in(0, (int) x.A.clockSize() - 1), K = c.r.in(0, g.maxConst);
      if (!c.r.chance(1, 3)) { out.push_back(t); continue; }
      auto u = t; t.guard.push_back(ConstraintMaker(y) <= K); u.guard.push_back(ConstraintMaker(y) > K);
      u.target = x.A.states[c.r.next() % x.A.states.size()].get();
      if (!c.r.chance(1, 4)) out.push_back(t);
      if (!c.r.chance(1, 4)) out.push_back(u);
    }
    ts = out;
  }
  // redundant and unsatisfiable guards
  if (x.A.clockSize() && c.r.chance(1, 4)) for (auto &s : x.A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
    if (c.r.chance(1, 4) && !t.guard.empty()) t.guard.push_back(c.r.pick(t.guard));
    if (c.r.chance(1, 6)) t.guard.push_back(ConstraintMaker(0) >= 0);
    if (c.r.chance(1, 12)) { t.guard.push_back(ConstraintMaker(0) > 1); t.guard.push_back(ConstraintMaker(0) < 1); }
  }
  if (c.r.chance(1, 60)) { x.A.states.clear(); x.A.initialStates.clear(); }
  for (size_t i = x.alphabet.size(); i > 1; --i) std::swap(x.alphabet[i - 1], x.alphabet[c.r.next() % i]);
  if (c.r.chance(1, 5)) x.alphabet.push_back('z');                              // an event the automaton never reads
  if (x.alphabet.size() > 1 && c.r.chance(1, 8)) x.alphabet.pop_back();         // and one left out of the alphabet
  return x;
}

static void body(Ctx &c) {
  Gen g = gen(c);
  const std::string text = dump(g.A) + "alphabet " + alpha(g.alphabet) + "\n";
  c.nontrivial(text); c.sample(text);
  auto differ = [&](const TimedAutomaton &X, const TimedAutomaton &Y, bool compl_, const char *key) {
    long s = lcm(scaleOf(X), scaleOf(Y));
    auto a = convert(X, s), b = convert(Y, s);
    if (!a.ok || !b.ok) return c.fail(key, "not well formed: " + a.why + b.why + "\n" + text + dump(Y));
    std::vector<int> al(g.alphabet.begin(), g.alphabet.end());
    ref::Product P(a.ta, b.ta, al, c.thorough ? 500000 : 60000); P.complementary = compl_;
    auto d = P.run();
    c.ev("configurations", (long) d.configs);
    if (d.st == ref::Diff::UNKNOWN) { c.ev("undecided"); return true; }
    c.ev("decided");
    if (d.st == ref::Diff::DIFFERENT) return c.fail(key, "the word " + ref::show(d.w, (double) d.scale * s) + " tells them apart\n" + text + "result:\n" + dump(Y));
    return true;
  };
  const size_t n = g.A.stateSize(); const auto before = dump(g.A);
  TimedAutomaton C = g.A.complement(g.alphabet);
  if (dump(g.A) != before) c.fail("original", "the automaton was changed by complementing it\n" + text + "now\n" + dump(g.A));
  if (C.stateSize() != n + 1) c.fail("states", "the complement has " + std::to_string(C.stateSize()) + " states\n" + text);
  if (!differ(g.A, C, true, "complement")) return;
  c.ev("complements");
  if (!total(c, C, g.alphabet, text)) return;
  // the complement is an automaton of its own: changing it leaves the original alone, and again
  TimedAutomaton D = C.complement(g.alphabet);
  if (!differ(g.A, D, false, "double-complement")) return;
  for (auto &s : C.states) { s->isMatch = !s->isMatch; for (auto &[a, ts] : s->next) for (auto &t : ts) t.guard.clear(); }
  if (dump(g.A) != before) c.fail("original", "the automaton shares states with its complement\n" + text);
  // completion in place
  TimedAutomaton E; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; g.A.deepCopy(E, m);
  E.makeComplete(g.alphabet);
  c.ev("completions");
  if (!differ(g.A, E, false, "complete")) return;
  if (!total(c, E, g.alphabet, text)) return;
  if (c.r.chance(1, 3)) { E.makeComplete(g.alphabet); c.ev("completed_twice"); if (!differ(g.A, E, false, "complete-twice")) return; total(c, E, g.alphabet, text); }
  // and step by step on random words: exactly one of the two accepts after every step
  learnta::TimedAutomatonRunner r1{g.A}, r2{D}, r3{E};
  TimedAutomaton F = g.A.complement(g.alphabet); learnta::TimedAutomatonRunner r4{F};
  for (int w = 0; w < 6 && !c.failed(); ++w) {
    r1.pre(); r2.pre(); r3.pre(); r4.pre(); std::string tr;
    for (int i = 0; i < 8; ++i) {
      bool a, b, e, f;
      if (c.r.chance(1, 2)) { double d = c.r.in(0, 8) / 4.0; tr += " +" + std::to_string(d); a = r1.step(d); b = r2.step(d); e = r3.step(d); f = r4.step(d); }
      else { Alphabet l = c.r.pick(g.alphabet); tr += std::string(" ") + l; a = r1.step(l); b = r2.step(l); e = r3.step(l); f = r4.step(l); }
      c.ev("steps");
      if (a != b || a != e || a == f) { c.fail("run", "after" + tr + " the automaton says " + std::to_string(a) + ", its double complement " + std::to_string(b) + ", its completion " + std::to_string(e) + ", its complement " + std::to_string(f) + "\n" + text); break; }
    }
    r1.post(); r2.post(); r3.post(); r4.post();
  }
}

int main(int ac, char **av) { return drive(ac, av, {{"complement", body, 4000, 40000}}); }
