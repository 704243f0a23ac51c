// C06: products against an independently built product, compared exactly over regions, and word by word for
// nondeterministic factors.
#include "drv.hh"
#include "intersection.hh"
using namespace hn;

// reference product of two converted automata (deterministic or not), clocks side by side
static ref::TA product(const ref::TA &a, const ref::TA &b) {
  ref::TA p; p.nclk = a.nclk + b.nclk; int nb = (int) b.acc.size();
  p.next.resize(a.acc.size() * b.acc.size());
  for (size_t i = 0; i < a.acc.size(); ++i) for (int j = 0; j < nb; ++j) {
    p.acc.push_back(a.acc[i] && b.acc[j]);
    for (auto &[l, ts] : a.next[i]) {
      auto it = b.next[j].find(l); if (it == b.next[j].end() || l == 0) continue;
      for (auto &t : ts) for (auto &u : it->second) {
        ref::Trans v = t; v.tgt = t.tgt * nb + u.tgt;
        for (auto g : u.g) { g.x += a.nclk; v.g.push_back(g); }
        for (auto r : u.r) { r.x += a.nclk; r.y += a.nclk; v.r.push_back(r); }
        p.next[i * nb + j][l].push_back(v);
      }
    }
  }
  p.init = a.init < 0 || b.init < 0 ? -1 : a.init * nb + b.init;
  return p;
}
static std::vector<int> initsOf(const TimedAutomaton &A) {
  std::vector<int> r;
  for (auto &i : A.initialStates) r.push_back((int) (std::find(A.states.begin(), A.states.end(), i) - A.states.begin()));
  return r;
}
static bool sameLanguage(Ctx &c, const TimedAutomaton &A, const TimedAutomaton &B, const std::vector<Alphabet> &al) {
  return compare(A, B, al, 60000).d.st != ref::Diff::DIFFERENT;
}
static Gen det(Ctx &c, int clocks, int letters, int K) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = clocks; g.maxConst = K; g.letters = letters;
  g.copies = c.r.chance(1, 2); g.constResets = c.r.chance(1, 2); g.acceptNum = 2; g.acceptDen = 3;
  Gen x = genDTA(c.r, g);
  for (auto &s : x.A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
    for (auto &[y, v] : t.resetVars) if (v.index() == 0 && c.r.chance(1, 6)) v = c.r.in(0, 2 * K) / 2.0;
    if (x.A.clockSize() > 1 && c.r.chance(1, 6)) { t.resetVars.clear(); t.resetVars.emplace_back(0, (learnta::ClockVariables) 1); t.resetVars.emplace_back(1, (learnta::ClockVariables) 0); }
  }
  if (c.r.chance(1, 40)) { x.A.states.clear(); x.A.initialStates.clear(); }
  return x;
}

static void exact(Ctx &c) {
  int total = c.r.in(0, 3), ka = c.r.in(0, total), K = total > 2 ? c.r.in(1, 2) : c.r.in(1, 3);
  Gen a = det(c, ka, c.r.in(1, 3), K), b = det(c, total - ka, c.r.in(1, 3), K);
  bool same = c.r.chance(1, 6);
  const TimedAutomaton &A = a.A, &B = same ? a.A : b.A;
  std::vector<Alphabet> al = {'a', 'b', 'c'};
  std::string text = dump(A) + "times" + (same ? " itself\n" : "\n" + dump(B));
  c.nontrivial(text); c.sample(text);
  TimedAutomaton A0, B0; std::unordered_map<TAState *, std::shared_ptr<TAState>> m1, m2;
  A.deepCopy(A0, m1); B.deepCopy(B0, m2);
  TimedAutomaton P; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> to;
  intersectionTA(A, B, P, to);
  c.ev("products"); if (same) c.ev("products_with_itself"); if (A.clockSize() != B.clockSize()) c.ev("different_clock_counts");
  auto against = [&](const char *key) {
    long s = lcm(scaleOf(A), scaleOf(B));
    auto p = convert(P, s), x = convert(A, s), y = convert(B, s);
    if (!p.ok) return c.fail(key, "not well formed: " + p.why + "\n" + text + dump(P));
    ref::TA want = product(x.ta, y.ta);
    std::vector<int> ial(al.begin(), al.end());
    auto d = ref::Product(p.ta, want, ial, c.thorough ? 400000 : 60000).run();
    c.ev("configurations", (long) d.configs);
    if (d.st == ref::Diff::UNKNOWN) { c.ev("undecided"); return true; }
    c.ev("decided");
    if (d.st == ref::Diff::DIFFERENT) return c.fail(key, "the word " + ref::show(d.w, (double) d.scale * s) + " is treated differently\n" + text + "product:\n" + dump(P));
    return true;
  };
  if (!against("product")) return;
  if (P.initialStates.size() > 1) c.fail("initial", "several initial states\n" + text);
  if (!sameLanguage(c, A, A0, al) || !sameLanguage(c, B, B0, al)) { c.fail("factors", "a factor accepts different words after the product was built\n" + text); return; }
  if (A.stateSize() != A0.stateSize() || B.stateSize() != B0.stateSize()) c.fail("factors", "the size of a factor changed\n" + text);
  // the product is an automaton of its own
  for (auto &s : P.states) for (auto &[l, ts] : s->next) for (auto &t : ts) { t.guard.clear(); t.resetVars.clear(); }
  if (!sameLanguage(c, A, A0, al) || !sameLanguage(c, B, B0, al)) { c.fail("sharing", "the product shares transitions with a factor\n" + text); return; }
  // new marks are carried over
  if (!same && !A.states.empty() && !B.states.empty() && c.r.chance(1, 2)) {
    TimedAutomaton Q; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> to2;
    intersectionTA(A, B, Q, to2);
    for (auto &s : A.states) if (c.r.chance(1, 2)) s->isMatch = !s->isMatch;
    for (auto &s : B.states) if (c.r.chance(1, 2)) s->isMatch = !s->isMatch;
    a.A.initialStates = {c.r.pick(A.states)}; b.A.initialStates = {c.r.pick(B.states)};
    updateInitAccepting(A, B, Q, to2);
    c.ev("updates_of_marks");
    P = Q; text += "with new marks\n" + dump(A) + dump(B);
    against("marks");
  }
  // a product of three
  if (!same && total <= 2 && c.r.chance(1, 3)) {
    Gen d = det(c, 1, 2, K);
    TimedAutomaton Q, R; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> t1, t2;
    intersectionTA(A, B, Q, t1); intersectionTA(Q, d.A, R, t2);
    long s = lcm(lcm(scaleOf(A), scaleOf(B)), scaleOf(d.A));
    auto p = convert(R, s), x = convert(A, s), y = convert(B, s), z = convert(d.A, s);
    if (!p.ok) { c.fail("three", p.why + "\n" + text); return; }
    ref::TA want = product(product(x.ta, y.ta), z.ta);
    std::vector<int> ial(al.begin(), al.end());
    auto r = ref::Product(p.ta, want, ial, c.thorough ? 400000 : 60000).run();
    c.ev("triple_products");
    if (r.st == ref::Diff::DIFFERENT) c.fail("three", "the product of three treats " + ref::show(r.w, (double) r.scale * s) + " differently\n" + text + "and\n" + dump(d.A));
  }
}

static void words(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = c.r.in(0, 3); g.maxConst = c.r.in(1, 3); g.letters = c.r.in(1, 2); g.copies = c.r.chance(1, 2); g.constResets = c.r.chance(1, 2);
  Gen a = genNTA(c.r, g); g.maxClocks = c.r.in(0, 3); Gen b = genNTA(c.r, g);
  for (auto *x : {&a, &b}) for (auto &s : x->A.states) if (c.r.chance(1, 2)) s->isMatch = true;
  bool same = c.r.chance(1, 6); TimedAutomaton &B = same ? a.A : b.A;
  std::string text = dump(a.A) + "times" + (same ? " itself\n" : "\n" + dump(B));
  c.nontrivial(text);
  TimedAutomaton P; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> to;
  intersectionTA(a.A, B, P, to);
  const long T = 8;
  auto p = convert(P, T), x = convert(a.A, T), y = convert(B, T);
  if (!p.ok) { c.fail("product", p.why + "\n" + text); return; }
  auto ip = initsOf(P), ix = initsOf(a.A), iy = initsOf(B);
  for (int i = 0; i < 120; ++i) {
    ref::Word w; int len = c.r.in(0, 5); w.d.push_back(T / 4 * c.r.in(0, 8));
    for (int j = 0; j < len; ++j) { w.w.push_back((char) c.r.pick(a.alphabet)); w.d.push_back(c.r.chance(1, 2) ? T * c.r.in(0, 2) : T / 4 * c.r.in(0, 8)); }
    bool u = ref::acceptsN(x.ta, ix, w), v = ref::acceptsN(y.ta, iy, w), q = ref::acceptsN(p.ta, ip, w);
    c.ev("words"); if (u && v) c.ev("common_words");
    if (q != (u && v)) { c.fail("word", "the word " + ref::show(w, (double) T) + ": factors say " + std::to_string(u) + std::to_string(v) + ", the product says " + std::to_string(q) + "\n" + text); return; }
  }
}

int main(int ac, char **av) { return drive(ac, av, {{"exact", exact, 3000, 30000}, {"words", words, 3000, 30000}}); }
