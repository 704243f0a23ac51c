// C13: guard operations against an exhaustive evaluation on the half-integer grid (exact: no diagonal constraints).
#include "drv.hh"
#include "constraint.hh"
#include "conjunctive_constraint.hh"
#include "zone.hh"
using namespace hn;
using learnta::Bounds; using learnta::IntBounds;
using G = std::vector<Constraint>;
static bool sat1(const Constraint &q, double v) {
  switch (q.odr) {
    case Constraint::Order::lt: return v < q.c; case Constraint::Order::le: return v <= q.c;
    case Constraint::Order::ge: return v >= q.c; default: return v > q.c;
  }
}
static bool sat(const G &g, const std::vector<double> &v) { for (auto &q : g) if (!sat1(q, v[q.x])) return false; return true; }
static bool satD(const std::vector<G> &d, const std::vector<double> &v) { for (auto &g : d) if (sat(g, v)) return true; return false; }
static std::string show(const G &g) {
  std::ostringstream o; o << "{";
  for (size_t j = 0; j < g.size(); ++j) {
    auto &q = g[j];
    o << (j ? ", " : "") << "x" << (int) q.x << (q.odr == Constraint::Order::lt ? "<" : q.odr == Constraint::Order::le ? "<=" : q.odr == Constraint::Order::ge ? ">=" : ">") << q.c;
  }
  o << "}"; return o.str();
}
static std::string show(const std::vector<G> &d) { std::string s = "["; for (auto &g : d) s += show(g) + " "; return s + "]"; }
static std::string show(const std::vector<double> &v) { std::ostringstream o; o << "("; for (double x : v) o << x << " "; o << ")"; return o.str(); }
static int F = 1;  // all constants and grid points are multiplied by it
static void pickF(Ctx &c) { F = c.r.chance(3, 4) ? 1 : c.r.pick(std::vector<int>{10, 255, 1000, 65536, 99991}); }
static Constraint mk(int x, int op, int c) {
  c *= F;
  switch (op) { case 0: return ConstraintMaker(x) < c; case 1: return ConstraintMaker(x) <= c; case 2: return ConstraintMaker(x) >= c; default: return ConstraintMaker(x) > c; }
}
// every half-integer point of [0, K+1]^n times
static void grid(int n, int K, const std::function<bool(const std::vector<double> &)> &f) {
  std::vector<int> h(n, 0); std::vector<double> v(n);
  for (;;) {
    for (int i = 0; i < n; ++i) v[i] = h[i] / 2.0 * F;
    if (!f(v)) return;
    int i = 0; while (i < n && ++h[i] > 2 * K + 3) h[i++] = 0;
    if (i == n) return;
  }
}
static bool nonempty(const G &g, int n, int K) { bool r = false; grid(n, K, [&](auto &v) { r = sat(g, v); return !r; }); return r; }
struct Set { int n, K; };
static G randGuard(Ctx &c, int n, int K, int maxLen, bool allowEmpty) {
  G g; int l = c.r.in(allowEmpty ? 0 : 1, maxLen);
  for (int i = 0; i < l; ++i) g.push_back(mk(c.r.in(0, n - 1), c.r.in(0, 3), c.r.in(0, K)));
  return g;
}
// per clock at most one lower and one upper bound, satisfiable
static G randInterval(Ctx &c, int n, int K) {
  for (;;) {
    G g;
    for (int x = 0; x < n; ++x) {
      if (c.r.chance(1, 2)) g.push_back(mk(x, c.r.in(2, 3), c.r.in(0, K)));
      if (c.r.chance(1, 2)) g.push_back(mk(x, c.r.in(0, 1), c.r.in(0, K)));
    }
    if (nonempty(g, n, K)) return g;
  }
}

static void negateCase(Ctx &c) {
  pickF(c);
  int n = c.r.in(1, 3), K = c.r.in(1, n == 3 ? 3 : 5);
  std::vector<G> d; int k = c.r.in(c.r.chance(1, 40) ? 0 : 1, 4);
  for (int i = 0; i < k; ++i) d.push_back(randGuard(c, n, K, 3, c.r.chance(1, 12)));
  auto neg = learnta::negate(d);
  long pts = 0;
  grid(n, K, [&](auto &v) {
    ++pts;
    if (satD(d, v) == satD(neg, v))
      return c.fail("negate", "negate(" + show(d) + ") = " + show(neg) + " is wrong at " + show(v));
    return true;
  });
  auto twice = learnta::negate(neg);
  grid(n, K, [&](auto &v) {
      if (satD(d, v) != satD(twice, v)) return c.fail("negate-twice", "negate(negate(" + show(d) + ")) = " + show(twice) + " is wrong at " + show(v));
      return true;
    });
  c.ev("valuations", pts); c.ev("negated_disjuncts", k);
  if (d.size() > 1 || (d.size() == 1 && d[0].size() > 1)) c.nontrivial("n" + show(d));
  c.sample("negate" + show(d) + " -> " + show(neg));
}

static void singleCase(Ctx &c) {
  pickF(c);
  int n = c.r.in(1, 3), K = c.r.in(1, 4);
  G a = randGuard(c, n, K, 5, true), b = randGuard(c, n, K, 4, true);
  bool se = nonempty(a, n, K);
  if (learnta::satisfiable(a) != se) c.fail("satisfiable", "satisfiable" + show(a) + " is " + std::to_string(!se));
  auto s = learnta::simplify(a); auto cj = learnta::conjunction(a, b); auto na = learnta::negateAll(a);
  bool w1 = learnta::isWeaker(a, b);
  grid(n, K, [&](auto &v) {
    if (sat(a, v) != sat(s, v)) return c.fail("simplify", "simplify" + show(a) + " = " + show(s) + " is wrong at " + show(v));
    if (sat(cj, v) != (sat(a, v) && sat(b, v))) return c.fail("conjunction", show(a) + " and " + show(b) + " = " + show(cj) + " at " + show(v));
    if (w1 && sat(b, v) && !sat(a, v)) return c.fail("weaker", show(a) + " is reported weaker than " + show(b) + " but fails at " + show(v));
    for (size_t i = 0; i < a.size(); ++i) {
      if (sat1(a[i], v[a[i].x]) == sat1(na[i], v[a[i].x])) return c.fail("negateAll", show(G{a[i]}) + " negated to " + show(G{na[i]}));
      if (a[i].satisfy(v[a[i].x]) != sat1(a[i], v[a[i].x]) || a[i].satisfy(v) != sat1(a[i], v[a[i].x])) return c.fail("satisfy", show(G{a[i]}) + " at " + show(v));
      bool up = a[i].odr == Constraint::Order::lt || a[i].odr == Constraint::Order::le;
      auto o = a[i](v);
      auto want = sat1(a[i], v[a[i].x]) ? learnta::Order::EQ : up ? learnta::Order::GT : learnta::Order::LT;
      if (o != want) return c.fail("compare", show(G{a[i]}) + " compared at " + show(v));
    }
    return true;
  });
  if (na.size() != a.size()) c.fail("negateAll", "size");
  // simplify leaves at most one lower and one upper bound for each clock
  std::set<std::pair<int, bool>> seen;
  for (auto &q : s) if (!seen.insert({q.x, q.isUpperBound()}).second) { c.fail("simplify-redundant", "simplify" + show(a) + " = " + show(s)); break; }
  // weaker single constraints: exact for bounds of one direction on one clock
  for (auto &p : a) for (auto &q : b) {
    bool up1 = p.odr == Constraint::Order::lt || p.odr == Constraint::Order::le, up2 = q.odr == Constraint::Order::lt || q.odr == Constraint::Order::le;
    bool expect = p.x == q.x && up1 == up2;
    if (expect) for (int h = 0; h <= 2 * K + 3; ++h) if (sat1(q, h / 2.0 * F) && !sat1(p, h / 2.0 * F)) expect = false;
    // x<0 is unsatisfiable, and x>=0 always true: the syntactic order may differ there
    bool deg = (up2 && q.c == 0 && q.odr == Constraint::Order::lt) || (!up1 && p.c == 0) ;
    bool got = p.isWeaker(q);
    if (got && !expect) c.fail("weaker-single", show(G{p}) + " is reported weaker than " + show(G{q}));
    if (!got && expect && !deg) c.fail("weaker-single-missed", show(G{p}) + " is not reported weaker than " + show(G{q}));
  }
  // bounds
  auto [ub, lb] = learnta::toBounds(a);
  for (int x = 0; x < n; ++x) {
    for (int h = 0; h <= 2 * K + 3; ++h) {
      double v = h / 2.0 * F; bool want = true;
      for (auto &q : a) if ((int) q.x == x && !sat1(q, v)) want = false;
      bool got = true;
      if (x < (int) ub.size()) {
        got = (v < ub[x].first || (v == ub[x].first && ub[x].second)) && (v > lb[x].first || (v == lb[x].first && lb[x].second));
      }
      if (want != got) { c.fail("toBounds", show(a) + " clock " + std::to_string(x) + " at " + std::to_string(v)); break; }
    }
  }
  // clocks confined to a point or a unit open interval
  if (se) {
    auto sv = learnta::simpleVariables(a);
    for (int x = 0; x < n; ++x) {
      std::vector<int> hs;
      for (int h = 0; h <= 2 * K + 4; ++h) { bool ok = true; for (auto &q : a) if ((int) q.x == x && !sat1(q, h / 2.0 * F)) ok = false; if (ok) hs.push_back(h); }
      bool simple = hs.size() == 1 && (F == 1 || hs[0] % 2 == 0);
      bool got = std::find(sv.begin(), sv.end(), x) != sv.end();
      if (simple != got) c.fail("simpleVariables", show(a) + " clock " + std::to_string(x) + " reported " + std::to_string(got));
    }
  }
  auto wd = a; learnta::widen(wd);
  for (auto &q : wd) if (!q.isUpperBound()) c.fail("widen", show(a) + " -> " + show(wd));
  c.ev("guards", 2); if (w1) c.ev("weaker_pairs");
  if (a.size() > 1) c.nontrivial("s" + show(a) + show(b));
  c.sample(show(a) + " simplified " + show(s));
}

static void hullCase(Ctx &c) {
  pickF(c);
  int n = c.r.in(1, 3), K = c.r.in(1, 4);
  std::vector<G> gs; int k = c.r.in(1, 4);
  for (int i = 0; i < k; ++i) { auto g = randInterval(c, n, K); if (c.r.chance(1, 3) && !gs.empty()) { g = gs.back(); if (!g.empty()) g.pop_back(); } gs.push_back(g); }
  G h = learnta::unionHull(gs);
  auto str = [&] { return "unionHull" + show(gs) + " = " + show(h); };
  // the expected hull, clock by clock: values v such that some guard admits a value <= v and some admits one >= v
  grid(n, K, [&](auto &v) {
    bool want = true;
    for (int x = 0; x < n; ++x) {
      bool lo = false, hi = false;
      for (auto &g : gs)
        for (int hh = 0; hh <= 2 * K + 3; ++hh) {
          bool ok = true; for (auto &q : g) if ((int) q.x == x && !sat1(q, hh / 2.0 * F)) ok = false;
          if (ok) { if (hh / 2.0 * F <= v[x]) lo = true; if (hh / 2.0 * F >= v[x]) hi = true; }
        }
      want = want && lo && hi;
    }
    if (satD(gs, v) && !sat(h, v)) return c.fail("hull-cover", str() + " excludes " + show(v));
    if (sat(h, v) && !want) return c.fail("hull-tight", str() + " is not tight at " + show(v));
    return true;
  });
  if (gs.size() == 2) {
    G h2 = learnta::unionHull(gs[0], gs[1]);
    grid(n, K, [&](auto &v) { if (sat(h, v) != sat(h2, v)) return c.fail("hull-pair", str() + " but of a pair " + show(h2)); return true; });
  }
  c.ev("hulls");
  if (k > 1) c.nontrivial("h" + show(gs));
  c.sample(str());
}

static void delayCase(Ctx &c) {
  F = 1;
  int n = c.r.in(1, 3), K = c.r.in(1, 5);
  G g = randGuard(c, n, K, 4, true);
  for (int rep = 0; rep < 30; ++rep) {
    std::vector<double> v(n); std::vector<long> t(n);
    bool integral = c.r.chance(1, 3);
    for (int i = 0; i < n; ++i) { t[i] = integral ? 8 * c.r.in(0, K + 1) : c.r.in(0, 8 * K + 8); v[i] = t[i] / 8.0; }
    std::vector<ref::Constr> rg;
    for (auto &q : g) rg.push_back({(int) q.x, q.odr == Constraint::Order::lt ? ref::LT : q.odr == Constraint::Order::le ? ref::LE : q.odr == Constraint::Order::ge ? ref::GE : ref::GT, q.c * 8L});
    long d; bool cl; bool some = ref::earliest(rg, t, d, cl);
    // independent brute force: the first sixteenth that satisfies the guard
    long first = -1;
    for (long s = 0; s <= 16 * (K + 2) && first < 0; ++s) { std::vector<double> w = v; for (auto &x : w) x += s / 16.0; if (sat(g, w)) first = s; }
    if (some != (first >= 0)) { c.fail("oracle", "the two oracles disagree"); return; }
    Bounds b = learnta::lowerBoundDurationToSatisfy(g, v);
    c.ev("earliest_delays"); if (!some) c.ev("never_satisfied");
    auto str = [&] { std::ostringstream o; o << "guard " << show(g) << " at " << show(v) << ": reported (" << b.first << "," << b.second << ")"; return o.str(); };
    if (!some) { if (std::isfinite(b.first)) { c.fail("delay-unsat", str() + " but it is never satisfied"); return; } }
    else {
      if (!std::isfinite(b.first) || -b.first != d / 8.0) { c.fail("delay-value", str() + ", expected a delay of " + std::to_string(d / 8.0)); return; }
      if (b.second != cl) { c.fail("delay-closed", str() + ", closedness expected " + std::to_string(cl)); return; }
      if (d > 0) c.nontrivial("d" + show(g) + show(v));
    }
  }
  c.sample("earliest delay of " + show(g));
}

int main(int ac, char **av) {
  return drive(ac, av, {{"negate", negateCase, 4000, 60000}, {"single", singleCase, 3000, 40000}, {"hull", hullCase, 2500, 40000}, {"delay", delayCase, 3000, 60000}});
}
