// C14: timed conditions against an independent exact matrix over (T_{0,N}, ..., T_{N,N}); histories of operations.
#include "drv.hh"
#include "dbm.hh"
#include "timed_condition.hh"
#include "timed_condition_set.hh"
#include "elementary_language.hh"
using namespace hn;
using dbm::D;
using learnta::Bounds; using learnta::TimedCondition; using learnta::ElementaryLanguage; using learnta::TimedConditionSet; using learnta::ClockVariables;
static const long U = 16;

static D base(int n) {  // durations are not negative
  D d(n + 1);
  for (int i = 1; i <= n; ++i) d.tighten(i < n ? i + 1 : 0, i, {0, true});
  d.close(); return d;
}
// the bounds of a condition, read through its public interface
static D read(const TimedCondition &c, bool &exact) {
  int n = (int) c.size(); D d(n + 1);
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
    Bounds u = c.getUpperBound(i, j), l = c.getLowerBound(i, j); int e = j == n - 1 ? 0 : j + 2;
    auto put = [&](int a, int b, Bounds x) {
      if (std::isnan(x.first)) exact = false;
      if (x.first > 1e12) return;
      double t = x.first * U; if (t != std::floor(t)) exact = false;
      d.tighten(a, b, {x.first < -1e12 ? -1000000000L : (long) std::floor(t), x.second});
    };
    put(i + 1, e, u); put(e, i + 1, l);
  }
  return d;
}
static std::string name(const D &d) { return d.show(U); }
struct P { TimedCondition c; D d; };

struct S {
  Ctx &c; std::string log; int K;
  bool same(const TimedCondition &t, const D &want0, const char *op, bool durations = true) {
    bool exact = true; D got = read(t, exact), want = want0; c.ev("conditions_compared");
    if ((int) t.size() + 1 != want.n) return c.fail(op, std::string(op) + ": wrong number of durations\n" + log);
    if (durations) got = got.meet(base(want.n - 1));
    got.close(); want.close();
    bool ge = got.emptyClosed(), we = want.emptyClosed();
    if (!exact || ge != we || (!ge && !got.equal(want)))
      return c.fail(op, std::string(op) + (exact ? ": the sets differ" : ": a bound that is no multiple of the units used") + "\nexpected " + name(want) + "\ngot      " + name(got) + "\n" + log);
    return true;
  }
  std::vector<double> acc(const std::vector<long> &p) { std::vector<double> a; for (size_t i = 1; i < p.size(); ++i) a.push_back((double) p[i] / U); return a; }
  std::vector<long> randVec(int n, bool fine) {  // accumulated from the end; index 0 is the constant
    std::vector<long> p(n + 1, 0); long s = 0;
    for (int i = n; i >= 1; --i) { s += c.r.chance(1, 4) ? 0 : c.r.chance(1, 2) ? U * c.r.in(0, K) : fine ? c.r.in(0, (int) (K * U)) : U / 2 * c.r.in(0, 2 * K); p[i] = s; }
    return p;
  }
  // simple condition around a point: every sum of consecutive durations in its point or unit interval
  D simpleD(const std::vector<long> &p) {
    int n = (int) p.size() - 1; D d(n + 1);
    for (int i = 1; i <= n; ++i) for (int e = 0; e <= n; ++e) if (e == 0 || e > i) {
      long x = p[i] - p[e], f = x / U * U;
      if (x == f) { d.tighten(i, e, {f, true}); d.tighten(e, i, {-f, true}); }
      else { d.tighten(i, e, {f + U, false}); d.tighten(e, i, {-f, false}); }
    }
    d.close(); return d;
  }
  P gen(int n, bool exactPoints) {
    auto p = randVec(n, true);
    P r{TimedCondition{acc(p)}, simpleD(p)};
    if (exactPoints) { r.c = TimedCondition::makeExact(acc(p)); r.d = D(n + 1); for (int i = 1; i <= n; ++i) { r.d.tighten(i, 0, {p[i], true}); r.d.tighten(0, i, {-p[i], true}); } r.d.close(); }
    log += "start " + name(r.d) + "\n";
    if (!same(r.c, r.d, exactPoints ? "makeExact" : "constructor")) return r;
    if (!exactPoints && !r.c.isSimple()) c.fail("isSimple", "a condition made from a point is not simple\n" + log);
    int k = c.r.chance(1, 4) ? 0 : c.r.in(1, 3);
    for (int i = 0; i < k && !c.failed(); ++i) {
      auto q = randVec(n, true); TimedCondition o{acc(q)}; D od = simpleD(q);
      if (c.r.chance(1, 2)) r.c = r.c.convexHull(o); else r.c.convexHullAssign(o);
      for (size_t z = 0; z < r.d.m.size(); ++z) if (dbm::less(r.d.m[z], od.m[z])) r.d.m[z] = od.m[z];
      c.ev("hulls"); log += "hull with " + name(od) + "\n";
      if (!same(r.c, r.d, "hull")) return r;
    }
    return r;
  }
  bool restrict(P &x) {
    int n = (int) x.c.size(); int i = c.r.in(0, n - 1), j = c.r.in(i, n - 1), e = j == n - 1 ? 0 : j + 2;
    bool up = c.r.chance(1, 2), le = c.r.chance(1, 2); int k = c.r.in(0, K + 2);
    TimedCondition y = x.c; D d = x.d;
    if (up) { y.restrictUpperBound(i, j, {(double) k, le}); d.tighten(i + 1, e, {k * U, le}); }
    else { y.restrictLowerBound(i, j, {(double) -k, le}); d.tighten(e, i + 1, {-k * U, le}); }
    d.close(); std::ostringstream o; o << "restrict T_" << i << "," << j << (up ? (le ? "<=" : "<") : (le ? ">=" : ">")) << k << "\n"; log += o.str();
    c.ev("restrictions");
    bool e1 = d.emptyClosed(); TimedCondition z = y;
    if ((bool) z == e1 || y.isSatisfiableNoCanonize() == e1) return c.fail("satisfiable", "satisfiability is wrong after a restriction\n" + log);
    if (e1) { c.ev("empty"); log += "(empty, undone)\n"; return true; }
    x = {y, d};
    return same(x.c, x.d, "restrict");
  }
  bool bounded(const D &d) { for (int i = 1; i < d.n; ++i) if (d.at(i, 0).c >= dbm::INF) return false; return true; }
  bool integral(const D &d) { for (auto &b : d.m) if (b.c < dbm::INF && b.c % U) return false; return true; }
  bool simpleRef(const D &d) {
    for (int i = 1; i < d.n; ++i) for (int e = 0; e < d.n; ++e) if (e == 0 || e > i) {
      auto u = d.at(i, e), l = d.at(e, i); if (u.c >= dbm::INF || l.c >= dbm::INF) return false;
      bool pt = u.le && l.le && u.c == -l.c, un = !u.le && !l.le && u.c == -l.c + U;
      if (!pt && !un) return false;
    }
    return true;
  }
  TimedWord word(const std::vector<long> &p) {  // letters are all 'a'
    int n = (int) p.size() - 1; std::vector<double> du; for (int i = 1; i <= n; ++i) du.push_back((double) (p[i] - (i < n ? p[i + 1] : 0)) / U);
    return TimedWord{std::string(n - 1, 'a'), du};
  }
  // all points of the grid with the given step, or random ones
  void points(const D &d, const std::function<bool(const std::vector<long> &)> &f) {
    int n = d.n - 1; long mx = 0; for (int i = 1; i <= n; ++i) mx = std::max(mx, d.at(i, 0).c >= dbm::INF ? (K + 2) * U : d.at(i, 0).c + U);
    if (n <= 3 && mx / (U / 4) < 40) {
      long st = n == 1 ? U / 2 : U / 4; std::vector<long> p(n + 1, 0);
      std::function<bool(int)> rec = [&](int i) -> bool {
        if (i == 0) return f(p);
        for (long x = i == n ? 0 : p[i + 1]; x <= mx; x += st) { p[i] = x; if (!rec(i - 1)) return false; }
        return true;
      };
      rec(n); return;
    }
    for (int k = 0; k < 60; ++k) { std::vector<long> p; if (c.r.chance(1, 4) || !d.randomPoint(c.r, p, 0, mx)) p = randVec(n, true); if (!f(p)) return; }
  }
  bool membership(const P &x) {
    ElementaryLanguage L{std::string(x.c.size() - 1, 'a'), x.c}; bool res = true;
    int budget = 400;
    points(x.d, [&](const std::vector<long> &p) {
      if (--budget < 0) return false;
      c.ev("memberships"); bool in = x.d.has(p); if (in) c.ev("members");
      if (L.contains(word(p)) != in) { res = c.fail("contains", "membership of " + dbm::showPoint(p, U) + " should be " + std::to_string(in) + "\n" + log); return false; }
      return true;
    });
    if (res && x.c.size() > 1 && L.contains(TimedWord{std::string(x.c.size() - 1, 'b'), word(std::vector<long>(x.c.size() + 1, 0)).getDurations()})) res = c.fail("contains", "a word with other events is contained");
    return res;
  }
  bool enumerate(const P &x) {
    if (!bounded(x.d) || !integral(x.d)) return true;
    auto v = x.c.enumerate(); std::vector<D> ds; c.ev("enumerations"); c.ev("simple_pieces", (long) v.size());
    for (auto &t : v) {
      bool exact = true; D d = read(t, exact); d = d.meet(base(d.n - 1)); d.close();
      if (!t.isSimple() || d.emptyClosed() || !simpleRef(d)) return c.fail("enumerate", "a piece is empty or not simple: " + name(d) + "\n" + log);
      if (!x.d.includes(d)) return c.fail("enumerate", "a piece leaves the condition: " + name(d) + "\n" + log);
      ds.push_back(d);
    }
    if (ds.size() <= 150) for (size_t i = 0; i < ds.size(); ++i) for (size_t j = i + 1; j < ds.size(); ++j)
      if (!ds[i].meet(ds[j]).empty()) return c.fail("enumerate", "two pieces overlap: " + name(ds[i]) + " / " + name(ds[j]) + "\n" + log);
    bool res = true; int budget = 600;
    points(x.d, [&](const std::vector<long> &p) {
      if (!x.d.has(p)) return true;
      if (--budget < 0) return false;
      int k = 0; for (auto &d : ds) k += d.has(p); c.ev("cover_points");
      if (k != 1) { res = c.fail("enumerate", "the point " + dbm::showPoint(p, U) + " lies in " + std::to_string(k) + " pieces\n" + log); return false; }
      return true;
    });
    if (!res) return false;
    // putting some of the pieces together again keeps their union
    if (v.size() <= 40) {
      std::list<ElementaryLanguage> ls; std::vector<D> chosen;
      for (size_t i = 0; i < v.size(); ++i) if (c.r.chance(3, 4)) { ls.emplace_back(std::string(x.c.size() - 1, 'a'), v[i]); chosen.push_back(ds[i]); }
      if (c.r.chance(1, 2)) ls.reverse();
      size_t many = ls.size();
      auto red = TimedConditionSet::reduce(ls); c.ev("reductions"); if (red.size() < many) c.ev("reductions_merging");
      if (red.empty() != chosen.empty() || red.size() > many) return c.fail("reduce", "wrong size\n" + log);
      std::vector<D> rd; for (auto &t : red.getConditions()) { bool ex = true; D d = read(t, ex).meet(base((int) t.size())); d.close(); rd.push_back(d); }
      points(x.d, [&](const std::vector<long> &p) {
        bool a = false, b = false; for (auto &d : chosen) a |= d.has(p); for (auto &d : rd) b |= d.has(p); c.ev("reduce_points");
        if (a != b) { res = c.fail("reduce", "merging simple conditions " + std::string(a ? "lost" : "added") + " " + dbm::showPoint(p, U) + "\n" + log); return false; }
        return true;
      });
    }
    return res;
  }
  bool sample(const P &x) {
    if (!bounded(x.d)) return true;
    ElementaryLanguage L{std::string(x.c.size() - 1, 'a'), x.c}; auto w = L.sample(); auto a = w.getAccumulatedDurations(); c.ev("samples");
    auto val = [&](int i) { return i == 0 ? 0.0 : a[i - 1] * U; };
    for (int i = 0; i < x.d.n; ++i) for (int j = 0; j < x.d.n; ++j) if (i != j && x.d.at(i, j).c < dbm::INF) {
      double df = val(i) - val(j); if (!(df < x.d.at(i, j).c || (df == x.d.at(i, j).c && x.d.at(i, j).le))) { std::ostringstream o; o << w; return c.fail("sample", "the sampled word " + o.str() + " is outside\n" + name(x.d) + "\n" + log); }
    }
    return true;
  }
  bool pairs(const P &x, const P &y) {  // same size
    c.ev("pairs");
    D m = x.d.meet(y.d); m.close(); bool em = m.emptyClosed(); TimedCondition t = x.c && y.c;
    std::string l2 = "other " + name(y.d) + "\n"; log += l2;
    if (!same(t, m, "conjunction")) return false;
    if ((bool) t == em) return c.fail("conjunction", "satisfiability of a conjunction is wrong\n" + log);
    bool inc = x.d.includes(y.d), eq = x.d.equal(y.d); if (inc) c.ev("included"); if (eq) c.ev("equal");
    if (x.c.includes(y.c) != inc) return c.fail("includes", std::string("inclusion should be ") + (inc ? "true" : "false") + "\n" + name(x.d) + "\n" + log);
    if ((x.c == y.c) != eq || (x.c != y.c) == eq) return c.fail("equal", "equality is wrong\n" + log);
    if (eq && hash_value(x.c) != hash_value(y.c)) c.ev("hash_differs");
    return true;
  }
};

static void histories(Ctx &c) {
  S s{c, "", c.r.in(1, 3)};
  int n = c.r.in(1, 5);
  P x = s.gen(n, c.r.chance(1, 12)); if (c.failed()) return;
  int steps = c.r.in(3, c.thorough ? 14 : 9), done = 0;
  for (int k = 0; k < steps; ++k) {
    n = (int) x.c.size(); P keep = x;
    switch (c.r.in(0, 11)) {
      case 0: case 1: if (!s.restrict(x)) return; break;
      case 2: {  // concatenation
        if (n > 5 || !s.bounded(x.d)) break;
        P y = s.gen(c.r.in(1, 3), false); if (c.failed()) return; int M = (int) y.c.size(), N = n;
        if (c.r.chance(1, 6)) { y.c = TimedCondition::empty(); y.d = D(2); y.d.tighten(1, 0, {0, true}); y.d.tighten(0, 1, {0, true}); M = 1; }
        D d(N + M + 1);
        auto ma = [&](int a) { return a == 0 ? N + 1 : a; }; auto mb = [&](int b) { return b == 0 ? 0 : N + b; };
        for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) if (a != b) d.tighten(ma(a), ma(b), x.d.at(a, b));
        for (int a = 0; a <= M; ++a) for (int b = 0; b <= M; ++b) if (a != b) d.tighten(mb(a), mb(b), y.d.at(a, b));
        d.close(); D r(N + M); auto keepIdx = [&](int i) { return i <= N ? i : i + 1; };
        for (int a = 0; a < N + M; ++a) for (int b = 0; b < N + M; ++b) r.at(a, b) = d.at(keepIdx(a), keepIdx(b));
        s.log += "concatenate with " + name(y.d) + "\n"; c.ev("concatenations");
        P z{x.c + y.c, r}; if (!s.same(z.c, z.d, "concatenation")) return;
        x = z; break;
      }
      case 3: {  // a new last duration of length zero, and back
        TimedCondition t = x.c.extendN(); D d(n + 2);
        for (int a = 0; a <= n; ++a) for (int b = 0; b <= n; ++b) if (a != b) d.tighten(a, b, x.d.at(a, b));
        d.tighten(n + 1, 0, {0, true}); d.tighten(0, n + 1, {0, true}); d.close();
        s.log += "extendN\n"; c.ev("extensions"); if (!s.same(t, d, "extendN")) return;
        if (t.hasPrefix()) { c.fail("hasPrefix", "a last duration of length zero cannot be shortened\n" + s.log); return; }
        if (!s.same(t.removeN(), x.d, "removeN")) return;
        if (n < 6) x = {t, d};
        break;
      }
      case 4: {
        TimedCondition t = x.c.extendZero(); D d(n + 2); auto sh = [&](int a) { return a == 0 ? 0 : a + 1; };
        for (int a = 0; a <= n; ++a) for (int b = 0; b <= n; ++b) if (a != b) d.tighten(sh(a), sh(b), x.d.at(a, b));
        d.tighten(1, 2, {0, true}); d.tighten(2, 1, {0, true}); d.close();
        s.log += "extendZero\n"; c.ev("extensions"); if (!s.same(t, d, "extendZero")) return;
        if (t.hasSuffix()) { c.fail("hasSuffix", "a first duration of length zero cannot be shortened\n" + s.log); return; }
        if (n < 6) x = {t, d};
        break;
      }
      case 5: {  // prolonging without limit
        TimedCondition t = x.c; t.removeUpperBoundAssign(); D d = x.d; for (int i = 1; i <= n; ++i) d.at(i, 0) = {dbm::INF, false};
        // the exact image, from an independent projection: every point shifted by a delay
        d.close(); s.log += "prolong\n"; c.ev("prolongations"); if (!s.same(t, d, "removeUpperBound")) return;
        if (c.r.chance(1, 4)) { x = {t, d}; }
        break;
      }
      case 6: if (!s.membership(x)) return; break;
      case 7: if (n <= 4 && !s.enumerate(x)) return; break;
      case 8: if (!s.sample(x)) return; break;
      case 9: {
        P y = x; if (c.r.chance(1, 2)) { y = s.gen(n, false); if (c.failed()) return; } else if (c.r.chance(2, 3)) { if (!s.restrict(y)) return; }
        if (!s.pairs(x, y)) return; if (!s.pairs(y, x)) return;
        break;
      }
      case 10: {  // guard over the accumulated durations
        if (!s.integral(x.d)) break;
        auto g = x.c.toGuard(); c.ev("guards");
        D box(n + 1); for (int i = 1; i <= n; ++i) { box.at(i, 0) = x.d.at(i, 0); box.at(0, i) = x.d.at(0, i); }
        D gd(n + 1); for (auto &q : g) { if (q.x >= n) { c.fail("toGuard", "unknown clock\n" + s.log); return; }
          using O = learnta::Constraint::Order; bool le = q.odr == O::le || q.odr == O::ge;
          if (q.odr == O::le || q.odr == O::lt) gd.tighten(q.x + 1, 0, {(long) q.c * U, le}); else gd.tighten(0, q.x + 1, {-(long) q.c * U, le}); }
        for (int i = 1; i <= n; ++i) { gd.tighten(0, i, {0, true}); box.tighten(0, i, {0, true}); }
        for (size_t z = 0; z < gd.m.size(); ++z) if (!dbm::same(gd.m[z], box.m[z])) { c.fail("toGuard", "expected " + name(box) + "\ngot " + name(gd) + "\n" + s.log); return; }
        break;
      }
      case 11: {  // predicates
        auto u = x.d.at(1, n >= 2 ? 2 : 0), l = x.d.at(n >= 2 ? 2 : 0, 1), u2 = x.d.at(n, 0), l2 = x.d.at(0, n);
        bool z1 = u.c == 0 && u.le && l.c == 0, z2 = u2.c == 0 && u2.le && l2.c == 0; c.ev("predicates");
        if (x.c.hasSuffix() == z1) { c.fail("hasSuffix", s.log); return; }
        if (x.c.hasPrefix() == z2) { c.fail("hasPrefix", s.log); return; }
        if (s.integral(x.d) && x.c.isSimple() != s.simpleRef(x.d)) { c.fail("isSimple", name(x.d) + "\n" + s.log); return; }
        for (int i = 0; i < n; ++i) { auto a = x.d.at(i + 1, 0), b = x.d.at(0, i + 1); bool pt = a.le && b.le && a.c == -b.c; if (x.c.isPoint(i) != pt) { c.fail("isPoint", s.log); return; } }
        if (s.simpleRef(x.d)) { bool any = false; for (int i = 0; i < n; ++i) any |= x.d.at(i + 1, 0).le; if (x.c.hasEqualityN() != any) { c.fail("hasEqualityN", s.log); return; } }
        break;
      }
    }
    if (c.failed()) return;
    // what was there before is unchanged
    if (!s.same(keep.c, keep.d, "operand changed")) return;
    ++done;
  }
  if (!s.membership(x)) return;
  if (x.c.size() <= 4 && !s.enumerate(x)) return;
  c.sample(s.log); if (done >= 3) c.nontrivial(s.log);
}

// updates of the accumulated durations seen as clocks, and juxtapositions
static void updates(Ctx &c) {
  S s{c, "", c.r.in(1, 3)};
  int n = c.r.in(1, 4); P x = s.gen(n, false); if (c.failed()) return;
  if (c.r.chance(1, 2)) { if (!s.restrict(x)) return; }
  for (int rep = 0; rep < 3; ++rep) {
    bool halves = c.r.chance(1, 4);
    // (a) constants only, same clocks
    {
      learnta::TATransition::Resets rs; D d = x.d; std::string t; std::vector<std::pair<int, double>> asg;
      for (int i = 0; i < n; ++i) if (c.r.chance(1, 2)) { double v = halves ? c.r.in(0, 6) / 2.0 : c.r.in(0, 3); rs.emplace_back(i, v); asg.emplace_back(i + 1, v); t += "x" + std::to_string(i) + ":=" + std::to_string(v) + " "; }
      for (size_t i = rs.size(); i > 1; --i) { size_t j = c.r.next() % i; std::swap(rs[i - 1], rs[j]); }
      auto img = [&](D e) { for (auto &[i, v] : asg) { for (int j = 0; j < e.n; ++j) if (j != i) { e.at(i, j) = {dbm::INF, false}; e.at(j, i) = {dbm::INF, false}; } }
        for (auto &[i, v] : asg) { e.tighten(i, 0, {(long) (v * U), true}); e.tighten(0, i, {-(long) (v * U), true}); } e.close(); return e; };
      D want = img(d); std::string l0 = s.log; s.log += "applyResets " + t + "\n"; c.ev("updates");
      TimedCondition got = x.c.applyResets(rs);
      if (!halves) { if (!s.same(got, want, "applyResets", false)) return; }
      else {
        bool ex = true; D g = read(got, ex); g.close(); c.ev("updates_fractional");
        if (!g.includes(want)) { c.fail("applyResets", "an update lost values\n" + name(want) + "\n" + name(g) + "\n" + s.log); return; }
        for (auto &[i, v] : asg) { long f = (long) std::floor(v) * U; bool in = v * U == f; auto u = g.at(i, 0), l = g.at(0, i);
          if (in ? !(u.c == f && u.le && l.c == -f && l.le) : !(u.c == f + U && !u.le && l.c == -f && !l.le)) { c.fail("applyResets", "an updated value is not in its unit interval\n" + name(g) + "\n" + s.log); return; } }
      }
      s.log = l0;
    }
    // (b) constants and copies into another number of clocks
    {
      int m = c.r.in(1, 4); bool fractions = c.r.chance(1, 3); std::vector<std::pair<int, long>> consts; learnta::TATransition::Resets rs; std::string t; D d(n + 1 + m);  // old 1..n, new n+1..n+m
      for (int a = 0; a <= n; ++a) for (int b = 0; b <= n; ++b) if (a != b) d.tighten(a, b, x.d.at(a, b));
      for (int i = 0; i < m; ++i) {
        int nw = n + 1 + i;
        if (i >= n || c.r.chance(1, 2)) {
          if (c.r.chance(1, 2)) { int y = c.r.in(0, n - 1); rs.emplace_back(i, (ClockVariables) y); d.tighten(nw, y + 1, {0, true}); d.tighten(y + 1, nw, {0, true}); t += "x" + std::to_string(i) + ":=x" + std::to_string(y) + " "; }
          else { long v = U * c.r.in(0, 3) + (fractions && c.r.chance(2, 3) ? U / 4 * c.r.in(0, 3) : 0); consts.emplace_back(i, v); rs.emplace_back(i, (double) v / U); d.tighten(nw, 0, {v, true}); d.tighten(0, nw, {-v, true}); t += "x" + std::to_string(i) + ":=" + std::to_string((double) v / U) + " "; }
        } else { d.tighten(nw, i + 1, {0, true}); d.tighten(i + 1, nw, {0, true}); }
      }
      for (size_t i = rs.size(); i > 1; --i) { size_t j = c.r.next() % i; std::swap(rs[i - 1], rs[j]); }
      if (c.r.chance(1, 4)) rs.emplace_back((ClockVariables) (m + 1), 0.0);  // clocks beyond the target are ignored
      d.close(); D want(m + 1); auto ix = [&](int i) { return i == 0 ? 0 : n + i; };
      for (int a = 0; a <= m; ++a) for (int b = 0; b <= m; ++b) want.at(a, b) = d.at(ix(a), ix(b));
      std::string l0 = s.log; s.log += "applyResets to " + std::to_string(m) + " clocks " + t + "\n"; c.ev("updates_resizing");
      // the public interface shows bounds of T_{i,j} with i <= j only, which are all differences
      bool whole = true; for (auto &[i, v] : consts) whole = whole && v % U == 0;
      if (whole) { if (!s.same(x.c.applyResets(rs, (size_t) m), want, "applyResets/size", false)) return; }
      else {   // fractions stand for their unit interval; differences that are whole are kept
        bool ex = true; D g = read(x.c.applyResets(rs, (size_t) m), ex); g.close(); c.ev("updates_fractional");
        if (!g.includes(want)) { c.fail("applyResets/size", "an update lost values\n" + name(want) + "\n" + name(g) + "\n" + s.log); return; }
        auto unit = [&](int a, int b, long v) { long f = v >= 0 ? v / U * U : -((-v + U - 1) / U * U); auto u = g.at(a, b), l = g.at(b, a); return v == f ? u.c == f && u.le && l.c == -f && l.le : u.c == f + U && !u.le && l.c == -f && !l.le; };
        for (auto &[i, v] : consts) { bool ok = unit(i + 1, 0, v); for (auto &[j, z] : consts) ok = ok && (j <= i || unit(i + 1, j + 1, v - z)); if (!ok) { c.fail("applyResets/size", "an updated value or a difference is not in its unit interval\n" + name(g) + "\n" + s.log); return; } }
      }
      s.log = l0;
    }
    // (c) juxtaposition
    {
      P y = s.gen(c.r.in(1, 3), false); if (c.failed()) return; int m = (int) y.c.size();
      int L = c.r.chance(1, 2) ? 0 : c.r.in(0, std::min(n, m)); bool plain = L == 0 && c.r.chance(1, 2);
      auto j = plain ? (x.c ^ y.c) : c.r.chance(1, 2) ? x.c.juxtaposeRight(y.c, L) : y.c.juxtaposeLeft(x.c, L);
      D d(n + m - L + 1); auto mr = [&](int b) { return b == 0 ? 0 : b > m - L ? n - m + b : n + b; };
      for (int a = 0; a <= n; ++a) for (int b = 0; b <= n; ++b) if (a != b) d.tighten(a, b, x.d.at(a, b));
      for (int a = 0; a <= m; ++a) for (int b = 0; b <= m; ++b) if (a != b) d.tighten(mr(a), mr(b), y.d.at(a, b));
      bool ex = true; std::string l0 = s.log; s.log += "juxtapose " + name(x.d) + " | " + name(y.d) + " common " + std::to_string(L) + "\n"; c.ev("juxtapositions");
      auto cmp = [&](const char *what) {
        D g = dbm::fromMatrix(j.value, U, ex); for (int i = 0; i < g.n; ++i) if (!dbm::less(g.at(i, i), {0, true})) g.at(i, i) = {0, true};
        if (g.n != d.n) return c.fail(what, std::string(what) + ": wrong size\n" + s.log);
        g.close(); D w = d; w.close(); bool ge = g.emptyClosed(), we = w.emptyClosed();
        if (!ex || ge != we || (!ge && !g.equal(w))) return c.fail(what, std::string(what) + ": expected " + name(w) + "\ngot " + name(g) + "\n" + s.log);
        learnta::Zone copy = j; if (copy.isSatisfiable() == we || j.isSatisfiableNoCanonize() == we) return c.fail(what, std::string(what) + ": satisfiability is wrong\n" + s.log);
        return true;
      };
      if (!cmp("juxtaposition")) return;
      if (plain || L == 0) {
        std::vector<std::pair<std::size_t, std::size_t>> ren; int k = c.r.in(0, 2);
        for (int i = 0; i < k; ++i) ren.emplace_back(c.r.in(0, n - 1), c.r.in(0, m - 1));
        j.addRenaming(ren); for (auto &[a, b] : ren) { d.tighten((int) a + 1, n + 1 + (int) b, {0, true}); d.tighten(n + 1 + (int) b, (int) a + 1, {0, true}); s.log += "rename " + std::to_string(a) + "," + std::to_string(b) + "\n"; }
        c.ev("renamings"); if (!cmp("addRenaming")) return;
        D w = d; w.close();
        if (!w.emptyClosed()) {
          auto mk = j.makeRenaming(); std::set<std::pair<size_t, size_t>> got(mk.begin(), mk.end()), want;
          for (int a = 1; a <= n; ++a) for (int b = 1; b <= m; ++b) if (w.at(a, n + b).c == 0 && w.at(a, n + b).le && w.at(n + b, a).c == 0 && w.at(n + b, a).le) want.emplace(a - 1, b - 1);
          if (got != want) { c.fail("makeRenaming", "wrong equalities\n" + s.log); return; }
          auto rz = j.getRight(); D g = dbm::fromMatrix(rz.value, U, ex), r(m + 1); auto ix = [&](int i) { return i == 0 ? 0 : n + i; };
          for (int a = 0; a <= m; ++a) for (int b = 0; b <= m; ++b) r.at(a, b) = w.at(ix(a), ix(b));
          for (int i = 0; i < g.n; ++i) g.at(i, i) = {0, true}; g.close(); r.close();
          c.ev("projections"); if (!g.equal(r)) { c.fail("getRight", "expected " + name(r) + "\ngot " + name(g) + "\n" + s.log); return; }
        }
      }
      s.log = l0;
    }
  }
  c.nontrivial(s.log); c.sample(s.log);
}

// elementary languages: concatenation, hull of several, constraining by a word
static void languages(Ctx &c) {
  S s{c, "", c.r.in(1, 3)};
  int n = c.r.in(1, 4); P x = s.gen(n, false); if (c.failed()) return;
  std::string w; for (int i = 0; i + 1 < n; ++i) w += "ab"[c.r.in(0, 1)];
  ElementaryLanguage L{w, x.c};
  auto rd = [&](const ElementaryLanguage &e) { bool ex = true; D d = read(e.getTimedCondition(), ex).meet(base((int) e.getTimedCondition().size())); d.close(); return d; };
  // hull of pieces
  std::list<ElementaryLanguage> ls; D h = x.d; ls.push_back(L);
  for (int i = c.r.in(0, 3); i > 0; --i) { P y = s.gen(n, false); if (c.failed()) return; ls.emplace_back(w, y.c); for (size_t z = 0; z < h.m.size(); ++z) if (dbm::less(h.m[z], y.d.m[z])) h.m[z] = y.d.m[z]; }
  auto H = ElementaryLanguage::convexHull(ls); c.ev("hulls"); h.close();
  if (H.getWord() != w || !rd(H).equal(h)) { c.fail("convexHull", "expected " + name(h) + "\ngot " + name(rd(H)) + "\n" + s.log); return; }
  if (L.isSimple() != s.simpleRef(x.d)) { c.fail("isSimple", s.log); return; }
  // pieces as languages
  if (s.bounded(x.d) && n <= 3) {
    auto v = L.enumerate(); auto t = x.c.enumerate(); if (v.size() != t.size()) { c.fail("enumerate", "number of pieces\n" + s.log); return; }
    std::set<size_t> used;
    for (auto &e : v) { bool f = false; for (size_t i = 0; i < t.size() && !f; ++i) if (!used.count(i) && e.getWord() == w && e.getTimedCondition() == t[i]) { used.insert(i); f = true; } if (!f) { c.fail("enumerate", "pieces differ\n" + s.log); return; } }
  }
  // constraining by a word of the language: the events before the cut keep exactly their durations
  for (int rep = 0; rep < 4; ++rep) {
    std::vector<long> p; if (!x.d.randomPoint(c.r, p, 0, 20 * U)) continue;
    size_t k = (size_t) c.r.in(0, n - 1); std::vector<double> du; for (size_t i = 0; i <= k; ++i) du.push_back((double) (p[i + 1] - ((int) i + 1 < n ? p[i + 2] : 0)) / U);
    D want = x.d; for (size_t i = 0; i < k; ++i) { long t = (long) (du[i] * U); int e = (int) i + 1 < n ? (int) i + 2 : 0; want.tighten((int) i + 1, e, {t, true}); want.tighten(e, (int) i + 1, {-t, true}); }
    want.close(); auto C = L.constrain(TimedWord{w.substr(0, k), du}); c.ev("constrained");
    if (C.getWord() != w || !rd(C).equal(want)) { c.fail("constrain", "expected " + name(want) + "\ngot " + name(rd(C)) + "\n" + s.log); return; }
    TimedWord q{w, [&] { std::vector<double> a; for (int i = 0; i < n; ++i) a.push_back((double) (p[i + 1] - (i + 1 < n ? p[i + 2] : 0)) / U); return a; }()};
    if (!L.contains(q)) { c.fail("contains", "a point of the condition is not contained\n" + s.log); return; }
    if (n > 1) { std::string w2 = w; w2[0] = w2[0] == 'a' ? 'b' : 'a'; if (L.contains(TimedWord{w2, q.getDurations()})) { c.fail("contains", "other events\n" + s.log); return; } }
  }
  // concatenation: words and membership of split words
  P y = s.gen(c.r.in(1, 3), false); if (c.failed()) return; std::string w2; for (size_t i = 0; i + 1 < y.c.size(); ++i) w2 += "ab"[c.r.in(0, 1)];
  ElementaryLanguage R{w2, y.c}; auto LR = L + R; if (LR.getWord() != w + w2) { c.fail("concatenation", "events\n" + s.log); return; }
  for (int rep = 0; rep < 6; ++rep) {
    std::vector<long> p, q; if (!x.d.randomPoint(c.r, p, 0, 20 * U) || !y.d.randomPoint(c.r, q, 0, 20 * U)) continue;
    auto dur = [&](const std::vector<long> &a) { std::vector<double> r; for (size_t i = 1; i < a.size(); ++i) r.push_back((double) (a[i] - (i + 1 < a.size() ? a[i + 1] : 0)) / U); return r; };
    TimedWord u{w, dur(p)}, v{w2, dur(q)}; c.ev("split_words");
    if (!LR.contains(u + v)) { c.fail("concatenation", "the concatenation of two words is missing\n" + s.log); return; }
  }
  auto E = ElementaryLanguage::empty(); if (!E.contains(TimedWord{"", {0}}) || E.contains(TimedWord{"", {0.5}})) { c.fail("empty", "the empty language"); return; }
  c.nontrivial(s.log + w); c.sample(s.log);
}
int main(int ac, char **av) {
  return drive(ac, av, {{"histories", histories, 8000, 100000}, {"updates", updates, 6000, 60000}, {"languages", languages, 6000, 60000}});
}
