// C12: zone operations against an independent exact matrix; every operation of a random history is checked.
#include "drv.hh"
#include "dbm.hh"
#include "zone.hh"
using namespace hn;
using dbm::D;
using learnta::Bounds; using learnta::Zone; using learnta::ClockVariables;
static const long U = 16;  // ticks in a time unit
using Resets = std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>>;

static D read(const Zone &z, bool &exact) {
  D d = dbm::fromMatrix(z.value, U, exact);
  for (int i = 0; i < d.n; ++i) if (!dbm::less(d.at(i, i), {0, true})) d.at(i, i) = {0, true};
  return d;
}
// 2n-1 variables: old clocks, then new ones, linked by the updates
static D link(int n, const Resets &rs) {
  D d(2 * n - 1);
  auto nw = [&](int i) { return i == 0 ? 0 : n - 1 + i; };
  std::vector<char> upd(n, 0);
  for (auto &[x, v] : rs) {
    int i = x + 1; upd[i] = 1;
    if (v.index() == 1) { int s = std::get<ClockVariables>(v) + 1; d.tighten(nw(i), s, {0, true}); d.tighten(s, nw(i), {0, true}); }
    else { long c = (long) (std::get<double>(v) * U); d.tighten(nw(i), 0, {c, true}); d.tighten(0, nw(i), {-c, true}); }
  }
  for (int i = 1; i < n; ++i) if (!upd[i]) { d.tighten(nw(i), i, {0, true}); d.tighten(i, nw(i), {0, true}); }
  return d;
}
static D project(D d, int n, bool newOnes) {
  d.close(); D r(n);
  auto at = [&](int i) { return i == 0 ? 0 : newOnes ? n - 1 + i : i; };
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.at(i, j) = d.at(at(i), at(j));
  return r;
}
static D post(const D &z, const Resets &rs) {
  D d = link(z.n, rs); for (int i = 0; i < z.n; ++i) for (int j = 0; j < z.n; ++j) d.tighten(i, j, z.at(i, j));
  return project(d, z.n, true);
}
static D pre(const D &z, const Resets &rs) {
  D d = link(z.n, rs); auto nw = [&](int i) { return i == 0 ? 0 : z.n - 1 + i; };
  for (int i = 0; i < z.n; ++i) for (int j = 0; j < z.n; ++j) d.tighten(nw(i), nw(j), z.at(i, j));
  return project(d, z.n, false);
}
static std::string showR(const Resets &rs) {
  std::ostringstream o;
  for (auto &[x, v] : rs) { o << "x" << (int) x << ":="; if (v.index() == 1) o << "x" << (int) std::get<ClockVariables>(v); else o << std::get<double>(v); o << " "; }
  return o.str();
}

struct Hist {
  Ctx &c; int k; Zone z; D d; std::string log; bool halves; int K;
  Hist(Ctx &c, int k, bool halves, int K) : c(c), k(k), d(k + 1), halves(halves), K(K) {}
  double cst() { return halves && c.r.chance(1, 2) ? c.r.in(0, 2 * K) / 2.0 : c.r.in(0, K); }
  bool agree(const char *op) {
    bool exact = true; Zone copy = z; D got = read(copy, exact); got.close(); D want = d; want.close();
    c.ev("operations");
    std::string ctx = log + "\nexpected " + want.show(U) + "\ngot      " + got.show(U);
    if (!exact) return c.fail(op, std::string(op) + ": a bound that is no multiple of the units used\n" + ctx);
    bool ge = got.emptyClosed(), we = want.emptyClosed();
    if (ge != we) return c.fail(op, std::string(op) + ": emptiness differs\n" + ctx);
    if (!ge && !got.equal(want)) return c.fail(op, std::string(op) + ": the sets differ\n" + ctx);
    Zone t = z; bool sat = t.isSatisfiable();
    if (sat == we) return c.fail("satisfiable", std::string(op) + ": isSatisfiable says " + std::to_string(sat) + "\n" + ctx);
    Zone t2 = z; if ((bool) t2 != sat) return c.fail("satisfiable", "conversion to bool\n" + ctx);
    if (t.isSatisfiableNoCanonize() != sat) return c.fail("satisfiable", "isSatisfiableNoCanonize on a canonical zone\n" + ctx);
    D can = read(t, exact);
    if (sat) {
      // a canonical zone has the tightest bounds
      for (int i = 0; i < can.n; ++i) for (int j = 0; j < can.n; ++j) if (i != j && !dbm::same(can.at(i, j), want.at(i, j)))
        return c.fail("canonize", std::string(op) + ": a bound is not tight after canonize\n" + ctx + "\ncanonized " + can.show(U));
    }
    d = want;
    return true;
  }
  bool nonneg() const { for (int i = 1; i < d.n; ++i) if (d.at(0, i).c > 0) return false; return true; }
  bool sample() {
    if (!nonneg()) return true;
    Zone t = z; auto v = t.sample(); c.ev("samples");
    std::string p = "("; for (double x : v) p += std::to_string(x) + " "; p += ")";
    if ((int) v.size() != k) return c.fail("sample", "size");
    // exact: every number is a dyadic one
    for (int i = 0; i <= k; ++i) for (int j = 0; j <= k; ++j) {
      double x = (i ? v[i - 1] : 0) - (j ? v[j - 1] : 0);
      auto b = d.at(i, j); if (b.c >= dbm::INF) continue;
      double bc = (double) b.c / U;
      if (!(x < bc || (x == bc && b.le))) return c.fail("sample", "sampled " + p + " is outside of " + d.show(U) + "\n" + log);
    }
    return true;
  }
};

static Resets randResets(Ctx &c, int k, std::function<double()> cst) {
  Resets rs; std::vector<int> xs; for (int i = 0; i < k; ++i) if (c.r.chance(1, 2)) xs.push_back(i);
  for (size_t i = xs.size(); i > 1; --i) std::swap(xs[i - 1], xs[c.r.next() % i]);
  for (int x : xs) {
    if (c.r.chance(1, 2)) rs.emplace_back((ClockVariables) x, cst());
    else rs.emplace_back((ClockVariables) x, (ClockVariables) c.r.in(0, k - 1));
  }
  return rs;
}

static void history(Ctx &c) {
  int k = c.r.in(1, c.thorough ? 6 : 5), K = c.r.chance(1, 10) ? 1000 : c.r.in(1, 6);
  Hist h(c, k, c.r.chance(1, 2), K);
  // touch the process-wide caches with other sizes
  if (c.r.chance(1, 2)) { (void) Zone::zero(c.r.in(1, 7)); (void) Zone::top((size_t) c.r.in(1, 7)); }
  int st = c.r.in(0, 3);
  if (st == 0 || st == 3) {
    h.z = Zone::zero(k + 1); h.log = "zero";
    for (int i = 1; i <= k; ++i) { h.d.tighten(i, 0, {0, true}); h.d.tighten(0, i, {0, true}); }
    h.d.close(); if ((int) h.z.value.cols() != k + 1) { c.fail("zero", "size"); return; }
  } else if (st == 1) {
    h.z = Zone::top((size_t) k + 1); h.log = "top";
    if (c.r.chance(1, 2)) { for (int i = 0; i < k; ++i) { h.z.tighten(-1, i, Bounds{0, true}); h.d.tighten(0, i + 1, {0, true}); } h.log = "nonneg"; }
  } else {
    std::vector<double> v; for (int i = 0; i < k; ++i) v.push_back(h.cst());
    h.z = Zone(v, Bounds{K, true}); h.log = "point"; for (double x : v) h.log += " " + std::to_string(x);
    for (int i = 0; i < k; ++i) { long t = (long) (v[i] * U); h.d.tighten(i + 1, 0, {t, true}); h.d.tighten(0, i + 1, {-t, true}); }
  }
  h.z.M = Bounds{K, true}; h.z.maxConstraints.assign(k, K);
  if (h.z.getNumOfVar() != (size_t) k) { c.fail("size", "getNumOfVar"); return; }
  if (!h.agree("init")) return;
  int steps = c.r.in(3, 16);
  for (int s = 0; s < steps; ++s) {
    int op = c.r.in(0, 13); const char *name = "";
    const Zone zBefore = h.z; const D dBefore = h.d; const std::string logBefore = h.log;
    if (op <= 2) {
      int x = c.r.in(-1, k - 1), y = c.r.in(-1, k - 1); if (x == y) continue;
      double q = h.cst(); if (c.r.chance(1, 3)) q = -q; bool le = c.r.chance(1, 2);
      if (s < steps / 2 && q <= 0 && x < 0 && c.r.chance(1, 2)) continue;
      h.z.canonize(); h.z.tighten((ClockVariables) x, (ClockVariables) y, Bounds{q, le});
      h.d.tighten(x + 1, y + 1, {(long) (q * U), le}); name = "tighten";
      h.log += "; x" + std::to_string(x) + "-x" + std::to_string(y) + (le ? "<=" : "<") + std::to_string(q);
    } else if (op == 3 || op == 4) {
      std::vector<Constraint> g; int n = c.r.in(1, 3);
      for (int i = 0; i < n; ++i) {
        int x = c.r.in(0, k - 1), o = c.r.in(0, 3), q = c.r.in(0, K); ConstraintMaker m(x);
        g.push_back(o == 0 ? m < q : o == 1 ? m <= q : o == 2 ? m >= q : m > q);
        if (o < 2) h.d.tighten(x + 1, 0, {q * U, o == 1}); else h.d.tighten(0, x + 1, {-q * U, o == 2});
        h.log += "; x" + std::to_string(x) + (o == 0 ? "<" : o == 1 ? "<=" : o == 2 ? ">=" : ">") + std::to_string(q);
      }
      h.z.canonize(); if (n == 1 && c.r.chance(1, 2)) h.z.tighten(g[0]); else h.z.tighten(g); name = "guard";
    } else if (op <= 6) {
      h.z.canonize(); h.z.elapse(); h.d.close(); for (int i = 1; i <= k; ++i) h.d.at(i, 0) = {dbm::INF, false};
      name = "elapse"; h.log += "; elapse";
    } else if (op == 7) {
      h.z.canonize(); h.z.reverseElapse(); h.d.close(); for (int i = 1; i <= k; ++i) h.d.at(0, i) = {0, true};
      name = "reverseElapse"; h.log += "; reverseElapse";
    } else if (op <= 9) {
      auto rs = randResets(c, k, [&] { return h.cst(); }); if (c.r.chance(1, 3)) h.z.canonize();
      h.z.applyResets(rs); h.d = post(h.d, rs); name = "applyResets"; h.log += "; apply " + showR(rs);
    } else if (op == 10) {
      auto rs = randResets(c, k, [&] { return h.cst(); });
      h.z.revertResets(rs); h.d = pre(h.d, rs); name = "revertResets"; h.log += "; revert " + showR(rs);
      // keep to non-negative valuations
      h.z.canonize(); for (int i = 0; i < k; ++i) { h.z.tighten(-1, i, Bounds{0, true}); h.d.tighten(0, i + 1, {0, true}); }
    } else if (op == 11) {
      int x = c.r.in(0, k - 1); h.z.canonize();
      if (c.r.chance(1, 2)) { h.z.reset(x); h.d = post(h.d, {{(ClockVariables) x, 0.0}}); name = "reset"; h.log += "; reset x" + std::to_string(x); }
      else {
        h.z.unconstrain(x); h.d.close(); for (int i = 0; i <= k; ++i) if (i != x + 1) h.d.at(i, x + 1) = h.d.at(x + 1, i) = {dbm::INF, false};
        h.z.tighten(-1, x, Bounds{0, true}); h.d.tighten(0, x + 1, {0, true}); name = "unconstrain"; h.log += "; free x" + std::to_string(x);
      }
    } else {
      // a second zone: intersection, inclusion, equality
      Zone o = Zone::top((size_t) k + 1); D e(k + 1);
      for (int i = 0; i < k; ++i) { o.tighten(-1, i, Bounds{0, true}); e.tighten(0, i + 1, {0, true}); }
      bool near = c.r.chance(1, 2);
      if (near) { o = h.z; e = h.d; }
      int m = c.r.in(0, 3);
      for (int i = 0; i < m; ++i) {
        int x = c.r.in(-1, k - 1), y = c.r.in(-1, k - 1); if (x == y) continue; double q = h.cst(); bool le = c.r.chance(1, 2);
        o.tighten((ClockVariables) x, (ClockVariables) y, Bounds{q, le}); e.tighten(x + 1, y + 1, {(long) (q * U), le});
      }
      o.M = h.z.M; o.maxConstraints = h.z.maxConstraints;
      o.canonize(); h.z.canonize(); h.d.close(); e.close();
      if (!e.emptyClosed() && !h.d.emptyClosed()) {
        Zone a = h.z, b = o;
        a.value.diagonal().fill(Bounds{0, true}); b.value.diagonal().fill(Bounds{0, true});
        bool inc = h.d.includes(e), inc2 = e.includes(h.d), eq = h.d.equal(e);
        c.ev("comparisons"); if (inc || inc2) c.ev("inclusions");
        std::string ctx = h.log + "\nA: " + h.d.show(U) + "\nB: " + e.show(U);
        if (a.includes(b) != inc || b.includes(a) != inc2) { c.fail("includes", "inclusion is reported wrongly\n" + ctx); return; }
        if ((a == b) != eq || a.strictEqual(b) != eq || h.z.strictEqual(o) != eq || a.equalIgnoreZero(b) != eq) { c.fail("equality", "equality is reported wrongly (expected " + std::to_string(eq) + ")\n" + ctx); return; }
      }
      if (c.r.chance(1, 2)) { auto r = h.z && o; h.z = r; h.z.maxConstraints.assign(k, K); if (r.M != Bounds{K, true}) { c.fail("meet", "the threshold is lost"); return; } }
      else h.z &= o;
      h.d = h.d.meet(e); name = "intersection"; h.log += "; meet " + e.show(U);
    }
    if (!h.agree(name)) return;
    if (h.d.emptyClosed()) { c.ev("empty"); Zone u = h.z; u.makeUnsat(); if (u.isSatisfiable()) c.fail("makeUnsat", h.log);
      if (c.r.chance(1, 6)) break;
      h.z = zBefore; h.d = dBefore; h.log = logBefore; continue; }
    if (!h.sample()) return;
  }
  if (steps > 4) c.nontrivial(h.log);
  c.sample(h.log);
  if (h.d.emptyClosed()) return;
  { Zone u = h.z; u.makeUnsat(); if (u.isSatisfiable()) c.fail("makeUnsat", h.log); }
  // extrapolation
  for (int rep = 0; rep < 2; ++rep) {
    std::vector<long> M(k + 1, 0); Zone x = h.z; x.canonize(); x.value.diagonal().fill(Bounds{0, true}); x.maxConstraints.assign(k, 0);
    bool ab = rep == 1; int m1 = c.r.in(1, 6);
    if (!h.nonneg()) break;
    for (int i = 0; i < k; ++i) { int m = ab ? m1 : c.r.in(0, 6); x.maxConstraints[i] = m; M[i + 1] = m * U; }
    x.M = Bounds{m1, true};
    if (ab) x.abstractize(); else x.extrapolate();
    bool exact = true; D e = read(x, exact); D ec = e; ec.close(); h.d.close();
    std::string ctx = h.log + "\nzone " + h.d.show(U) + "\nextrapolated " + ec.show(U) + "\nmax"; for (int i = 1; i <= k; ++i) ctx += " " + std::to_string(M[i] / U);
    c.ev("extrapolations"); if (!ec.equal(h.d)) c.ev("extrapolations_enlarging");
    if (ec.emptyClosed() || !ec.includes(h.d)) { c.fail("extrapolate-shrinks", "extrapolation loses valuations\n" + ctx); return; }
    for (int p = 0; p < 12; ++p) {
      std::vector<long> v; if (!ec.randomPoint(c.r, v, 0, 8 * U)) continue;
      D q = h.d;
      if (!ab) {
        // some valuation of the zone has the same values up to the maximal constants, and greater ones beyond
        for (int i = 1; i <= k; ++i) {
          if (v[i] <= M[i]) { q.tighten(i, 0, {v[i], true}); q.tighten(0, i, {-v[i], true}); }
          else q.tighten(0, i, {-M[i], false});
        }
      } else {
        if (h.halves) continue;
        D reg = dbm::regionOf(v, M, U); q = q.meet(reg);
      }
      c.ev("extrapolated_points");
      if (q.empty()) { c.fail(ab ? "abstractize-adds" : "extrapolate-adds", "extrapolation adds " + dbm::showPoint(v, U) + ", which agrees with no valuation of the zone\n" + ctx); return; }
    }
  }
}
int main(int ac, char **av) { return drive(ac, av, {{"history", history, 20000, 300000}}); }
