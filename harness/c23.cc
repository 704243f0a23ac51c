// C23: transitions built from regions, renamings and neighbours: where their guards hold and where their updates lead.
#include "drv.hh"
#include "dbm.hh"
#include "forward_regional_elementary_language.hh"
#include "renaming_relation.hh"
#include "external_transition_maker.hh"
#include "internal_transition_maker.hh"
#include "neighbor_conditions.hh"
#include "imprecise_clock_handler.hh"
using namespace hn;
using dbm::D;
using learnta::TimedCondition; using learnta::RenamingRelation; using learnta::ClockVariables; using learnta::NeighborConditions;
using F = learnta::ForwardRegionalElementaryLanguage; using Resets = TATransition::Resets;
static const long U = 1L << 20;
using V = std::vector<long>;          // values of clocks; clock i is the time since before duration i

// ---- reading ----
struct Iv { long lo, hi; bool lc, hc; };   // hi >= INF: unbounded
static const long INF = dbm::INF;
static bool operator==(const Iv &a, const Iv &b) { return a.lo == b.lo && a.lc == b.lc && ((a.hi >= INF && b.hi >= INF) || (a.hi == b.hi && a.hc == b.hc)); }
static bool in(long x, const Iv &i) { return (x > i.lo || (x == i.lo && i.lc)) && (i.hi >= INF || x < i.hi || (x == i.hi && i.hc)); }
using Box = std::vector<Iv>;
static Box boxOf(const std::vector<Constraint> &g, int n) {   // what a guard says of clocks 0..n-1, all values from 0 on
  Box b((size_t) n, Iv{0, INF, true, false});
  for (auto &k : g) {
    if ((int) k.x >= n) { b.resize(k.x + 1, Iv{0, INF, true, false}); n = (int) k.x + 1; }
    Iv &i = b[k.x]; long v = k.c * U;
    switch (k.odr) {
      case Constraint::Order::lt: if (v < i.hi || (v == i.hi && i.hc)) { i.hi = v; i.hc = false; } break;
      case Constraint::Order::le: if (v < i.hi) { i.hi = v; i.hc = true; } break;
      case Constraint::Order::gt: if (v > i.lo || (v == i.lo && i.lc)) { i.lo = v; i.lc = false; } break;
      case Constraint::Order::ge: if (v > i.lo) { i.lo = v; i.lc = true; } break;
    }
  }
  return b;
}
static Iv unit(long x) { long f = x / U * U; return x == f ? Iv{f, f, true, true} : Iv{f, f + U, false, false}; }
static Box boxAt(const V &x) { Box b; for (long v : x) b.push_back(unit(v)); return b; }
static bool sub(const Iv &a, const Iv &b) { return (a.lo > b.lo || (a.lo == b.lo && (b.lc || !a.lc))) && (b.hi >= INF || (a.hi < INF && (a.hi < b.hi || (a.hi == b.hi && (b.hc || !a.hc))))); }
static bool sub(const Box &a, const Box &b) { for (size_t i = 0; i < b.size(); ++i) if (!sub(i < a.size() ? a[i] : Iv{0, INF, true, false}, b[i])) return false; return true; }
static Iv hull(const Iv &a, const Iv &b) {
  Iv r = a; if (b.lo < r.lo || (b.lo == r.lo && b.lc)) { r.lo = b.lo; r.lc = b.lc; }
  if (b.hi > r.hi || (b.hi == r.hi && b.hc)) { r.hi = b.hi; r.hc = b.hc; } return r;
}
static std::string show(const Box &b) { std::ostringstream o; for (size_t i = 0; i < b.size(); ++i) { o << "x" << i << (b[i].lc ? "[" : "(") << (double) b[i].lo / U << ","; if (b[i].hi >= INF) o << "inf"; else o << (double) b[i].hi / U; o << (b[i].hc ? "]" : ")") << " "; } return o.str(); }
static std::string show(const V &x) { std::ostringstream o; o << "("; for (size_t i = 0; i < x.size(); ++i) o << (i ? ", " : "") << (double) x[i] / U; o << ")"; return o.str(); }
static std::string show(const Resets &r) { std::ostringstream o; for (auto &[x, v] : r) { o << "x" << (int) x << ":="; if (v.index() == 1) o << "x" << (int) std::get<ClockVariables>(v); else o << std::get<double>(v); o << " "; } return o.str(); }
static std::string show(const RenamingRelation &r) { std::ostringstream o; o << "{"; for (auto &[i, j] : r) o << " t" << i << "=t'" << j; o << " }"; return o.str(); }
static bool normal(Box a, Box b) { while (!a.empty() && a.back() == Iv{0, INF, true, false}) a.pop_back(); while (!b.empty() && b.back() == Iv{0, INF, true, false}) b.pop_back(); return a == b; }

// the update, all at once on the old values; false if a value is not a tick
static bool apply(const Resets &r, const V &x, V &y, size_t n) {
  y = x; if (y.size() < n) y.resize(n, 0);
  for (auto &[k, v] : r) {
    if (k >= y.size()) y.resize(k + 1, 0);
    if (v.index() == 1) { auto s = std::get<ClockVariables>(v); y[k] = s < x.size() ? x[s] : 0; }
    else { double t = std::get<double>(v) * (double) U; if (t != std::floor(t)) return false; y[k] = (long) t; }
  }
  return true;
}

// ---- regions ----
static std::string key(const V &x) {
  std::set<long> fr; for (long v : x) if (v % U) fr.insert(v % U);
  std::string s; for (long v : x) { s.push_back((char) (v / U)); s.push_back(v % U ? (char) (1 + std::distance(fr.begin(), fr.find(v % U))) : 0); } return s;
}
static V canon(const V &x) {   // a fixed member of the region
  std::set<long> fr; for (long v : x) if (v % U) fr.insert(v % U);
  V y; for (long v : x) y.push_back(v / U * U + (v % U ? U / 16 * (1 + (long) std::distance(fr.begin(), fr.find(v % U))) : 0)); return y;
}
static V nextRegion(const V &x) {   // the next one as time passes
  long mx = 0; bool onInt = false; for (long v : x) { mx = std::max(mx, v % U); onInt |= v % U == 0; }
  long t = onInt ? (U - mx) / 2 : U - mx; V y = x; for (long &v : y) v += t; return canon(y);
}
static void regionInto(D &d, int off, const V &x) {
  int n = (int) x.size();
  for (int i = 0; i < n; ++i) for (int e = 0; e <= n; ++e) if (e != i) {
    long v = x[i] - (e == n ? 0 : x[e]); int a = off + i + 1, b = e == n ? 0 : off + e + 1; if (e < n && e < i) continue;
    Iv k = v >= 0 ? unit(v) : Iv{0, 0, true, true}; if (v < 0) continue;
    d.tighten(a, b, {k.hi, k.hc}); d.tighten(b, a, {-k.lo, k.lc});
  }
}
static bool inRegion(const V &y, const V &x) { return y.size() == x.size() && key(y) == key(x); }
static bool ticks(const std::vector<double> &d, V &y) { y.clear(); for (double v : d) { double t = v * (double) U; if (t != std::floor(t) || t < 0) return false; y.push_back((long) t); } return true; }

struct S {
  Ctx &c; std::string log; int K;
  long val(bool coarse = false) { return c.r.chance(1, 4) ? 0 : c.r.chance(1, 3) ? U * c.r.in(0, K) : U / (coarse ? 4 : 16) * c.r.in(0, (coarse ? 4 : 16) * K); }
  V gen(int n) { V x(n); for (long &v : x) v = val(); if (c.r.chance(1, 2)) x.back() = 0; std::sort(x.rbegin(), x.rend()); return x; }
  std::string word(int n) { std::string w; for (int i = 0; i + 1 < n; ++i) w.push_back("ab"[c.r.in(0, 1)]); return w; }
  F lang(const std::string &w, const V &x) { std::vector<double> d; for (size_t i = 0; i < x.size(); ++i) d.push_back((double) (x[i] - (i + 1 < x.size() ? x[i + 1] : 0)) / U); return F::fromTimedWord(TimedWord{w, d}); }
  // a target sharing some values, and the pairs that share them
  V target(const V &x, RenamingRelation &all, bool unique) {
    int m = c.r.in(1, 4); V y; for (int j = 0; j < m; ++j) y.push_back(c.r.chance(1, 2) ? c.r.pick(x) : val()); if (c.r.chance(1, 3)) y.back() = 0;
    std::sort(y.rbegin(), y.rend()); all.clear();
    for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) if (x[i] == y[j] && c.r.chance(3, 4) && (!unique || std::none_of(all.begin(), all.end(), [&](auto &p) { return p.second == j; }))) all.emplace_back(i, j);
    return y;
  }
  D joint(const V &x, const V &y, const RenamingRelation &R) {
    int n = (int) x.size(), m = (int) y.size(); D d(n + m + 1); regionInto(d, 0, x); regionInto(d, n, y);
    for (auto &[i, j] : R) { d.tighten((int) i + 1, n + 1 + (int) j, {0, true}); d.tighten(n + 1 + (int) j, (int) i + 1, {0, true}); }
    d.close(); return d;
  }
  static bool equal(const D &d, int n, size_t i, size_t j) { auto a = d.at((int) i + 1, n + 1 + (int) j), b = d.at(n + 1 + (int) j, (int) i + 1); return a.c == 0 && a.le && b.c == 0 && b.le; }
};

// transitions made for a morphism: a guard that is the source region, updates that lead into the target region
struct Add { TAState *tgt; V x, y; RenamingRelation R; std::string text; };
static std::string judge(S &s, const Add &a, const TATransition &t) {
  if (t.target != a.tgt) return "wrong target";
  int n = (int) a.x.size(), m = (int) a.y.size();
  Box g = boxOf(t.guard, n); if (!normal(g, boxAt(a.x))) return "the guard " + show(g) + "is not the source " + show(boxAt(a.x));
  D d = s.joint(a.x, a.y, a.R); D src(n + 1); regionInto(src, 0, a.x); src.close();
  bool full = true; std::vector<int> from(m, -2);
  for (int j = 0; j < m; ++j) { if (a.y[j] % U == 0) { from[j] = -1; continue; } for (int i = 0; i < n; ++i) if (S::equal(d, n, i, j)) from[j] = i; full &= from[j] != -2; }
  s.c.ev(full ? "full_renamings" : "partial_renamings");
  V first;
  for (int rep = 0; rep < 3; ++rep) {
    V p; if (rep == 0) { p = a.x; } else { V q; if (!src.randomPoint(s.c.r, q, 0, 20 * U)) continue; p.assign(q.begin() + 1, q.end()); }
    for (int k = 0; k < 3; ++k) p.push_back(s.val());
    V z; if (!apply(t.resetVars, p, z, (size_t) m)) return "a constant that is no sensible fraction"; z.resize(m); s.c.ev("valuations_moved");
    for (int j = 0; j < m; ++j) {
      if (from[j] == -1 && z[j] != a.y[j]) return "x" + std::to_string(j) + " must be " + std::to_string(a.y[j] / U) + " but is " + std::to_string((double) z[j] / U);
      if (from[j] >= 0 && z[j] != p[from[j]]) return "x" + std::to_string(j) + " must be the old x" + std::to_string(from[j]);
      if (from[j] == -2) { if (!in(z[j], unit(a.y[j]))) return "x" + std::to_string(j) + " leaves its interval"; if (!first.empty() && first[j] != z[j]) return "x" + std::to_string(j) + " depends on the old values"; }
    }
    if (full && !inRegion(z, a.y)) return "from " + show(p) + " to " + show(z) + ", outside the target region";
    D e((int) m + 1); regionInto(e, 0, a.y); for (int j = 0; j < m; ++j) if (from[j] < 0) { e.tighten(j + 1, 0, {z[j], true}); e.tighten(0, j + 1, {-z[j], true}); }
    if (e.empty()) return "the constants " + show(z) + " belong to no point of the target region";
    first = z;
  }
  return "";
}
static void moves(Ctx &c) {
  S s{c, "", c.r.in(1, 3)};
  std::vector<std::shared_ptr<TAState>> st; for (int i = 0; i < 2; ++i) st.push_back(std::make_shared<TAState>(i));
  learnta::ExternalTransitionMaker mk; std::vector<Add> adds; int k = c.r.in(1, 4);
  for (int i = 0; i < k; ++i) {
    if (i && c.r.chance(1, 3)) { Add a = adds[c.r.next() % adds.size()]; if (c.r.chance(1, 2)) { a.tgt = st[c.r.in(0, 1)].get(); } adds.push_back(a); }
    else { Add a; a.tgt = st[c.r.in(0, 1)].get(); a.x = s.gen(c.r.in(1, 4)); a.y = s.target(a.x, a.R, c.r.chance(3, 4)); adds.push_back(a); }
    Add &a = adds.back(); a.text = show(a.x) + " to " + show(a.y) + " by " + show(a.R); s.log += a.text + "\n";
    mk.add(a.tgt == st[0].get() ? st[0] : st[1], a.R, s.lang(s.word((int) a.x.size()), a.x).getTimedCondition(), s.lang(s.word((int) a.y.size()), a.y).getTimedCondition());
  }
  auto ts = mk.make(); c.ev("external_transitions", (long) ts.size());
  if (ts.size() != adds.size()) { c.fail("external/count", std::to_string(ts.size()) + " transitions for " + std::to_string(adds.size()) + " steps\n" + s.log); return; }
  // every step has its own transition
  std::vector<std::vector<std::string>> why(adds.size(), std::vector<std::string>(ts.size()));
  for (size_t i = 0; i < adds.size(); ++i) for (size_t j = 0; j < ts.size(); ++j) why[i][j] = judge(s, adds[i], ts[j]);
  std::vector<int> perm(ts.size()); std::iota(perm.begin(), perm.end(), 0); bool ok = false;
  do { bool all = true; for (size_t i = 0; i < adds.size(); ++i) all &= why[i][perm[i]].empty(); ok |= all; } while (!ok && std::next_permutation(perm.begin(), perm.end()));
  if (!ok) {
    std::string t; for (size_t i = 0; i < adds.size(); ++i) { bool any = false; for (auto &w : why[i]) any |= w.empty(); if (!any) { t += "no transition for " + adds[i].text; for (size_t j = 0; j < ts.size(); ++j) t += "\n  not " + show(ts[j].resetVars) + ": " + why[i][j]; t += "\n"; } }
    c.fail("external", t.empty() ? "two steps share one transition\n" + s.log : t); return;
  }
  // steps inside: one new clock
  learnta::InternalTransitionMaker im; if (!im.empty()) { c.fail("internal", "empty() on a new maker"); return; }
  std::vector<std::pair<TAState *, V>> ia; std::set<TAState *> tg; k = c.r.in(1, 3);
  for (int i = 0; i < k; ++i) { auto &q = st[c.r.in(0, 1)]; V x = s.gen(c.r.in(1, 4)); ia.emplace_back(q.get(), x); tg.insert(q.get()); im.add(q, s.lang(s.word((int) x.size()), x).getTimedCondition()); }
  auto it = im.make(); c.ev("internal_transitions", (long) it.size());
  if (im.empty() || im.size() != tg.size() || it.size() != ia.size()) { c.fail("internal", "wrong number of transitions"); return; }
  std::vector<bool> used(it.size());
  for (auto &[q, x] : ia) {
    bool f = false; for (size_t j = 0; j < it.size() && !f; ++j) if (!used[j] && it[j].target == q && normal(boxOf(it[j].guard, (int) x.size()), boxAt(x))) {
      V p = x, z; p.resize(x.size() + 2, 7 * U); V want = p; want[x.size()] = 0; if (apply(it[j].resetVars, p, z, 0) && z == want) { used[j] = true; f = true; }
    }
    if (!f) { c.fail("internal", "no transition for " + show(x)); return; }
  }
  c.nontrivial(s.log); c.sample(s.log);
}

// renamings as relations, and points of conditions
static void renamings(Ctx &c) {
  S s{c, "", c.r.in(1, 4)};
  V x = s.gen(c.r.in(1, 5)); RenamingRelation R; V y = s.target(x, R, true); int n = (int) x.size(), m = (int) y.size();
  auto X = s.lang(s.word(n), x).getTimedCondition(), Y = s.lang(s.word(m), y).getTimedCondition(); s.log = show(x) + " " + show(y) + " " + show(R);
  auto bad = [&](const char *k, const std::string &w) { c.fail(k, w + "\n" + s.log); };
  V p; if (!ticks(RenamingRelation::toValuation(X), p) || !inRegion(p, x)) return bad("toValuation", "a valuation outside the condition: " + show(p));
  if (!ticks(learnta::ExternalTransitionMaker::toValuation(Y), p) || !inRegion(p, y)) return bad("toValuation", "a valuation outside the condition: " + show(p));
  c.ev("valuations_of_conditions", 2);
  auto mapped = [&](const RenamingRelation &r, size_t j) { for (auto &q : r) if (q.second == j) return true; return false; };
  auto point = [&](size_t j) { return y[j] % U == 0; };
  for (int rep = 0; rep < 3; ++rep) {
    RenamingRelation r = R; if (rep == 1) { r.clear(); for (int i = c.r.in(0, 4); i > 0; --i) r.emplace_back(c.r.in(0, n - 1), c.r.in(0, m - 1)); } if (rep == 2) r.clear();
    std::string l = " for " + show(r); c.ev("relations_judged");
    std::set<ClockVariables> rv; for (auto &q : r) rv.insert((ClockVariables) q.second);
    auto got = r.rightVariables(); if (std::vector<ClockVariables>(rv.begin(), rv.end()) != std::vector<ClockVariables>(got.begin(), got.end())) return bad("rightVariables", l);
    bool unique = rv.size() == r.size(); if (r.isRightUnique() != unique) return bad("isRightUnique", l);
    bool full = true, trivial = true; std::vector<ClockVariables> imp; for (int j = 0; j < m; ++j) if (!point(j) && !mapped(r, j)) { full = false; imp.push_back((ClockVariables) j); }
    for (auto &q : r) trivial &= point(q.second);
    if (r.full(Y) != full) return bad("full", l); if (r.onlyTrivial(Y) != trivial) return bad("onlyTrivial", l);
    bool has = !r.empty() && !full && !trivial; if (r.hasImpreciseClocks(Y) != has) return bad("hasImpreciseClocks", l);
    auto ic = r.impreciseClocks(Y); if (!has) imp.clear(); if (std::vector<ClockVariables>(ic.begin(), ic.end()) != imp) return bad("impreciseClocks", l); if (has) c.ev("imprecise_renamings");
    bool contains = true; for (int j = 0; j < m; ++j) if (point(j)) for (int i = 0; i < n; ++i) if (x[i] == y[j] && !mapped(r, j)) contains = false;
    if (r.containsAllTrivial(X, Y) != contains) return bad("containsAllTrivial", l);
    auto in = learnta::ExternalTransitionMaker::inactiveClockVariables(r, Y); std::map<int, long> w, g; for (auto &[k, b] : in) g[k] = (long) b;
    for (int j = 0; j < m; ++j) if (!point(j) && !mapped(r, j)) w[j] = y[j] / U + 1;
    if (w != g) return bad("inactiveClockVariables", l);
    auto e = r; size_t left = (size_t) c.r.in(0, n); e.eraseLeft(left); RenamingRelation want; for (auto &q : r) if (q.first != left) want.push_back(q);
    if (e != want) return bad("eraseLeft", l);
    // updates for the renaming as it is
    if (rep != 1) {
      auto u = r.toReset(X, Y); V q = x, z; for (int k = 0; k < 3; ++k) q.push_back(s.val()); std::set<int> keys; c.ev("updates_from_renamings");
      for (auto &[k, v] : u) if (!keys.insert(k).second || k >= m) return bad("toReset", "a clock is updated twice or does not exist:" + l);
      if (!apply(u, q, z, (size_t) m)) return bad("toReset", "a constant that is no sensible fraction:" + l);
      D tgt(m + 1); regionInto(tgt, 0, y);
      for (int j = 0; j < m; ++j) {
        if (point(j)) { if (z[j] != y[j]) return bad("toReset", "a fixed value is missed:" + l + " " + show(u)); }
        else if (mapped(r, j)) { bool f = false; for (auto &pr : r) if ((int) pr.second == j && z[j] == q[pr.first]) f = true; if (!f) return bad("toReset", "a renamed clock does not keep its value:" + l + " " + show(u)); }
        else { tgt.tighten(j + 1, 0, {z[j], true}); tgt.tighten(0, j + 1, {-z[j], true}); }
      }
      if (tgt.empty()) return bad("toReset", "the constants belong to no point of the target:" + l + " " + show(u));
      if (full && rep == 0) { z.resize(m); if (!inRegion(z, y)) return bad("toReset", "outside the target:" + l + " " + show(u)); }
    }
  }
  {   // equalities that follow
    RenamingRelation r = R; D d = s.joint(x, y, R); if (c.r.chance(1, 2)) r.addImplicitConstraints(X, Y); else r.addImplicitConstraints(X ^ Y); c.ev("closures");
    std::set<size_t> right; for (auto &[i, j] : r) { if ((int) i >= n || (int) j >= m || !S::equal(d, n, i, j)) return bad("addImplicitConstraints", "an equality that does not follow: " + show(r)); if (!right.insert(j).second) return bad("addImplicitConstraints", "not unique: " + show(r)); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (S::equal(d, n, i, j) && !right.count(j)) return bad("addImplicitConstraints", "an equality is missing: " + show(r));
    if (r.size() > R.size()) c.ev("closures_that_add");
  }
  {   // renaming of plain vectors, clock by clock onto clocks that exist
    RenamingRelation r; int k = c.r.in(1, 5); std::set<int> src, dst; std::vector<int> v; for (int i = 0; i < k; ++i) v.push_back(c.r.in(0, 99));
    for (int i = 0; i < k; ++i) if (c.r.chance(1, 2)) { int a = c.r.in(0, k - 1), b = c.r.in(0, k - 1); if (dst.count(a) || src.count(b) || dst.count(b)) continue; src.insert(a); dst.insert(b); r.emplace_back(a, b); }
    auto want = v; for (auto &[a, b] : r) want[b] = v[a]; c.ev("vectors_renamed");
    if (r.apply(v) != want) return bad("apply", show(r));
  }
  c.nontrivial(s.log); c.sample(s.log);
}

// updates as functions on valuations
static void updates(Ctx &c) {
  S s{c, "", 4};
  const int N = 6;
  auto gen = [&] { Resets r; std::vector<int> ks; for (int i = 0; i < N; ++i) if (c.r.chance(1, 2)) ks.push_back(i); for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[c.r.next() % i]);
    for (int k : ks) { int w = c.r.in(0, 3); if (w < 2) r.emplace_back((ClockVariables) k, (ClockVariables) (c.r.chance(1, 5) ? k : c.r.in(0, N - 1))); else r.emplace_back((ClockVariables) k, (double) s.val() / U); } return r; };
  Resets l = gen(), r = gen(); s.log = show(l) + "; " + show(r);
  auto bad = [&](const char *k, const Resets &got) { c.fail(k, std::string(k) + " gives " + show(got) + "\n" + s.log); };
  auto comp = learnta::composition(l, r), def = learnta::addDefault(l, r), cl = learnta::clean(l);
  TATransition a{nullptr, l, {}}, b{nullptr, l, {}}; a.addPreciseConstantAssignments(r); b.addPreciseAssignments(r);
  auto at = [](const Resets &q, int k) -> const std::variant<double, ClockVariables> * { for (auto &p : q) if (p.first == k) return &p.second; return nullptr; };
  auto whole = [](const std::variant<double, ClockVariables> &v) { return v.index() == 0 && std::get<double>(v) == std::floor(std::get<double>(v)); };
  for (int rep = 0; rep < 4; ++rep) {
    V v, m, w, g; for (int i = 0; i < N; ++i) v.push_back(s.val() + rep); c.ev("updates_applied");
    apply(r, v, m, N); apply(l, m, w, N); apply(comp, v, g, N); if (w != g) return bad("composition", comp);
    V vl; apply(l, v, vl, N); w = vl; for (int k = 0; k < N; ++k) if (!at(l, k)) w[k] = m[k]; apply(def, v, g, N); if (w != g) return bad("addDefault", def);
    apply(cl, v, g, N); if (g != vl) return bad("clean", cl);
    w = vl; for (int k = 0; k < N; ++k) if (at(r, k) && whole(*at(r, k)) && !(at(l, k) && whole(*at(l, k)))) w[k] = m[k];
    apply(a.resetVars, v, g, N); if (w != g) return bad("addPreciseConstantAssignments", a.resetVars);
    w = vl; for (int k = 0; k < N; ++k) if (at(r, k) && (whole(*at(r, k)) || at(r, k)->index() == 1) && !(at(l, k) && whole(*at(l, k)))) w[k] = m[k];
    apply(b.resetVars, v, g, N); if (w != g) return bad("addPreciseAssignments", b.resetVars);
  }
  for (auto &[k, v] : cl) if (v.index() == 1 && std::get<ClockVariables>(v) == k) return bad("clean", cl);
  auto mp = learnta::asMap(l); if (mp.size() != l.size()) return bad("asMap", l); for (auto &[k, v] : l) if (mp.at(k) != v) return bad("asMap", l);
  size_t frac = 0, copy = 0; for (auto &[k, v] : l) { frac += v.index() == 0 && !whole(v); copy += v.index() == 1; }
  if (TATransition::impreciseConstantAssignSize(l) != frac || TATransition::impreciseAssignSize(l) != frac + copy) return bad("impreciseAssignSize", l);
  // precise clocks stay, the others take the values given
  std::unordered_set<ClockVariables> P; for (int i = 0; i < N; ++i) if (c.r.chance(1, 2)) P.insert((ClockVariables) i);
  std::vector<double> e; for (int i = c.r.in(0, N); i > 0; --i) e.push_back((double) s.val() / U);
  auto em = learnta::ImpreciseClockHandler::embedIfImprecise(l, P, e); V v, vl, g; for (int i = 0; i < N; ++i) v.push_back(s.val()); apply(l, v, vl, N); V w = v; c.ev("embeddings");
  for (int k = 0; k < N; ++k) if (P.count((ClockVariables) k)) w[k] = vl[k]; else if (k < (int) e.size()) w[k] = (long) (e[k] * U);
  apply(em, v, g, N); if (g != w) return bad("embedIfImprecise", em);
  c.nontrivial(s.log); c.sample(s.log);
}

// ---- neighbours ----
struct Model {   // the regions that cannot be told apart from the original one by the precise clocks
  V orig; std::set<int> P; std::map<std::string, V> nb;
  int n() const { return (int) orig.size(); }
  static long diffFloor(long a, long b) { long x = a - b; return x >= 0 ? x / U : -((-x + U - 1) / U); }
  static bool sameDiff(const V &x, const V &y, int i, int j) { long a = x[i] - x[j], b = y[i] - y[j]; return diffFloor(x[i], x[j]) == diffFloor(y[i], y[j]) && (a % U == 0) == (b % U == 0); }
  void follow() {   // keeps what time makes of the neighbours while the precise clocks are where those of the original are
    std::map<std::string, V> r; Box b = boxAt(orig);
    for (auto &[k, x] : nb) for (V y = x;;) {
      bool over = false, same = true; for (int i : P) { Iv u = unit(y[i]); if (u.hi > b[i].hi || (u.hi == b[i].hi && u.hc && !b[i].hc)) over = true; if (!(u == b[i])) same = false; if (y[i] > b[i].hi) over = true; }
      if (over) break; if (same) r[key(y)] = y; y = nextRegion(y);
    }
    nb = r;
  }
  void init(const V &x, const std::set<int> &p) {
    orig = canon(x); P.clear(); for (int i : p) P.insert(i); nb.clear(); int k = n();
    V y(k); std::function<void(int)> rec = [&](int i) {
      if (i == k) { for (int a = 0; a < k; ++a) for (int b = a + 1; b < k; ++b) if (P.count(a) == P.count(b) && !sameDiff(orig, y, a, b)) return;
        V z = canon(y); nb[key(z)] = z; return; }
      if (orig[i] % U == 0) { y[i] = orig[i]; rec(i + 1); } else for (int f = 1; f <= 2 * k; ++f) { y[i] = orig[i] / U * U + U / 16 * f; rec(i + 1); }
    };
    rec(0); for (int i = 0; i < k; ++i) if (orig[i] % U == 0) P.insert(i);
    if (!P.empty()) follow();
  }
  Box relaxed() const { Box b; for (auto &[k, x] : nb) { Box t = boxAt(x); if (b.empty()) b = t; else for (size_t i = 0; i < b.size(); ++i) b[i] = hull(b[i], t[i]); } return b; }
  std::string text() const { std::string s = show(orig) + " precise"; for (int i : P) s += " x" + std::to_string(i); return s + ", " + std::to_string(nb.size()) + " neighbours"; }
};
static bool agree(S &s, const NeighborConditions &N, const Model &M, const char *what) {
  auto bad = [&](const std::string &w) { return s.c.fail(std::string("neighbours/") + what, std::string(what) + ": " + w + "\n" + M.text() + "\n" + s.log); };
  s.c.ev("neighbour_sets"); if (M.nb.size() > 1) s.c.ev("neighbour_sets_with_others"); int n = M.n();
  if ((int) N.getClockSize() != n) return bad("number of clocks");
  Box o = boxOf(N.toOriginalGuard(), n), r = boxOf(N.toRelaxedGuard(), n), w = M.relaxed();
  if (!normal(o, boxAt(M.orig))) return bad("the guard of the original is " + show(o));
  if (!normal(r, w)) return bad("the relaxed guard is " + show(r) + " and should be " + show(w));
  if (!(w == boxAt(M.orig))) s.c.ev("guards_relaxed");
  if (N.precise() != (M.nb.size() == 1)) return bad("precise()");
  std::vector<ClockVariables> im; for (int i = 0; i < n; ++i) if (!M.P.count(i)) im.push_back((ClockVariables) i);
  if (N.impreciseClocks() != im) return bad("impreciseClocks()");
  V v; if (!ticks(N.toOriginalValuation(), v) || !inRegion(v, M.orig)) return bad("the valuation " + show(v) + " is not in the region");
  V u; if (!ticks(N.toOriginalValuation((size_t) n + 2), u) || (int) u.size() != n + 2) return bad("the valuation of a given size"); u.resize(n); if (u != v) return bad("the valuation of a given size");
  for (int rep = 0; rep < 2; ++rep) {   // guards around
    std::vector<Constraint> g; for (int i = 0; i < n; ++i) { long k = M.orig[i] / U; auto m = ConstraintMaker((ClockVariables) i); if (s.c.r.chance(1, 3)) { long q = k - s.c.r.in(-1, 1); if (s.c.r.chance(1, 2)) { if (q > 0) g.push_back(m >= (int) q); } else g.push_back(m > (int) std::max(0L, q)); } if (s.c.r.chance(1, 3)) g.push_back(s.c.r.chance(1, 2) ? m <= (int) (k + s.c.r.in(0, 2)) : m < (int) (k + s.c.r.in(1, 2))); }
    bool want = sub(boxAt(M.orig), boxOf(g, n)); s.c.ev("guards_matched"); if (N.match(g) != want) { std::ostringstream q; q << g; return bad("match(" + q.str() + ")"); }
    if (N.match(TATransition{nullptr, Resets{}, g}) != want) return bad("match of a transition");
  }
  return true;
}
static void neighbours(Ctx &c) {
  S s{c, "", c.r.in(1, 2)};
  int n = c.r.in(2, 3); V x = s.gen(n); std::set<int> P; for (int i = 0; i < n; ++i) if (c.r.chance(1, 2)) P.insert(i); if (P.empty()) P.insert(c.r.in(0, n - 1));
  std::vector<ClockVariables> pv; for (int i : P) pv.push_back((ClockVariables) i);
  auto w = s.word(n); F f = s.lang(w, x); s.log = show(x) + " by " + w + "\n"; Model M; M.init(x, P);
  NeighborConditions N = c.r.chance(1, 2) ? NeighborConditions{f, pv} : NeighborConditions{f, std::unordered_set<ClockVariables>(pv.begin(), pv.end())};
  if (!agree(s, N, M, "construction")) return;
  if (!(N == NeighborConditions{f, pv}) || N != NeighborConditions{f, pv}) { c.fail("neighbours/equality", s.log); return; }
  int steps = c.r.in(2, 8);
  for (int k = 0; k < steps; ++k) {
    int op = c.r.in(0, 9);
    if (op < 5) { s.log += "time\n"; if (c.r.chance(1, 2)) N.successorAssign(); else N = N.successor(); M.orig = nextRegion(M.orig); M.follow(); if (!agree(s, N, M, "time")) return; c.ev("time_steps"); }
    else if (op < 6 && M.n() < 4) {
      char e = "ab"[c.r.in(0, 1)]; s.log += std::string("event ") + e + "\n"; N = N.successor(e); M.orig.push_back(0); std::map<std::string, V> r; for (auto &[kk, y] : M.nb) { V z = y; z.push_back(0); z = canon(z); r[key(z)] = z; } M.nb = r; M.P.insert(M.n() - 1);
      w.push_back(e); if (!agree(s, N, M, "event")) return; c.ev("events");
    } else if (op < 7) {   // the newest clocks restarted
      int from = c.r.in(0, M.n() - 1); Resets r; for (int i = from; i < M.n(); ++i) r.emplace_back((ClockVariables) i, 0.0); s.log += "restart from x" + std::to_string(from) + "\n";
      auto q = N.applyResets(r); Model T = M; for (int i = from; i < T.n(); ++i) { T.orig[i] = 0; T.P.insert(i); } T.orig = canon(T.orig); T.nb.clear();
      for (auto &[kk, y] : M.nb) { V z = y; for (int i = from; i < T.n(); ++i) z[i] = 0; z = canon(z); T.nb[key(z)] = z; } bool one = T.nb.size() == 1;
      if (!one || M.nb.size() == 1) { if (!agree(s, q, T, "restart")) return; N = q; M = T; c.ev("restarts"); }   // precise() may count a region twice
      else { Box g = boxOf(q.toRelaxedGuard(), T.n()); if (!normal(g, T.relaxed())) { c.fail("neighbours/restart", "the relaxed guard is " + show(g) + "\n" + s.log); return; } c.ev("restarts"); return; }
    } else if (op < 8) {   // other precise clocks
      std::set<int> Q; for (int i = 0; i < M.n(); ++i) if (c.r.chance(1, 2)) Q.insert(i); if (Q.empty()) Q.insert(M.n() - 1);
      std::unordered_set<ClockVariables> q; for (int i : Q) q.insert((ClockVariables) i); if (c.r.chance(1, 2)) q.insert((ClockVariables) (M.n() + 1)); s.log += "other precise clocks\n";
      N = N.reconstruct(q); V o = M.orig; M.init(o, Q); if (!agree(s, N, M, "reconstruct")) return; c.ev("reconstructed");
    } else {   // a transition of an automaton
      auto tgt = std::make_shared<TAState>(); char e = "ab"[c.r.in(0, 1)];
      if (c.r.chance(1, 4)) {
        TATransition t{tgt.get(), Resets{{(ClockVariables) M.n(), 0.0}}, N.toOriginalGuard()}; if (M.n() >= 4) continue;
        tgt->next['a'].push_back(TATransition{tgt.get(), Resets{}, {ConstraintMaker((ClockVariables) M.n()) >= 1}});
        std::set<int> Q = M.P; Q.insert(M.n()); auto pa = N.preciseClocksAfterReset(t); std::set<int> got(pa.begin(), pa.end()); if (got != Q) { c.fail("neighbours/precise clocks", M.text() + "\n" + s.log); return; }
        s.log += "inner transition\n"; N = N.makeAfterTransition(e, t); V o = M.orig; o.push_back(0); M.init(o, Q); if (!agree(s, N, M, "inner transition")) return; c.ev("inner_transitions"); continue;
      }
      if (M.n() < 2) continue;   // a single clock is never uncertain next to a precise one
      RenamingRelation R; V y = s.target(M.orig, R, true); int m = (int) y.size(); if (m > 3) continue;
      Resets r; for (int j = 0; j < m; ++j) { int i = -1; for (auto &q : R) if ((int) q.second == j) i = (int) q.first; if (i == j && c.r.chance(1, 2)) continue; if (i >= 0) r.emplace_back((ClockVariables) j, (ClockVariables) i); else r.emplace_back((ClockVariables) j, (double) y[j] / U); }
      if (c.r.chance(1, 4)) r.emplace_back((ClockVariables) (m + 1), 0.0);
      for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[c.r.next() % i]);
      tgt->next['a'].push_back(TATransition{tgt.get(), Resets{}, {ConstraintMaker((ClockVariables) (m - 1)) >= 1}});
      TATransition t{tgt.get(), r, N.toOriginalGuard()}; if (N.isInternal(t)) continue;
      std::set<int> Q; for (int j = 0; j < m; ++j) { bool set = false, pr = false; for (auto &[k2, v] : r) if (k2 == j) { set = true; pr = v.index() == 1 ? M.P.count(std::get<ClockVariables>(v)) > 0 : std::get<double>(v) == std::floor(std::get<double>(v)); } if (!set) pr = M.P.count(j) > 0; if (pr) Q.insert(j); }
      auto pa = N.preciseClocksAfterReset(t); std::set<int> got(pa.begin(), pa.end()); s.log += "transition " + show(r) + "into " + std::to_string(m) + " clocks\n"; c.ev("transitions_followed");
      if (got != Q) { c.fail("neighbours/precise clocks", "wrong precise clocks after the transition\n" + M.text() + "\n" + s.log); return; }
      if (NeighborConditions::computeTargetClockSize(t) != (size_t) m || NeighborConditions::computeClockSize(tgt.get()) != (size_t) m) { c.fail("neighbours/clock size", s.log); return; }
      auto A = N.makeAfterTransition(e, t); V v; if ((int) A.getClockSize() != m || !ticks(A.toOriginalValuation(), v)) { c.fail("neighbours/transition", "number of clocks\n" + s.log); return; }
      // some valuation of the original leads there
      D d(M.n() + m + 1); regionInto(d, 0, M.orig); regionInto(d, M.n(), v);
      for (int j = 0; j < m; ++j) { int b = M.n() + 1 + j; const std::variant<double, ClockVariables> *z = nullptr; for (auto &q : r) if (q.first == j) z = &q.second;
        if (z && z->index() == 0) { long k2 = (long) (std::get<double>(*z) * U); d.tighten(b, 0, {k2, true}); d.tighten(0, b, {-k2, true}); } else { int i = z ? (int) std::get<ClockVariables>(*z) : j; d.tighten(b, i + 1, {0, true}); d.tighten(i + 1, b, {0, true}); } }
      if (d.empty()) { c.fail("neighbours/transition", "no valuation of the original leads to " + show(v) + "\n" + M.text() + "\n" + s.log); return; }
      M.init(v, Q); if (!agree(s, A, M, "transition")) return; if (M.P.empty()) return; N = A;
    }
    if (M.P.empty()) return;
  }
  c.nontrivial(s.log); c.sample(s.log);
}

// guards relaxed for clocks that are not known exactly: nothing is taken away, and what the neighbours need is there
static void relaxing(Ctx &c) {
  S s{c, "", 1};
  struct Loc { std::shared_ptr<TAState> st; V x; std::string w; std::vector<V> chain; };
  int L = c.r.in(1, 3); std::vector<Loc> ls;
  for (int i = 0; i < L; ++i) {
    Loc l; l.st = std::make_shared<TAState>(c.r.chance(1, 2)); int n = c.r.in(2, 3); for (int tries = 0, open = c.r.in(0, 5) ? 2 : 0; tries < 20; ++tries) { l.x = s.gen(n); int k = 0; for (auto v : l.x) k += v % U != 0; if (k >= open) break; }
    l.w = s.word(n);
    V y = canon(l.x); if (c.r.chance(1, 6)) y = nextRegion(y); for (int k = c.r.in(1, 5); k >= 0; --k) { l.chain.push_back(y); y = nextRegion(y); } ls.push_back(l);
  }
  auto guard = [&](const V &x, bool open) { auto g = s.lang(std::string(x.size() - 1, 'a'), x).getTimedCondition().toGuard(); if (open) g.erase(std::remove_if(g.begin(), g.end(), [](auto &k) { return k.isUpperBound(); }), g.end()); return g; };
  std::string t;
  for (auto &l : ls) for (char e : {'a', 'b'}) { if (e == 'b' && c.r.chance(1, 2)) continue;
    for (size_t k = 0; k < l.chain.size(); ++k) {
      auto &tg = ls[c.r.next() % ls.size()]; const V &x = l.chain[k]; Resets r;
      for (size_t j = 0; j < tg.x.size(); ++j) { int i = -1; for (size_t q = 0; q < x.size(); ++q) if (unit(x[q]) == unit(tg.x[j]) && c.r.chance(3, 4)) i = (int) q; if (tg.x[j] % U == 0 || i < 0) r.emplace_back((ClockVariables) j, (double) tg.x[j] / U); else r.emplace_back((ClockVariables) j, (ClockVariables) i); }
      // only updates that keep the order of the clocks for every value
      V z; bool copies = false; for (auto &q : r) copies |= q.second.index() == 1; if (copies && c.r.chance(1, 2)) { r.clear(); for (size_t j = 0; j < tg.x.size(); ++j) r.emplace_back((ClockVariables) j, (double) tg.x[j] / U); }
      D d((int) x.size() + 1); regionInto(d, 0, x); bool ok = true; for (size_t j = 0; j + 1 < r.size(); ++j) {   // value j >= value j+1 everywhere
        auto ub = [&](size_t k1) { return r[k1].second.index() == 1 ? unit(x[std::get<ClockVariables>(r[k1].second)]) : Iv{(long) (std::get<double>(r[k1].second) * U), (long) (std::get<double>(r[k1].second) * U), true, true}; };
        bool both = r[j].second.index() == 1 && r[j + 1].second.index() == 1; if (both) ok &= std::get<ClockVariables>(r[j].second) <= std::get<ClockVariables>(r[j + 1].second); else ok &= ub(j).lo >= ub(j + 1).hi; }
      if (!ok) { r.clear(); for (size_t j = 0; j < tg.x.size(); ++j) r.emplace_back((ClockVariables) j, (double) (tg.x[j] / U)); }
      l.st->next[e].push_back(TATransition{tg.st.get(), r, guard(x, k + 1 == l.chain.size())});
    } }
  for (auto &l : ls) { t += "location " + show(l.x) + "\n"; for (auto &[e, ts] : l.st->next) for (auto &q : ts) t += std::string(" ") + e + " " + show(boxOf(q.guard, (int) l.x.size())) + show(q.resetVars) + "\n"; }
  s.log = t;
  std::map<TAState *, std::map<char, std::vector<TATransition>>> before; for (auto &l : ls) for (auto &[e, ts] : l.st->next) before[l.st.get()][e] = ts;
  learnta::ImpreciseClockHandler h; std::vector<std::tuple<Loc *, Model>> pushed; std::vector<std::pair<TAState *, NeighborConditions>> todo; int k = c.r.in(1, 3);
  for (int i = 0; i < k; ++i) {
    auto &l = ls[c.r.next() % ls.size()]; int n = (int) l.x.size(); RenamingRelation R; std::set<int> Q; auto f = s.lang(l.w, l.x); bool imp = false, want = c.r.chance(5, 6);
    for (int tries = 0; tries < 8; ++tries) { R.clear(); Q.clear(); for (int j = 0; j < n; ++j) if (c.r.chance(1, 2)) { R.emplace_back(c.r.in(0, 2), j); Q.insert(j); } imp = R.hasImpreciseClocks(f.getTimedCondition()); if (imp || !want) break; }
     h.push(l.st.get(), R, f); s.log += "push " + show(l.x) + " " + show(R) + "\n"; if (imp) { Model M; M.init(l.x, Q); pushed.emplace_back(&l, M); todo.emplace_back(l.st.get(), NeighborConditions{f, R.rightVariables()}); }
  }
  h.run(); c.ev("relaxations"); if (pushed.empty()) c.ev("nothing_to_relax");
  auto bad = [&](const std::string &w) { c.fail("relaxing", w + "\n" + s.log); };
  decltype(before) added;
  for (auto &l : ls) for (auto &[e, ts] : l.st->next) {
    auto &old = before[l.st.get()][e]; if (ts.size() < old.size()) return bad("a transition is lost"); int n = (int) l.x.size();
    std::vector<bool> used(ts.size()); auto &nw = added[l.st.get()][e];
    for (auto &o : old) { bool f = false; for (size_t i = 0; i < ts.size() && !f; ++i) if (!used[i] && ts[i].target == o.target && ts[i].resetVars == o.resetVars && normal(boxOf(ts[i].guard, n), boxOf(o.guard, n))) used[i] = f = true; if (!f) return bad("a transition changed"); }
    for (size_t i = 0; i < ts.size(); ++i) if (!used[i]) {
      nw.push_back(ts[i]); c.ev("relaxed_transitions"); bool f = false; for (auto &o : old) f |= o.target == ts[i].target && sub(boxOf(o.guard, n), boxOf(ts[i].guard, n)); if (!f) return bad("a new transition relaxes none of the old");
    }
    if (pushed.empty() && ts.size() != old.size()) return bad("a transition without need");
  }
  for (auto &l : ls) for (auto &[e, ts] : before[l.st.get()]) if (!l.st->next.count(e)) return bad("transitions are lost");
  // what the pushed neighbours reach in their own location
  for (auto &[l, M0] : pushed) {
    Model M = M0;
    for (size_t i = 0; i < l->chain.size(); ++i) {
      Box b = boxAt(M.orig), need = M.relaxed(); int n = M.n();
      for (auto &[e, old] : before[l->st.get()]) for (size_t oi = 0; oi < old.size(); ++oi) {
        auto &o = old[oi]; Box g = boxOf(o.guard, n); if (!sub(b, g)) continue; c.ev("matched_transitions"); bool up = std::any_of(o.guard.begin(), o.guard.end(), [](auto &k2) { return k2.isUpperBound(); });
        Box want = need; if (!up) for (auto &iv : want) { iv.hi = INF; iv.hc = false; }
        if (!sub(g, want) || normal(g, want)) continue; c.ev("relaxations_needed");
        bool f = false; auto &ts = added[l->st.get()][e]; for (size_t j = 0; j < ts.size() && !f; ++j) if (ts[j].target == o.target && normal(boxOf(ts[j].guard, n), want)) {
          // clocks known exactly after the step keep their update, the others take a value of the region
          TATransition tt = o; std::unordered_set<ClockVariables> P; for (int q : M.P) P.insert((ClockVariables) q); auto pa = NeighborConditions::preciseClocksAfterReset(P, tt); V x0, y0, y1; x0 = M.orig; x0.resize(5, 0); bool okc = true;
          if (!apply(o.resetVars, x0, y0, 5) || !apply(ts[j].resetVars, x0, y1, 5)) continue; for (auto q : pa) okc &= y0[q] == y1[q]; f = okc;
        }
        if (!f) return bad("no transition for what the neighbours " + M.text() + " can do: " + show(want));
      }
      M.orig = nextRegion(M.orig); M.follow();
    }
  }
  // and what they reach in the locations they lead to, with the neighbours as they are checked above
  std::vector<std::pair<TAState *, NeighborConditions>> seen; size_t direct = todo.size();
  for (size_t q = 0; q < todo.size() && q < 60; ++q) {
    auto [st, N] = todo[q]; if (std::any_of(seen.begin(), seen.end(), [&, st = st, &N = N](auto &o) { return o.first == st && o.second == N; })) continue; seen.emplace_back(st, N);
    bool any = false, more = true; if (q >= direct) c.ev("locations_reached_inexactly");
    for (int i = 0; more && i < 40; ++i) {
      int n = (int) N.getClockSize(); Box b = boxOf(N.toOriginalGuard(), n), need = boxOf(N.toRelaxedGuard(), n); bool bounded = false, now = false;
      for (auto &[e, old] : before[st]) for (auto &o : old) {
        Box g = boxOf(o.guard, n); if (!sub(b, g)) continue; bool up = std::any_of(o.guard.begin(), o.guard.end(), [](auto &k2) { return k2.isUpperBound(); }); now = true; bounded |= up;
        Box want = need; if (!up) for (auto &iv : want) { iv.hi = INF; iv.hc = false; }
        if (!sub(g, want) || normal(g, want)) continue;
        auto pa = N.preciseClocksAfterReset(o); if (q >= direct) c.ev(any ? "relaxations_further_on" : "relaxations_on_arrival"); bool f = false;
        for (auto &x : added[st][e]) if (x.target == o.target && normal(boxOf(x.guard, n), want)) {
          V x0(5, 0), y0, y1; if (!apply(o.resetVars, x0, y0, 5) || !apply(x.resetVars, x0, y1, 5)) continue; bool okc = true; for (auto z : pa) okc &= y0[z] == y1[z]; f |= okc;
        }
        if (!f) { std::ostringstream os; os << N; return bad("no transition for what the neighbours reached later can do: " + show(want) + " on " + e + "\n" + os.str()); }
        if (pa.empty()) continue; auto A = N.makeAfterTransition(e, o); if (!A.precise()) todo.emplace_back(o.target, A);
      }
      if (now && !any && i) c.ev("waited_for_the_first_match"); any |= now; more = bounded || !any; if (more) N.successorAssign();
    }
  }
  c.nontrivial(s.log); c.sample(s.log);
}

// operations on the transitions of a state
static void states(Ctx &c) {
  S s{c, "", 3};
  std::vector<std::shared_ptr<TAState>> tg; for (int i = 0; i < 2; ++i) tg.push_back(std::make_shared<TAState>(true));
  TAState st(false); int clk = c.r.in(1, 2); std::string t; bool apart = c.r.chance(1, 3);
  for (char e : {'a', 'b'}) for (int k = c.r.in(0, 4), i = 0; i < k; ++i) {
    std::vector<Constraint> g;
    if (apart) { int z = 0; auto m = ConstraintMaker((ClockVariables) z); if (i) g.push_back(m >= i); if (i + 1 < k || c.r.chance(1, 2)) g.push_back(m < i + 1); if (clk > 1 && c.r.chance(1, 3)) g.push_back(ConstraintMaker(1) <= c.r.in(1, 3)); }
    else for (int z = 0; z < clk; ++z) { auto m = ConstraintMaker((ClockVariables) z); int lo = c.r.in(0, 3), hi = lo + c.r.in(0, 2); bool lc = c.r.chance(1, 2), hc = c.r.chance(1, 2); if (lo == hi) lc = hc = true; if (c.r.chance(1, 2) && (lo || !lc)) g.push_back(lc ? m >= lo : m > lo); if (c.r.chance(1, 2)) g.push_back(hc ? m <= hi : m < hi); }
    if (!g.empty() && c.r.chance(1, 5)) g.push_back(g.front());
    Resets r; if (c.r.chance(1, 2)) r.emplace_back((ClockVariables) 0, c.r.chance(1, 2) ? 0.0 : 0.5); if (c.r.chance(1, 3)) r.emplace_back((ClockVariables) 1, (ClockVariables) 0);
    auto &q = st.next[e]; if (!q.empty() && c.r.chance(1, 6)) q.push_back(q[c.r.next() % q.size()]); else q.push_back(TATransition{tg[c.r.in(0, 1)].get(), r, g});
    std::ostringstream o; o << e << " " << show(boxOf(q.back().guard, clk)) << (q.back().target == tg[0].get() ? "p" : "q") << "\n"; t += o.str();
  }
  s.log = t; std::vector<V> grid; for (long a = 0; a <= 6 * U; a += U / 2) { if (clk == 1) grid.push_back({a}); else for (long b = 0; b <= 6 * U; b += U / 2) grid.push_back({a, b}); }
  auto on = [&](const TATransition &q, const V &v) { Box b = boxOf(q.guard, clk); for (size_t i = 0; i < b.size(); ++i) if (!in(v[i], b[i])) return false; return true; };
  auto bad = [&](const char *k, const std::string &w) { c.fail(k, std::string(k) + ": " + w + "\n" + s.log); };
  bool det = true; for (auto &[e, ts] : st.next) for (auto &v : grid) { int k = 0; for (auto &q : ts) k += on(q, v); det &= k <= 1; }
  c.ev("states_judged"); c.ev(det ? "states_deterministic" : "states_nondeterministic"); c.ev("valuations_tried", (long) grid.size());
  if (st.deterministic() != det) return bad("deterministic", det ? "no value enables two transitions" : "a value enables two transitions");
  TimedAutomaton A; A.states.push_back(std::make_shared<TAState>(true)); A.states.push_back(std::make_shared<TAState>(st)); A.initialStates.push_back(A.states[0]); if (A.deterministic() != det) return bad("deterministic", "the automaton");
  bool split = false; for (auto &[e, ts] : st.next) for (size_t i = 0; i < ts.size(); ++i) for (size_t j = i + 1; j < ts.size(); ++j) if (ts[i].target != ts[j].target) {
    bool both = false; for (auto &v : grid) both |= on(ts[i], v) && on(ts[j], v); if (!both) continue;
    auto simple = [&](const TATransition &q) { Box b = boxOf(q.guard, clk); std::set<int> r; for (size_t k = 0; k < b.size(); ++k) if (b[k].hi < INF && ((b[k].lo == b[k].hi) || (b[k].hi == b[k].lo + U && !b[k].lc && !b[k].hc))) r.insert((int) k); return r; };
    if (simple(ts[i]) != simple(ts[j])) split = true;
  }
  if (st.needSplitting() != split) return bad("needSplitting", split ? "missed" : "without need");
  auto same = [&](const TAState &x, bool perTarget, bool grow, bool few) {   // what is enabled afterwards
    for (auto &[e, ts] : st.next) { if (!x.next.count(e) && !ts.empty()) return false; for (auto &v : grid) for (int k = 0; k < (perTarget ? 2 : 1); ++k) { bool b = false, a = false;
      for (auto &q : ts) b |= on(q, v) && (!perTarget || q.target == tg[k].get()); if (x.next.count(e)) for (auto &q : x.next.at(e)) a |= on(q, v) && (!perTarget || q.target == tg[k].get());
      if (b && !a) return false; if (a && !b && !grow) return false; } if (few && x.next.count(e) && x.next.at(e).size() > ts.size()) return false; }
    return true;
  };
  auto kept = [&](const TAState &x) {   // the same transitions, in any order
    for (auto &[e, ts] : st.next) { if (!x.next.count(e)) { if (!ts.empty()) return false; continue; } auto &u = x.next.at(e); if (u.size() != ts.size()) return false; std::vector<bool> used(u.size());
      for (auto &q : ts) { bool f = false; for (size_t i = 0; i < u.size() && !f; ++i) if (!used[i] && u[i].target == q.target && u[i].resetVars == q.resetVars && normal(boxOf(u[i].guard, clk), boxOf(q.guard, clk))) used[i] = f = true; if (!f) return false; } }
    return true;
  };
  { TAState x = st; x.removeTransitionsWithWeakerGuards(); if (!same(x, true, false, true)) return bad("removeTransitionsWithWeakerGuards", "what is enabled changed"); for (auto &[e, ts] : x.next) { for (auto &q : ts) { bool f = false; for (auto &o : st.next.at(e)) f |= o == q; if (!f) return bad("removeTransitionsWithWeakerGuards", "a new transition"); for (auto &p : ts) if (p != q && p.target == q.target && sub(boxOf(q.guard, clk), boxOf(p.guard, clk))) return bad("removeTransitionsWithWeakerGuards", "a redundant one is left"); } } c.ev("states_reduced"); }
  { TAState x = st; x.mergeNondeterministicBranchingWithSameTarget(); if (!same(x, true, true, true)) return bad("mergeNondeterministicBranchingWithSameTarget", "a transition is lost"); if (det && !kept(x)) return bad("mergeNondeterministicBranchingWithSameTarget", "nothing had to be merged"); }
  { TAState x = st; x.mergeNondeterministicBranching(); if (!same(x, false, true, true)) return bad("mergeNondeterministicBranching", "a transition is lost"); if (det && !kept(x)) return bad("mergeNondeterministicBranching", "nothing had to be merged"); c.ev("states_merged"); }
  { TAState x = st; std::unordered_set<ClockVariables> P; for (int i = 0; i < clk; ++i) if (c.r.chance(1, 2)) P.insert((ClockVariables) i); x.mergeNondeterministicBranching(P); if (det && !kept(x)) return bad("mergeNondeterministicBranching(precise)", "nothing had to be merged"); }
  for (auto &[e, ts] : st.next) for (size_t i = 0; i + 1 < ts.size(); ++i) {
    auto m = ts[i].merge(ts[i + 1]); c.ev("pairs_merged"); if (m.target != ts[i + 1].target || m.resetVars != ts[i + 1].resetVars) return bad("merge", "target or updates"); for (auto &v : grid) if ((on(ts[i], v) || on(ts[i + 1], v)) && !on(m, v)) return bad("merge", "a value is lost");
    if (ts[i].mergeable(ts[i + 1])) { c.ev("pairs_mergeable"); if (ts[i].target != ts[i + 1].target || ts[i].resetVars != ts[i + 1].resetVars) return bad("mergeable", "different targets or updates"); }
  }
  c.nontrivial(s.log); c.sample(s.log);
}
int main(int ac, char **av) {
  return drive(ac, av, {{"moves", moves, 8000, 80000}, {"renamings", renamings, 12000, 120000}, {"updates", updates, 8000, 80000},
                        {"neighbours", neighbours, 4000, 40000}, {"relaxing", relaxing, 1500, 15000}, {"states", states, 6000, 60000}});
}
