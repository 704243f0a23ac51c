// C15: regions of timed words, moved step by step together with a concrete word of theirs.
#include "drv.hh"
#include "dbm.hh"
#include "forward_regional_elementary_language.hh"
#include "backward_regional_elementary_language.hh"
using namespace hn;
using dbm::D;
using learnta::Bounds; using learnta::TimedCondition; using learnta::ElementaryLanguage;
using learnta::ForwardRegionalElementaryLanguage; using learnta::BackwardRegionalElementaryLanguage;
static const long U = 1L << 30;  // ticks in a time unit: durations stay exact under the small shifts below

using Dur = std::vector<long>;
struct W { std::string w; Dur d; };
static TimedWord tw(const W &x) { std::vector<double> d; for (long t : x.d) d.push_back((double) t / U); return TimedWord{x.w, d}; }
static std::string show(const W &x) { std::ostringstream o; o << x.d[0] / (double) U; for (size_t i = 0; i < x.w.size(); ++i) o << " " << x.w[i] << " " << x.d[i + 1] / (double) U; return o.str(); }
static std::vector<long> fromEnd(const W &x) { std::vector<long> p(x.d.size() + 1, 0); long s = 0; for (size_t i = x.d.size(); i-- > 0;) { s += x.d[i]; p[i + 1] = s; } return p; }
static std::vector<long> fromStart(const W &x) { std::vector<long> p; long s = 0; for (long t : x.d) { s += t; p.push_back(s); } return p; }
static D simpleD(const std::vector<long> &p) {
  int n = (int) p.size() - 1; D d(n + 1);
  for (int i = 1; i <= n; ++i) for (int e = 0; e <= n; ++e) if (e == 0 || e > i) {
    long x = p[i] - p[e], f = x / U * U;
    if (x == f) { d.tighten(i, e, {f, true}); d.tighten(e, i, {-f, true}); } else { d.tighten(i, e, {f + U, false}); d.tighten(e, i, {-f, false}); }
  }
  d.close(); return d;
}
static D read(const TimedCondition &c) {
  int n = (int) c.size(); D d(n + 1);
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
    Bounds u = c.getUpperBound(i, j), l = c.getLowerBound(i, j); int e = j == n - 1 ? 0 : j + 2;
    if (u.first < 1e9) d.tighten(i + 1, e, {(long) std::floor(u.first * U), u.second});
    if (l.first < 1e9) d.tighten(e, i + 1, {(long) std::floor(l.first * U), l.second});
  }
  for (int i = 1; i <= n; ++i) d.tighten(i < n ? i + 1 : 0, i, {0, true});
  d.close(); return d;
}
// time passes until the next region: the smallest change of every value `v` with the sign given
static long step(const std::vector<long> &v) {  // amount for increasing values
  long mx = 0; bool onInt = false, first = true; long toNext = U;
  for (long x : v) { long f = x % U; if (f == 0) onInt = true; mx = std::max(mx, f); toNext = std::min(toNext, U - f); first = false; }
  (void) first; return onInt ? toNext / 2 : toNext;
}
static long stepDown(const std::vector<long> &v) {
  bool onInt = false; long mn = U; for (long x : v) { long f = x % U; if (f == 0) onInt = true; else mn = std::min(mn, f); }
  return onInt ? mn / 2 : mn;
}
static std::vector<long> tailOf(const std::vector<long> &p) { return std::vector<long>(p.begin() + 1, p.end()); }
struct S {
  Ctx &c; std::string log;
  template<class L> bool holds(const L &l, const W &x, const char *what) {
    c.ev("regions_compared");
    D want = simpleD(fromEnd(x)), got = read(l.getTimedCondition());
    if (l.getWord() != x.w || got.emptyClosed() || !got.equal(want))
      return c.fail(what, std::string(what) + ": not the region of [" + show(x) + "]\nexpected " + want.show(U) + "\ngot [" + l.getWord() + "] " + got.show(U) + "\n" + log);
    if (!l.contains(tw(x))) return c.fail(what, std::string(what) + ": the word [" + show(x) + "] is not in its region\n" + log);
    L f = L::fromTimedWord(tw(x));
    if (!(l == f)) { std::ostringstream o; l.print(o); o << "\nvs\n"; f.print(o); return c.fail(what, std::string(what) + ": differs from the region of [" + show(x) + "]\n" + o.str() + "\n" + log); }
    if (!l.isSimple()) return c.fail(what, std::string(what) + ": the region is not simple\n" + log);
    auto s = l.sample(); c.ev("samples");
    if (!(L::fromTimedWord(s) == l)) { std::ostringstream o; o << s; return c.fail("sample", std::string(what) + ": the sample " + o.str() + " has another region\n" + log); }
    return true;
  }
  W gen(int maxLen) {
    W x; int n = c.r.in(0, maxLen); int den = 1 << c.r.in(0, 3); bool fine = c.r.chance(1, 3); if (fine) c.ev("almost_equal_fractions");
    for (int i = 0; i <= n; ++i) { x.d.push_back(c.r.chance(1, 5) ? 0 : c.r.chance(1, 3) ? U * c.r.in(0, 2) : (U / den) * c.r.in(0, 3 * den)); if (fine && c.r.chance(1, 2)) x.d.back() = std::max(0L, x.d.back() + (c.r.chance(1, 2) ? 1 : -1) * (U >> c.r.in(5, 14))); if (i < n) x.w += "ab"[c.r.in(0, 1)]; }
    return x;
  }
};

static void forwardWalk(Ctx &c) {
  S s{c, ""}; W x = s.gen(3); s.log = "start " + show(x) + "\n";
  auto L = ForwardRegionalElementaryLanguage::fromTimedWord(tw(x)); if (!s.holds(L, x, "fromTimedWord")) return;
  std::vector<std::pair<ForwardRegionalElementaryLanguage, W>> seen{{L, x}};
  int steps = c.r.in(4, c.thorough ? 24 : 14);
  for (int k = 0; k < steps; ++k) {
    bool halfLeft = true; for (long t : x.d) if (t & 15) halfLeft = false;
    if (c.r.chance(2, 3) && halfLeft) {
      x.d.back() += step(tailOf(fromEnd(x))); c.ev("time_successors"); s.log += "delay -> " + show(x) + "\n";
      auto old = L; if (c.r.chance(1, 2)) L = L.successor(); else L.successorAssign();
      if (!s.holds(L, x, "time successor")) return;
      if (old == L) { c.fail("time successor", "it equals the region before\n" + s.log); return; }
    } else if (x.w.size() < 6) {
      char a = "ab"[c.r.in(0, 1)]; x.w += a; x.d.push_back(0); c.ev("discrete_successors"); s.log += std::string("event ") + a + "\n";
      L = L.successor(a); if (!s.holds(L, x, "discrete successor")) return;
    }
    if (L.hasEqualityN() != [&] { auto p = fromEnd(x); for (size_t i = 1; i < p.size(); ++i) if (p[i] % U == 0) return true; return false; }()) { c.fail("hasEqualityN", s.log); return; }
    seen.emplace_back(L, x);
  }
  // prefixes: from the empty word up, each the immediate predecessor of the next
  auto pre = L.prefixes(); W y = x; std::string l0 = s.log;
  for (size_t i = pre.size(); i-- > 0;) {
    s.log = l0 + "prefix number " + std::to_string(i) + "\n"; c.ev("prefixes");
    if (!s.holds(pre[i], y, "prefixes")) return;
    if (i == 0) { if (!y.w.empty() || y.d[0]) { c.fail("prefixes", "the shortest prefix is not the empty word\n" + s.log); return; } break; }
    if (y.d.back() == 0) { if (y.w.empty()) { c.fail("prefixes", "too many prefixes\n" + s.log); return; } y.w.pop_back(); y.d.pop_back(); }
    else { auto p = fromEnd(y); y.d.back() -= stepDown(tailOf(p)); bool odd = false; for (long t : y.d) if (t & 3) odd = true; if (odd) { y = y; break; } }
  }
  s.log = l0;
  if (L.immediatePrefix().has_value() != !(x.w.empty() && x.d[0] == 0)) { c.fail("immediatePrefix", s.log); return; }
  // suffixes after each prefix
  for (int rep = 0; rep < 4; ++rep) {
    auto &p = pre[c.r.next() % pre.size()]; auto suf = L.suffix(p); c.ev("suffixes");
    std::string ctx = [&] { std::ostringstream o; o << "word "; L.print(o); o << "\nprefix "; p.print(o); o << "\nsuffix "; suf.print(o); return o.str(); }();
    if (suf.getWord() != x.w.substr(p.wordSize())) { c.fail("suffix", "wrong events\n" + ctx); return; }
    auto t = suf.sample();
    if (!(BackwardRegionalElementaryLanguage::fromTimedWord(t) == suf)) { c.fail("suffix", "the suffix is not the region of its words\n" + ctx); return; }
    D big = read(p.getTimedCondition() + suf.getTimedCondition()), mine = read(L.getTimedCondition());
    if (!big.includes(mine)) { c.fail("suffix", "prefix and suffix do not cover the region\n" + big.show(U) + "\n" + mine.show(U) + "\n" + ctx); return; }
  }
  c.nontrivial(s.log); c.sample(s.log);
}

static void backwardWalk(Ctx &c) {
  S s{c, ""}; W x = s.gen(3); s.log = "start " + show(x) + "\n";
  auto L = BackwardRegionalElementaryLanguage::fromTimedWord(tw(x)); if (!s.holds(L, x, "fromTimedWord (backward)")) return;
  int steps = c.r.in(4, c.thorough ? 24 : 14);
  for (int k = 0; k < steps; ++k) {
    bool halfLeft = true; for (long t : x.d) if (t & 15) halfLeft = false;
    if (c.r.chance(2, 3) && halfLeft) {
      x.d.front() += step(fromStart(x)); c.ev("time_predecessors"); s.log += "earlier -> " + show(x) + "\n";
      L = L.predecessor(); if (!s.holds(L, x, "time predecessor")) return;
    } else if (x.w.size() < 6) {
      char a = "ab"[c.r.in(0, 1)]; x.w = a + x.w; x.d.insert(x.d.begin(), 0); c.ev("discrete_predecessors"); s.log += std::string("event before ") + a + "\n";
      L = L.predecessor(a); if (!s.holds(L, x, "discrete predecessor")) return;
    }
  }
  c.nontrivial(s.log); c.sample(s.log);
}

// two words have the same region exactly when no bound on sums of consecutive durations separates them
static void partition(Ctx &c) {
  S s{c, ""}; int n = c.r.in(0, 3); std::vector<W> ws;
  int m = c.r.in(4, 8); std::string w; for (int i = 0; i < n; ++i) w += "ab"[c.r.in(0, 1)];
  for (int k = 0; k < m; ++k) {
    W x; x.w = w; if (n && c.r.chance(1, 10)) x.w[c.r.in(0, n - 1)] = 'b';
    if (!ws.empty() && c.r.chance(1, 2)) { x = c.r.pick(ws); long e = U >> (c.r.chance(2, 3) ? c.r.in(2, 5) : c.r.in(6, 20)); for (auto &t : x.d) if (c.r.chance(1, 2)) t = std::max(0L, t + (c.r.chance(1, 2) ? e : -e)); }
    else for (int i = 0; i <= n; ++i) x.d.push_back((U / 8) * (c.r.chance(1, 3) ? 8 * c.r.in(0, 1) : c.r.in(0, 12)));
    ws.push_back(x);
  }
  std::map<std::string, int> classes;
  for (auto &a : ws) for (auto &b : ws) {
    bool same = a.w == b.w && simpleD(fromEnd(a)).equal(simpleD(fromEnd(b))); c.ev("word_pairs"); if (same) c.ev("same_region");
    auto fa = ForwardRegionalElementaryLanguage::fromTimedWord(tw(a)), fb = ForwardRegionalElementaryLanguage::fromTimedWord(tw(b));
    auto ba = BackwardRegionalElementaryLanguage::fromTimedWord(tw(a)), bb = BackwardRegionalElementaryLanguage::fromTimedWord(tw(b));
    std::string ctx = "[" + show(a) + "] and [" + show(b) + "] " + (same ? "should" : "should not") + " have the same region";
    if ((fa == fb) != same) { c.fail("partition (forward)", ctx); return; }
    if ((ba == bb) != same) { c.fail("partition (backward)", ctx); return; }
    if (fa.contains(tw(b)) != same || ba.contains(tw(b)) != same) { c.fail("partition (membership)", ctx); return; }
    if (same && (hash_value(fa) != hash_value(fb) || hash_value(ba) != hash_value(bb))) { c.fail("partition (hash)", ctx); return; }
    classes[a.w + simpleD(fromEnd(a)).show(U)]++;
  }
  std::string t; for (auto &a : ws) t += show(a) + "\n"; c.nontrivial(t); c.sample(t); c.ev("regions", (long) classes.size());
}
int main(int ac, char **av) {
  return drive(ac, av, {{"forward", forwardWalk, 8000, 80000}, {"backward", backwardWalk, 8000, 80000}, {"partition", partition, 3000, 30000}});
}
