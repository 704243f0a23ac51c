// C11: the conditions answered by symbolic membership queries, against every region of the queried set.
#include "drv.hh"
#include "dbm.hh"
#include "symbolic_membership_oracle.hh"
#include "forward_regional_elementary_language.hh"
#include "backward_regional_elementary_language.hh"
#include "timed_automaton_runner.hh"
using namespace hn;
using dbm::D;
using learnta::Bounds; using learnta::TimedCondition; using learnta::ElementaryLanguage; using learnta::TimedConditionSet;

// matrix over (0, T_{0,n}, ..., T_{n-1,n}); U ticks in a time unit
static D read(const TimedCondition &c, long U) {
  int n = (int) c.size(); D d(n + 1);
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
    Bounds u = c.getUpperBound(i, j), l = c.getLowerBound(i, j); int e = j == n - 1 ? 0 : j + 2;
    if (u.first < 1e9) d.tighten(i + 1, e, {(long) std::floor(u.first * (double) U), u.second});
    if (l.first < 1e9) d.tighten(e, i + 1, {(long) std::floor(l.first * (double) U), l.second});
  }
  for (int i = 1; i <= n; ++i) d.tighten(i < n ? i + 1 : 0, i, {0, true});
  d.close(); return d;
}
// the region of accumulated durations: for every sum of consecutive durations twice its value, or twice its floor plus one
static std::vector<long> region(const std::vector<double> &d) {
  std::vector<long> r;
  for (size_t i = 0; i < d.size(); ++i) { double s = 0; for (size_t j = i; j < d.size(); ++j) { s += d[j]; double q = std::round(s); r.push_back(std::fabs(s - q) < 1e-7 ? 2 * (long) q : 2 * (long) std::floor(s) + 1); } }
  return r;
}
struct Target {   // accepts or rejects whole regions
  int kind = 0; uint64_t salt = 0; int num = 1, den = 2; ref::TA ta; std::vector<std::vector<std::array<long, 3>>> boxes;  // kind 2: conjunctions of T_{i,j} <= or >= in half units
  bool operator()(const std::string &w, const std::vector<double> &d) const {
    auto r = region(d);
    if (kind == 0) { uint64_t h = fnv(w, 1469598103934665603ull ^ salt); for (long x : r) h = fnv(std::string((const char *) &x, sizeof x), h); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return (long) (h % (uint64_t) den) < num; }
    if (kind == 1) {   // an automaton, run on exact ticks
      ref::Word x; x.w = w; for (double t : d) x.d.push_back((long) std::llround(t * 27720)); ref::Runner R{ta}; return R.run(x);
    }
    for (auto &b : boxes) { bool in = true; for (auto &q : b) { long x = q[0] < (long) r.size() ? r[(size_t) q[0]] : 0; in = in && (q[1] ? x <= q[2] : x >= q[2]); } if (in) return true; }
    return false;
  }
};
struct Sys : learnta::SUL {
  const Target *t; std::string w; std::vector<double> d; size_t n = 0;
  void pre() override { w.clear(); d = {0}; ++n; } void post() override {}
  bool step(char a) override { w.push_back(a); d.push_back(0); return (*t)(w, d); }
  bool step(double x) override { d.back() += x; return (*t)(w, d); }
  size_t count() const override { return n; }
};

static void body(Ctx &c, int kind) {
  Target t; t.kind = kind; t.salt = c.r.next(); t.den = c.r.in(2, 10); t.num = c.r.in(1, t.den - 1); if (c.r.chance(1, 3)) t.num = t.den - 1;
  Gen g; std::string text;
  if (kind == 1) {
    GenCfg q; q.maxStates = c.r.in(1, 4); q.maxClocks = c.r.in(1, 3); q.maxConst = c.r.in(1, 3); q.letters = 2; q.copies = c.r.chance(1, 2); q.constResets = c.r.chance(1, 2); q.complete = c.r.chance(1, 2);
    g = genDTA(c.r, q); t.ta = convert(g.A, 27720).ta; text = dump(g.A);
  }
  if (kind == 2) for (int b = c.r.in(1, 3); b > 0; --b) { t.boxes.emplace_back(); for (int k = c.r.in(1, 3); k > 0; --k) t.boxes.back().push_back({c.r.in(0, 9), c.r.in(0, 1), c.r.in(0, 6)}); }
  std::unique_ptr<learnta::SUL> sul;
  if (kind == 1 && c.r.chance(1, 2)) sul = std::make_unique<learnta::TimedAutomatonRunner>(g.A); else { auto s = std::make_unique<Sys>(); s->t = &t; sul = std::move(s); }
  learnta::SymbolicMembershipOracle o{std::move(sul)};
  std::vector<ElementaryLanguage> asked; int queries = c.r.in(2, 6);
  for (int qn = 0; qn < queries; ++qn) {
    int n = c.r.in(1, c.thorough ? 4 : c.r.chance(1, 4) ? 4 : 3); std::string w; for (int i = 1; i < n; ++i) w.push_back("ab"[c.r.in(0, 1)]);
    auto dur = [&](int m, int K) { std::vector<double> d; for (int i = 0; i < m; ++i) d.push_back(c.r.chance(1, 3) ? c.r.in(0, K) : c.r.in(0, 8 * K) / 8.0); return d; };
    ElementaryLanguage e{w, TimedCondition(std::vector<double>(n, 0.0))}; int K = n > 3 ? 1 : 2;
    if (!asked.empty() && c.r.chance(1, 3)) { e = c.r.pick(asked); c.ev("asked_again"); n = (int) e.wordSize() + 1; w = e.getWord(); }
    else if (c.r.chance(1, 2)) {   // what the learner asks: a prefix followed by a suffix
      int m = c.r.in(0, n - 1); auto d1 = dur(m + 1, K), d2 = dur(n - m, K);
      auto p = learnta::ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.substr(0, m), d1}); auto s = learnta::BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.substr(m), d2});
      e = p + s;
    } else {
      std::list<ElementaryLanguage> l; for (int k = c.r.in(1, 3); k > 0; --k) l.push_back(learnta::ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w, dur(n, K)}));
      e = ElementaryLanguage::convexHull(l);
    }
    asked.push_back(e);
    long U = n + 1; D q = read(e.getTimedCondition(), U);
    if (q.emptyClosed()) { c.fail("harness", "empty query"); return; }
    // all points of the grid inside (they visit every region), unless there are too many
    std::vector<std::vector<long>> pts; std::vector<long> p(n + 1, 0); bool all = true;
    std::function<void(int)> rec = [&](int i) {   // chooses T_{i-1,n} for i = n, ..., 1
      if (i == 0) { if (q.has(p)) pts.push_back(p); if (pts.size() > 6000) all = false; return; }
      long lo = std::max(i < n ? p[i + 1] : 0L, -q.at(0, i).c), hi = q.at(i, 0).c;
      for (long x = lo; x <= hi && all; ++x) { p[i] = x; bool ok = true; for (int j = i + 1; j <= n && ok; ++j) { auto a = q.at(i, j), b = q.at(j, i); if (a.c < dbm::INF && (x - p[j] > a.c || (x - p[j] == a.c && !a.le))) ok = false; if (b.c < dbm::INF && (p[j] - x > b.c || (p[j] - x == b.c && !b.le))) ok = false; } if (ok) rec(i - 1); }
    };
    rec(n);
    std::set<std::vector<long>> regs;
    auto durations = [&](const std::vector<long> &x) { std::vector<double> d; for (int i = 1; i <= n; ++i) d.push_back((double) (x[i] - (i < n ? x[i + 1] : 0)) / (double) U); return d; };
    if (all) for (auto &x : pts) regs.insert(region(durations(x)));
    if (!all || regs.size() > (c.thorough ? 70u : 36u)) { c.ev("large_queries"); asked.pop_back(); continue; }   // the library merges regions pairwise, at great cost
    c.ev("queries"); auto r = o.query(e);
    std::vector<D> parts; for (auto &k : r.getConditions()) { if (k.size() != (size_t) n) { c.fail("size", "a condition over another number of durations"); return; } parts.push_back(read(k, U)); }
    std::ostringstream what; what << "[" << w << "] " << q.show((double) U) << "\nanswer:"; for (auto &d : parts) what << "\n  " << d.show((double) U);
    for (auto &d : parts) {
      if (d.emptyClosed()) { c.fail("empty-part", "an empty condition in the answer\n" + what.str() + "\n" + text); return; }
      if (!q.includes(d)) { c.fail("exceeds", "the answer exceeds the query\n" + what.str() + "\n" + text); return; }
    }
    size_t acc = 0;
    for (auto &x : pts) {
      auto d = durations(x); bool want = t(w, d), got = false; for (auto &z : parts) got = got || z.has(x); acc += want; c.ev("points");
      if (want != got) {
        std::ostringstream m; m << "durations"; for (double y : d) m << " " << y; m << " are " << (want ? "accepted" : "rejected") << " but " << (got ? "in" : "not in") << " the answer to\n" << what.str() << "\n" << text;
        c.fail("membership", m.str()); return;
      }
    }
    c.ev("regions", (long) regs.size());
    c.ev(acc == 0 ? "all_rejected" : acc == pts.size() ? "all_accepted" : parts.size() > 1 ? "nonconvex_answers" : "convex_answers");
    if (regs.size() > 1) c.nontrivial(what.str() + text);
    if (qn == 0) c.sample(what.str());
  }
}
static void regions(Ctx &c) { body(c, 0); }
static void automata(Ctx &c) { body(c, 1); }
static void boxes(Ctx &c) { body(c, 2); }
int main(int ac, char **av) { return drive(ac, av, {{"regions", regions, 3000, 40000}, {"automata", automata, 3000, 40000}, {"boxes", boxes, 2000, 25000}}); }
