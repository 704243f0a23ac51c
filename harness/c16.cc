// C16: rows judged equivalent under a renaming of durations, against words of the two prefixes that it relates.
#include "drv.hh"
#include "dbm.hh"
#include "learn.hh"
#include "equivalence.hh"
#include "symbolic_membership_oracle.hh"
#include "forward_regional_elementary_language.hh"
using namespace hn;
using dbm::D;
using learnta::Bounds; using learnta::TimedCondition; using learnta::ElementaryLanguage; using learnta::TimedConditionSet; using learnta::RenamingRelation;
using F = learnta::ForwardRegionalElementaryLanguage; using B = learnta::BackwardRegionalElementaryLanguage;
static const long U = 64;

// the region of accumulated durations, written into a larger matrix at an offset
static void regionInto(D &d, int off, const std::vector<long> &p) {   // p[0..n-1] = T_{i,n-1}
  int n = (int) p.size();
  for (int i = 0; i < n; ++i) for (int e = i + 1; e <= n; ++e) {
    int a = off + i + 1, b = e == n ? 0 : off + e + 1; long x = p[i] - (e == n ? 0 : p[e]), f = x / U * U;
    if (x == f) { d.tighten(a, b, {f, true}); d.tighten(b, a, {-f, true}); } else { d.tighten(a, b, {f + U, false}); d.tighten(b, a, {-f, false}); }
  }
}
struct W { std::string w; std::vector<long> d; std::vector<long> acc() const { std::vector<long> p(d.size()); long s = 0; for (size_t i = d.size(); i-- > 0;) { s += d[i]; p[i] = s; } return p; }
  TimedWord tw() const { std::vector<double> x; for (long t : d) x.push_back((double) t / U); return TimedWord{w, x}; } };
static W gen(Ctx &c, const std::vector<Alphabet> &al, int len, int K) {
  W x; int n = c.r.in(0, len); for (int i = 0; i <= n; ++i) { x.d.push_back(c.r.chance(1, 3) ? 0 : c.r.chance(1, 3) ? U * c.r.in(0, K) : U / 8 * c.r.in(0, 8 * K)); if (i < n) x.w.push_back((char) c.r.pick(al)); } return x;
}
static W fromAcc(const std::string &w, const std::vector<long> &v, int off) { W x; x.w = w; int n = (int) w.size() + 1; for (int i = 0; i < n; ++i) x.d.push_back(v[off + i + 1] - (i + 1 < n ? v[off + i + 2] : 0)); return x; }
static W join(const W &a, const W &b) { W x = a; x.d.back() += b.d[0]; x.d.insert(x.d.end(), b.d.begin() + 1, b.d.end()); x.w += b.w; return x; }
static std::string show(const W &x) { std::ostringstream o; o << x.tw(); return o.str(); }
static std::string show(const RenamingRelation &r) { std::ostringstream o; o << "{"; for (auto &[i, j] : r) o << " t" << i << "=t'" << j; o << " }"; return o.str(); }

using Rule = std::function<bool(const std::string &, const std::vector<double> &)>;
struct RuleSystem : learnta::SUL {   // a target given by a rule
  Rule rule; std::string w; std::vector<double> d; size_t n = 0;
  explicit RuleSystem(Rule r) : rule(std::move(r)) {}
  void pre() override { w.clear(); d = {0}; ++n; }
  void post() override {}
  bool step(char a) override { w.push_back(a); d.push_back(0); return rule(w, d); }
  bool step(double t) override { d.back() += t; return rule(w, d); }
  size_t count() const override { return n; }
};
// a target that looks at the sums of the durations behind the first event only; words that start with b differ in one region
static Rule tailRule(uint64_t salt, int den, int flip) {
  return [=](const std::string &w, const std::vector<double> &d) {
    std::string k = w.empty() ? w : w.substr(1); for (size_t i = 1; i < d.size(); ++i) { double s = 0; for (size_t j = i; j < d.size(); ++j) { s += d[j]; double f = std::floor(s); k.push_back((char) (std::min(f, 3.0) * 2 + (f < s))); } }
    uint64_t h = fnv(k, 1469598103934665603ull ^ salt); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    bool r = h % (uint64_t) den == 0; if (flip && !w.empty() && w[0] == 'b' && (h >> 20) % (uint64_t) flip == 0) r = !r; return r;
  };
}
struct S {
  Ctx &c; Gen g; ref::TA ta; std::string text; std::unique_ptr<learnta::SymbolicMembershipOracle> o;
  std::vector<W> prefW, sufW; std::vector<F> pref; std::vector<B> suf; std::vector<std::vector<TimedConditionSet>> rows; Rule rule;
  bool mem(const W &w) { if (rule) { auto t = w.tw(); return rule(t.getWord(), t.getDurations()); } ref::Word x; x.w = w.w; x.d = w.d; ref::Runner R{ta}; return R.run(x); }
  // all that a positive answer claims
  bool check(size_t a, size_t b, const RenamingRelation &r, const char *who) {
    int n = (int) prefW[a].d.size(), m = (int) prefW[b].d.size(); D d(n + m + 1);
    regionInto(d, 0, prefW[a].acc()); regionInto(d, n, prefW[b].acc());
    std::string what = std::string(who) + " relates [" + show(prefW[a]) + "] and [" + show(prefW[b]) + "] by " + show(r);
    for (auto &[i, j] : r) {
      if ((int) i >= n || (int) j >= m) return c.fail("renaming", what + ", out of range");
      d.tighten((int) i + 1, n + (int) j + 1, {0, true}); d.tighten(n + (int) j + 1, (int) i + 1, {0, true});
    }
    d.close(); if (d.emptyClosed()) return c.fail("incompatible", what + ", which no words of theirs satisfy");
    c.ev(r.empty() ? "judged_equivalent_empty" : "judged_equivalent_renaming");
    for (int k = 0; k < (c.thorough ? 40 : 16); ++k) {
      std::vector<long> v; if (!d.randomPoint(c.r, v, 0, 12 * U)) continue;
      W p = fromAcc(prefW[a].w, v, 0), q = fromAcc(prefW[b].w, v, n);
      for (size_t s = 0; s < suf.size(); ++s) {
        D e((int) sufW[s].d.size() + 1); regionInto(e, 0, sufW[s].acc()); e.close(); std::vector<long> z;
        for (int h = 0; h < 3; ++h) { if (!e.randomPoint(c.r, z, 0, 12 * U)) break; W t = fromAcc(sufW[s].w, z, 0); c.ev("related_words");
          bool x = mem(join(p, t)), y = mem(join(q, t)); if (x) c.ev("related_words_accepted");
          if (x != y) return c.fail("not-equivalent", what + ", but after [" + show(t) + "] the target " + (x ? "accepts" : "rejects") + " [" + show(p) + "] and " + (y ? "accepts" : "rejects") + " [" + show(q) + "]\n" + text); }
      }
    }
    return true;
  }
};
static std::optional<RenamingRelation> ask(S &s, int api, size_t a, size_t b) {
  if (api == 0) return learnta::findDeterministicEquivalentRenaming(s.pref[a], s.rows[a], s.pref[b], s.rows[b], s.suf);
  if (api == 2) return learnta::findEquivalentRenaming(s.pref[a], s.rows[a], s.pref[b], s.rows[b], s.suf);
  std::vector<TimedCondition> l, r; for (auto &x : s.suf) { l.push_back(s.pref[a].getTimedCondition() + x.getTimedCondition()); r.push_back(s.pref[b].getTimedCondition() + x.getTimedCondition()); }
  return learnta::findDeterministicEquivalentRenaming(s.pref[a], s.rows[a], l, s.pref[b], s.rows[b], r, s.suf);
}
static void body(Ctx &c, bool nondet, bool sets = false) {
  GenCfg q; q.maxStates = c.r.in(1, 3); q.maxClocks = c.r.in(1, 2); q.maxConst = c.r.in(1, 2); q.letters = c.r.in(1, 2); q.complete = c.r.chance(1, 2); q.copies = c.r.chance(1, 4);
  S s{c, genDTA(c.r, q), {}, "", nullptr, {}, {}, {}, {}, {}, {}}; s.ta = convert(s.g.A, U).ta; s.text = dump(s.g.A);
  if (sets) { uint64_t salt = c.r.next(); int den = c.r.in(2, 4) - c.r.in(0, 1), flip = c.r.chance(1, 3) ? 0 : c.r.in(2, 9); s.rule = tailRule(salt, den, flip); s.g.alphabet = {'a', 'b'}; s.text = "rule " + std::to_string(salt) + " " + std::to_string(den) + " " + std::to_string(flip) + "\n"; }
  if (s.rule) s.o = std::make_unique<learnta::SymbolicMembershipOracle>(std::make_unique<RuleSystem>(s.rule));
  else s.o = std::make_unique<learnta::SymbolicMembershipOracle>(std::make_unique<learnta::TimedAutomatonRunner>(s.g.A));
  int np = c.r.in(2, nondet ? 3 : 4), ns = c.r.in(1, 3);
  for (int i = 0; i < np; ++i) { s.prefW.push_back(gen(c, s.g.alphabet, nondet ? 2 : 2, 1)); 
    if (sets && (i == 0 || c.r.chance(1, 3))) { W x{"", {U / 8 * c.r.in(0, 8), U / 8 * (c.r.chance(3, 4) ? c.r.in(1, 7) : c.r.in(0, 8))}}; x.w = c.r.chance(1, 2) ? "a" : "b"; s.prefW[i] = x; }
    else if (sets) { auto &x = s.prefW[i] = s.prefW[0]; x.w[0] = x.w[0] == 'a' ? 'b' : 'a'; x.d[0] = U / 8 * c.r.in(0, 8); if (c.r.chance(1, 6)) x.d[1] = U / 8 * c.r.in(0, 8); }
    if (!sets && i && c.r.chance(1, 4)) { s.prefW[i] = s.prefW[0]; for (auto &t : s.prefW[i].d) if (t % U && c.r.chance(1, 2)) t += t % U > U / 2 ? -U / 8 : U / 8; } s.pref.push_back(F::fromTimedWord(s.prefW[i].tw())); }
  for (int i = 0; i < ns; ++i) { s.sufW.push_back(i == 0 && c.r.chance(2, 3) ? W{"", {0}} : gen(c, s.g.alphabet, 1, 1)); if (sets && c.r.chance(2, 3)) { W x{c.r.chance(1, 2) ? "" : "a", {}}; for (size_t k = 0; k <= x.w.size(); ++k) x.d.push_back(U * c.r.in(0, 1) + U / 8 * c.r.in(1, 7)); s.sufW[i] = x; } s.suf.push_back(B::fromTimedWord(s.sufW[i].tw())); }
  for (int i = 0; i < ns; ++i) s.text += "suffix " + show(s.sufW[i]) + "\n";
  for (int i = 0; i < np; ++i) { s.rows.emplace_back(); for (auto &x : s.suf) s.rows.back().push_back(s.o->query(s.pref[i] + x)); for (auto &r : s.rows.back()) if (r.size() > 1) c.ev("nonconvex_cells"); }
  std::map<std::tuple<int, size_t, size_t>, std::string> said; std::vector<std::tuple<int, size_t, size_t>> todo;
  for (int api = 0; api < (nondet ? 3 : 2); ++api) for (size_t a = 0; a < s.pref.size(); ++a) for (size_t b = 0; b < s.pref.size(); ++b) todo.emplace_back(nondet && api ? 2 : api, a, b);
  std::string log;
  for (int round = 0; round < 2; ++round) {
    for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[c.r.next() % i]);
    for (auto &t : todo) {
      auto [api, a, b] = t; auto r = ask(s, api, a, b); c.ev("judgements");
      std::string now = r ? show(*r) : "different"; if (!said.count(t)) said[t] = now;
      if (said[t] != now) { c.fail("depends-on-history", "the judgement for [" + show(s.prefW[a]) + "] and [" + show(s.prefW[b]) + "] was " + said[t] + " and is now " + now + "\n" + s.text); return; }
      if (!r) c.ev("judged_different");
      if (a == b && !r) { c.fail("reflexive", "[" + show(s.prefW[a]) + "] is not judged equivalent to itself (" + std::to_string(api) + ")\n" + s.text); return; }
      if (r && round == 0 && !s.check(a, b, *r, api == 2 ? "findEquivalentRenaming" : "findDeterministicEquivalentRenaming")) return;
    }
  }
  for (auto &[t, x] : said) if (std::get<0>(t) == 0) { auto o = said.find({1, std::get<1>(t), std::get<2>(t)}); if (o != said.end() && o->second != x) { c.fail("two-forms", "the two forms of the judgement differ: " + x + " and " + o->second + "\n" + s.text); return; } }
  // given renamings: random ones, and the identity of a prefix with itself
  for (int k = 0; k < 10; ++k) {
    size_t a = c.r.next() % s.pref.size(), b = c.r.next() % s.pref.size(); RenamingRelation r; bool id = c.r.chance(1, 4); if (id) b = a;
    if (id) for (size_t i = 0; i < s.prefW[a].d.size(); ++i) r.emplace_back(i, i);
    else for (int j = c.r.in(0, 2); j > 0; --j) r.emplace_back(c.r.next() % s.prefW[a].d.size(), c.r.next() % s.prefW[b].d.size());
    bool e = learnta::equivalence(s.pref[a], s.rows[a], s.pref[b], s.rows[b], s.suf, r); c.ev("given_renamings");
    std::vector<TimedCondition> l, rr; for (auto &x : s.suf) { l.push_back(s.pref[a].getTimedCondition() + x.getTimedCondition()); rr.push_back(s.pref[b].getTimedCondition() + x.getTimedCondition()); }
    if (e != learnta::equivalence(s.pref[a], s.rows[a], l, s.pref[b], s.rows[b], rr, s.suf, r)) { c.fail("two-forms", "the two forms of the judgement of a given renaming differ"); return; }
    if (id && !e) { c.fail("reflexive", "[" + show(s.prefW[a]) + "] is not judged equivalent to itself by the identity\n" + s.text); return; }
    if (e) { c.ev("given_renamings_accepted"); if (!s.check(a, b, r, "equivalence()")) return; }
  }
  std::string pre; for (auto &w : s.prefW) pre += "prefix " + show(w) + "\n";
  c.nontrivial(s.text + pre); c.sample(s.text + pre);
}
static void deterministic(Ctx &c) { body(c, false); }
static void sets(Ctx &c) { body(c, c.r.chance(1, 4), true); }
static void any(Ctx &c) { body(c, true); }
int main(int ac, char **av) { return drive(ac, av, {{"deterministic", deterministic, 2500, 50000}, {"any", any, 1000, 20000}, {"sets", sets, 2000, 40000}}); }
