// C17: counterexample analysis and the mapping of words to representatives, step by step.
#include "drv.hh"
#include "dbm.hh"
#include "learn.hh"
#include "equivalence.hh"
#include "counterexample_analyzer.hh"
#include "symbolic_membership_oracle.hh"
using namespace hn;
using learnta::ElementaryLanguage; using learnta::RenamingRelation; using learnta::SingleMorphism; using learnta::RecognizableLanguage; using learnta::TimedConditionSet;
using F = learnta::ForwardRegionalElementaryLanguage; using B = learnta::BackwardRegionalElementaryLanguage;

// floors of all sums of consecutive durations (and whether they are integers)
static std::vector<long> region(const std::vector<double> &d) {
  std::vector<long> r; for (size_t i = 0; i < d.size(); ++i) { double s = 0; for (size_t j = i; j < d.size(); ++j) { s += d[j]; double q = std::round(s); r.push_back(std::fabs(s - q) < 1e-9 ? 2 * (long) q : 2 * (long) std::floor(s) + 1); } } return r;
}
static bool inRegion(const TimedWord &w, const ElementaryLanguage &l) { return w.getWord() == l.getWord() && region(w.getDurations()) == region(l.sample().getDurations()); }
static std::vector<double> acc(const TimedWord &w) { auto d = w.getDurations(); double s = 0; for (size_t i = d.size(); i-- > 0;) { s += d[i]; d[i] = s; } return d; }
static std::string show(const RenamingRelation &r) { std::ostringstream o; o << "{"; for (auto &[i, j] : r) o << " t" << i << "=t'" << j; o << " }"; return o.str(); }
static TimedWord glue(const TimedWord &a, const TimedWord &b) { auto d = a.getDurations(), e = b.getDurations(); d.back() += e[0]; d.insert(d.end(), e.begin() + 1, e.end()); return TimedWord{a.getWord() + b.getWord(), d}; }
static bool close(const TimedWord &a, const TimedWord &b) {
  if (a.getWord() != b.getWord()) return false; auto d = a.getDurations(), e = b.getDurations(); for (size_t i = 0; i < d.size(); ++i) if (std::fabs(d[i] - e[i]) > 1e-9) return false; return true;
}
// some sum of durations up to the end is an integer
static bool boundary(const F &x) { for (double s : acc(x.sample())) if (std::fabs(s - std::round(s)) < 1e-9) return true; return false; }
struct Oracle : learnta::MembershipOracle { const Judge *j; size_t n = 0; bool answerQuery(const TimedWord &w) override { ++n; return (*j)(w); } size_t count() const override { return n; } };

static void body(Ctx &c, bool judged) {
  GenCfg q; q.maxStates = c.r.in(1, 3); q.maxClocks = c.r.in(1, 2); q.maxConst = c.r.in(1, 2); q.letters = c.r.in(1, 2); q.complete = c.r.chance(2, 3);
  Gen g = target(c.r, q); Judge J{g.A}; Oracle o; o.j = &J;
  std::string text = dump(g.A);
  // prefixes: a set of regions closed under predecessors; all other successors are mapped into it
  std::vector<F> P{F{}}; std::vector<F> ext; auto has = [](const std::vector<F> &v, const F &x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  for (int i = c.r.in(0, 6); i > 0; --i) { F x = P[c.r.next() % P.size()]; F y = c.r.chance(1, 2) ? x.successor() : x.successor(c.r.pick(g.alphabet)); if (y.wordSize() <= 2 && !has(P, y)) P.push_back(y); }
  // as in a table shown to the oracle: time runs out of the prefixes only at a boundary, and back to where it left them (see below)
  for (size_t i = 0; i < P.size() && P.size() < 14; ++i) if (!boundary(P[i])) { F y = P[i].successor(); if (!has(P, y)) P.push_back(y); }
  for (auto &x : P) if (!boundary(x) && !has(P, x.successor())) { c.inconclusive("more than 14 prefixes"); return; }
  std::vector<long> home; for (size_t i = 0; i < P.size(); ++i) { auto &x = P[i]; if (F y = x.successor(); !has(P, y)) { ext.push_back(y); home.push_back((long) i); } for (auto a : g.alphabet) if (F y = x.successor(a); !has(P, y)) { ext.push_back(y); home.push_back(-1); } }
  std::vector<ElementaryLanguage> prefixes(P.begin(), P.end()), final; for (auto &x : P) if (J(x.sample())) final.push_back(x);
  std::vector<B> known{B{}}; for (int i = c.r.in(0, 2); i > 0; --i) known.push_back(B::fromTimedWord(randomWord(c.r, g.alphabet, 1, 1)));
  learnta::SymbolicMembershipOracle sym{std::make_unique<learnta::TimedAutomatonRunner>(g.A)};
  auto row = [&](const F &x) { std::vector<TimedConditionSet> r; for (auto &s : known) r.push_back(sym.query(x + s)); return r; };
  std::vector<SingleMorphism> morphisms; std::vector<RenamingRelation> ren; std::vector<F> cod; std::string m;
  for (size_t e = 0; e < ext.size(); ++e) { auto &x = ext[e];
    if (home[e] >= 0) {   // a time successor returns to its own prefix, without a renaming
      morphisms.emplace_back(x, P[home[e]], RenamingRelation{}); ren.emplace_back(); cod.push_back(P[home[e]]); c.ev("time_morphisms");
      m += "[" + show(x.sample()) + "] -> [" + show(P[home[e]].sample()) + "]\n"; continue;
    }
    std::optional<RenamingRelation> r; size_t k = c.r.next() % P.size();
    if (judged) { auto rx = row(x); for (size_t i = 0; i < P.size() && !r; ++i) { r = learnta::findDeterministicEquivalentRenaming(x, rx, P[i], row(P[i]), known); if (r) k = i; } }
    if (r) c.ev("judged_morphisms"); else {   // any renaming that words of both satisfy: equal durations are tied at random
      r = RenamingRelation{}; auto dx = acc(x.sample()), dp = acc(P[k].sample());
      for (size_t i = 0; i < dx.size(); ++i) for (size_t j = 0; j < dp.size(); ++j) if (c.r.chance(1, 2)) {
        RenamingRelation t = *r; t.emplace_back(i, j); auto z = x.getTimedCondition() ^ P[k].getTimedCondition(); z.addRenaming(t); z.canonize();
        bool used = false; for (auto &[a, b] : *r) used = used || b == j; if (!used && z.isSatisfiableNoCanonize()) r = t;
      }
      c.ev("arbitrary_morphisms");
    }
    morphisms.emplace_back(x, P[k], *r); ren.push_back(*r); cod.push_back(P[k]);
    m += "[" + show(x.sample()) + "] -> [" + show(P[k].sample()) + "] by " + show(*r) + "\n";
  }
  for (auto &x : P) m += "prefix [" + show(x.sample()) + "]\n";
  RecognizableLanguage H{prefixes, final, morphisms};
  int cex = 0;
  for (int i = 0; i < 40 && cex < 8; ++i) {
    TimedWord w = randomWord(c.r, g.alphabet, 5, q.maxConst); c.ev("words_mapped");
    std::string ctx = "word [" + show(w) + "]\n" + m + text;
    // the chain of substitutions, each step judged
    std::vector<TimedWord> chain{w}, pre, suf; bool bad = false;
    auto member = [&](const TimedWord &x) { bool r = false; for (auto &p : P) r = r || inRegion(x, p); return r; };
    while (!bad) {
      auto &cur = chain.back(); bool in = member(cur);
      if (H.inPrefixes(cur) != in) { c.fail("inPrefixes", "[" + show(cur) + "] is " + (in ? "" : "not ") + "in the prefixes\n" + ctx); return; }
      if (in) break;
      if (chain.size() > 60) { c.fail("endless", "the word is mapped without end\n" + ctx); return; }
      auto t = H.split(cur); if (!t) { c.fail("split", "[" + show(cur) + "] is not split\n" + ctx); return; }
      size_t k = 0; while (k < morphisms.size() && !(morphisms[k] == t->morphism)) ++k;
      if (k == morphisms.size()) { c.fail("split", "an unknown morphism\n" + ctx); return; }
      if (!close(glue(t->prefix, t->suffix), cur)) { c.fail("split", "[" + show(cur) + "] is split into [" + show(t->prefix) + "] and [" + show(t->suffix) + "]\n" + ctx); return; }
      for (double d : t->suffix.getDurations()) if (d < 0) { c.fail("split", "a negative duration after [" + show(t->prefix) + "]\n" + ctx); return; }
      if (!inRegion(t->prefix, ext[k])) { c.fail("split-domain", "[" + show(t->prefix) + "] is not in the domain of its morphism\n" + ctx); return; }
      TimedWord y = t->morphism.maps(t->prefix); c.ev("substitutions");
      if (!inRegion(y, cod[k])) { c.fail("maps-codomain", "[" + show(t->prefix) + "] is mapped to [" + show(y) + "], outside the class\n" + ctx); return; }
      auto a = acc(t->prefix), b = acc(y); for (auto &[i2, j2] : ren[k]) if (std::fabs(a[i2] - b[j2]) > 1e-9) { c.fail("maps-renaming", "[" + show(t->prefix) + "] is mapped to [" + show(y) + "], against the renaming " + show(ren[k]) + "\n" + ctx); return; }
      if (!close(t->apply(), glue(y, t->suffix))) { c.fail("apply", "applying the morphism loses the rest of [" + show(cur) + "]\n" + ctx); return; }
      pre.push_back(t->prefix); suf.push_back(t->suffix); chain.push_back(glue(y, t->suffix));
    }
    bool fin = false; for (auto &x : final) fin = fin || inRegion(chain.back(), x);
    if (H.isFinal(chain.back()) != fin || H.contains(w) != fin) { c.fail("contains", "the hypothesis " + std::string(fin ? "contains" : "does not contain") + " the word\n" + ctx); return; }
    if (J(w) == fin) continue;
    ++cex; c.ev("counterexamples"); if (chain.size() > 2) c.ev("counterexamples_mapped_repeatedly");
    auto fresh = [&](const TimedWord &s) { for (auto &k : known) if (inRegion(s, k)) return false; return true; };
    auto differs = [&](size_t k) { return J(glue(pre[k], suf[k])) != J(chain[k + 1]); };
    auto r = learnta::analyzeCEX(w, o, H, known);
    if (!r) { c.ev("nothing_fresh"); for (size_t k = 0; k < pre.size(); ++k) if (fresh(suf[k]) && differs(k)) { c.fail("missed", "the analysis finds nothing, but [" + show(suf[k]) + "] is new and separates [" + show(pre[k]) + "] from its representative\n" + ctx); return; } continue; }
    c.ev("suffixes_found");
    if (!fresh(*r)) { c.fail("known-suffix", "the suffix [" + show(*r) + "] is known\n" + ctx); return; }
    { // a suffix of the word itself: the same events and durations at the end, the first duration cut
      auto a = w.getDurations(), b = r->getDurations(); size_t n = b.size(); bool ok = n <= a.size() && w.getWord().substr(w.wordSize() + 1 - n) == r->getWord();
      for (size_t i2 = 0; ok && i2 < n; ++i2) { double x = a[a.size() - n + i2], y = b[i2]; ok = i2 == 0 ? y <= x + 1e-9 : std::fabs(x - y) < 1e-9; }
      if (!ok) { c.fail("no-suffix", "[" + show(*r) + "] is not a suffix of the word\n" + ctx); return; }
    }
    bool sep = false; for (size_t k = 0; k < pre.size(); ++k) sep = sep || (close(suf[k], *r) && differs(k));
    if (!sep) { c.fail("not-separating", "after [" + show(*r) + "] no prefix is answered differently from its representative\n" + ctx); return; }
  }
  c.nontrivial(m + text); c.sample(m + text);
}
static void arbitrary(Ctx &c) { body(c, false); }
static void judged(Ctx &c) { body(c, true); }
int main(int ac, char **av) { return drive(ac, av, {{"arbitrary", arbitrary, 350, 6000}, {"judged", judged, 350, 10000}}); }
