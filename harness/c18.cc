// C18: operations leave their inputs as they were, give the same result again, and results outlive what made them.
#include "drv.hh"
#include "learn.hh"
#include "equivalence.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "intersection.hh"
#include "ta2za.hh"
#include "zone_automaton.hh"
#include "symbolic_membership_oracle.hh"
#include "forward_regional_elementary_language.hh"
using namespace hn;
using F = learnta::ForwardRegionalElementaryLanguage; using B = learnta::BackwardRegionalElementaryLanguage;

static GenCfg small(Rng &r, int clocks) { GenCfg q; q.maxStates = r.in(1, 3); q.maxClocks = clocks; q.maxConst = r.in(1, 2); q.letters = r.in(1, 2); q.copies = r.chance(1, 3); q.constResets = r.chance(1, 3); q.complete = r.chance(1, 3); return q; }
static Gen any(Rng &r) { return genDTA(r, small(r, r.in(0, 2))); }
// a target that is learned quickly
static Gen learnable(Rng &r) { GenCfg q; q.maxStates = r.in(1, 3); q.maxClocks = 1; q.maxConst = r.in(1, 2); q.letters = r.in(1, 2); q.constResets = r.chance(1, 3); return target(r, q); }
static TimedAutomaton product(const TimedAutomaton &a, const TimedAutomaton &b) { TimedAutomaton p; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m; learnta::intersectionTA(a, b, p, m); return p; }
static std::string zones(const TimedAutomaton &a) { learnta::ZoneAutomaton z; learnta::ta2za(a, z); return z.sample() ? "some word" : "no word"; }

struct Answer { std::optional<TimedAutomaton> A; std::vector<Alphabet> al; std::string said; };
struct Item { Gen g; std::string before; TimedAutomaton copy; ref::TA model; bool quick = false; };
enum { COMPLEMENT, PRODUCT, ZONES, QUERY, MEMOQUERY, RUN, DEEPCOPY, SYMBOLIC, LEARN, SIMPLIFYCOPY, COMPLETECOPY, RANDOMQUERY, JUDGE, NOPS };
static const char *names[] = {"complement", "product", "zone graph", "equivalence query", "memoised equivalence query", "run", "copy", "symbolic query", "learning", "simplifying a copy", "completing a copy", "random testing", "judgement of rows"};

static Answer perform(Ctx &c, int op, Item &x, Item &y, const std::vector<TimedWord> &ws, uint64_t s) {
  Answer a; a.al = {'a', 'b'}; Rng r{s};
  switch (op) {
    case COMPLEMENT: a.A = x.g.A.complement(a.al); break;
    case PRODUCT: a.A = product(x.g.A, y.g.A); break;
    case ZONES: a.said = zones(x.g.A); break;
    case QUERY: { learnta::ComplementTimedAutomataEquivalenceOracle o{x.g.A, x.g.A.complement(a.al), a.al}; a.said = o.findCounterExample(y.g.A) ? "different" : "equal"; break; }
    case MEMOQUERY: { Gen g = x.g; g.alphabet = a.al; auto o = makeOracle(r, g, MEMO); a.said = o->findCounterExample(y.g.A) ? "different" : "equal"; a.said += o->findCounterExample(y.g.A) ? ", different" : ", equal"; break; }
    case RUN: { learnta::TimedAutomatonRunner R{x.g.A}; for (auto &w : ws) { R.pre(); for (size_t i = 0; i < w.getDurations().size(); ++i) { a.said += R.step(w.getDurations()[i]) ? '1' : '0'; if (i < w.wordSize()) a.said += R.step(w.getWord()[i]) ? '1' : '0'; } R.post(); } break; }
    case DEEPCOPY: a.A = copyOf(x.g.A); break;
    case SYMBOLIC: {
      learnta::SymbolicMembershipOracle o{std::make_unique<learnta::TimedAutomatonRunner>(x.g.A)};
      for (auto &w : ws) { auto p = F::fromTimedWord(w), q = p.successor(); auto l = learnta::ElementaryLanguage::convexHull({p, q}); auto z = o.query(l); for (auto &e : {p, q}) { bool in = false; auto v = e.sample().getAccumulatedDurations(); auto d = e.sample().getDurations(); for (auto &t : z.getConditions()) in = in || learnta::ElementaryLanguage{w.getWord(), t}.contains(TimedWord{w.getWord(), d}); a.said += in ? '1' : '0'; } }
      break; }
    case LEARN: { Observed ob; auto l = makeLearner(r, x.g, (int) (s % 4), ob); a.A = l->run(); a.al = x.g.alphabet; break; }
    case SIMPLIFYCOPY: { auto z = copyOf(x.g.A); z.simplifyStrong(); z.simplifyWithZones(); z.simplify(); a.A = z; break; }
    case COMPLETECOPY: { auto z = copyOf(x.g.A); z.makeComplete(a.al); a.A = z; break; }
    case RANDOMQUERY: { learnta::EquivalenceOracleByRandomTest o{a.al, x.g.A, 50, 5, 3}; auto w = o.findCounterExample(y.g.A); if (w) { Judge jx{x.g.A}, jy{y.g.A}; if (jx(*w) == jy(*w)) a.said = "a word that does not separate"; } break; }
    default: {
      learnta::SymbolicMembershipOracle o{std::make_unique<learnta::TimedAutomatonRunner>(x.g.A)};
      std::vector<B> S{B{}}; auto row = [&](const F &p) { std::vector<learnta::TimedConditionSet> v; for (auto &q : S) v.push_back(o.query(p + q)); return v; };
      for (size_t i = 0; i + 1 < ws.size() && i < 4; ++i) { auto p = F::fromTimedWord(ws[i]), q = F::fromTimedWord(ws[i + 1]); auto z = learnta::findDeterministicEquivalentRenaming(p, row(p), q, row(q), S); if (!z) a.said += "different;"; else { for (auto &[f, t] : *z) a.said += std::to_string(f) + "=" + std::to_string(t) + " "; a.said += ";"; } }
    }
  }
  (void) c; return a;
}
// other work in the same process, on objects of other sizes
static void clutter(Ctx &c) {
  Rng &r = c.r; c.ev("clutter");
  switch (r.in(0, 5)) {
    case 0: { int n = r.in(2, 7); auto z = learnta::Zone::zero(n), t = learnta::Zone::top(n); z.elapse(); t.tighten(0, -1, {r.in(0, 3), true}); learnta::JuxtaposedZone j{z, t}, k{t, z}; (void) j; (void) k; break; }
    case 1: { Gen g = genDTA(r, small(r, r.in(1, 3))); zones(g.A); break; }
    case 2: { Gen g = learnable(r); Observed o; makeLearner(r, g, r.in(0, 3), o)->run(); c.ev("clutter_learning"); break; }
    case 3: { auto p = F::fromTimedWord(randomWord(r, {'a', 'b'}, 4, 2)), q = F::fromTimedWord(randomWord(r, {'a', 'b'}, 4, 2)); auto z = p.getTimedCondition() ^ q.getTimedCondition(); z.addRenaming({{r.next() % (p.wordSize() + 1), r.next() % (q.wordSize() + 1)}}); break; }
    case 4: { Gen a = any(r), b = any(r); zones(product(a.A, b.A)); break; }
    default: { Gen a = any(r); auto z = copyOf(a.A); z.simplify(); z = z.complement({'a', 'b'}); z.simplifyWithZones(); }
  }
}

static void repeated(Ctx &c) {
  std::vector<Item> pool; int n = c.r.in(2, 4); bool learn = false;
  for (int i = 0; i < n; ++i) { bool l = c.r.chance(1, 2); learn = learn || l; Item x; x.g = l ? learnable(c.r) : any(c.r); x.quick = l; x.before = dump(x.g.A); x.copy = copyOf(x.g.A); if (dump(x.copy) != x.before) { c.fail("copy", "a copy differs from the original\n" + x.before + dump(x.copy)); return; } pool.push_back(std::move(x)); }
  std::vector<TimedWord> ws; for (int i = 0; i < 5; ++i) ws.push_back(randomWord(c.r, {'a', 'b'}, 3, 2));
  struct Job { int op, i, j; uint64_t s; std::optional<Answer> a; }; std::vector<Job> jobs;
  int m = c.r.in(3, 6); for (int k = 0; k < m; ++k) { Job b{c.r.in(0, NOPS - 1), c.r.in(0, n - 1), c.r.in(0, n - 1), c.r.next(), {}}; if (b.op == LEARN && !pool[b.i].quick) b.op = COMPLEMENT; jobs.push_back(b); }
  std::string log, all; for (auto &p : pool) all += p.before;
  for (int k = 0; k < 3 * m; ++k) {
    if (c.r.chance(1, 2)) clutter(c);
    auto &b = jobs[k < m ? (size_t) k : c.r.next() % jobs.size()]; auto &x = pool[b.i], &y = pool[b.j];
    std::string what = std::string(names[b.op]) + " of " + std::to_string(b.i) + " (" + std::to_string(b.j) + ")"; log += what + "\n";
    Answer a = perform(c, b.op, x, y, ws, b.s); c.ev("operations"); c.ev((std::string("op_") + std::to_string(b.op)).c_str());
    for (auto &p : pool) if (p.g.A.states.size() != p.copy.states.size() || dump(p.g.A) != p.before) {
      if (p.g.A.states.size() != p.copy.states.size()) { c.fail("input-states", what + " changed the number of states of an automaton from " + std::to_string(p.copy.states.size()) + " to " + std::to_string(p.g.A.states.size()) + "\n" + p.before + "now\n" + dump(p.g.A)); return; }
      auto d = compare(p.copy, p.g.A, {'a', 'b'}); c.ev("inputs_rewritten");
      if (d.d.st == ref::Diff::DIFFERENT) { c.fail("input-language", what + " changed what an automaton accepts: " + d.word + "\n" + p.before + "now\n" + dump(p.g.A)); return; }
      p.before = dump(p.g.A);
    } else c.ev("inputs_intact");
    if (!b.a) {
      if (b.op == LEARN || b.op == DEEPCOPY || b.op == SIMPLIFYCOPY || b.op == COMPLETECOPY) { auto d = compare(x.copy, *a.A, b.op == COMPLETECOPY ? a.al : x.g.alphabet, 60000); c.ev("results_decided"); if (d.d.st == ref::Diff::DIFFERENT) { c.fail("result", what + ": the result differs from its input at " + d.word + "\n" + log + all + dump(*a.A)); return; } }
      if (b.op == RANDOMQUERY && !a.said.empty()) { c.fail("result", what + ": " + a.said + "\n" + log + all); return; }
      b.a = std::move(a); continue; }
    c.ev("repetitions");
    if (b.a->said != a.said) { c.fail("again", what + " first said \"" + b.a->said + "\" and now \"" + a.said + "\"\n" + log + all); return; }
    if (a.A) { auto d = compare(*b.a->A, *a.A, {'a', 'b'}, 60000); if (d.d.st == ref::Diff::EQUAL) c.ev("repetitions_decided"); if (d.d.st == ref::Diff::DIFFERENT) { c.fail("again-language", what + " gave two different automata, see " + d.word + "\n" + log + all + "first\n" + dump(*b.a->A) + "again\n" + dump(*a.A)); return; } }
  }
  c.nontrivial(log + all); c.sample(log + all);
}

// results used after everything they were made from is gone
static void outlive(Ctx &c) {
  Rng &r = c.r; std::string text; TimedAutomaton res; TimedAutomaton expect; std::vector<Alphabet> al{'a', 'b'}; std::string what; bool flip = false; std::optional<TimedAutomaton> second;
  int kind = r.in(0, 7);
  if (kind == 0) { what = "complement"; Gen g = any(r); expect = copyOf(g.A); text = dump(g.A); res = g.A.complement(al); flip = true; for (auto &s : g.A.states) s->next.clear(); }
  else if (kind == 1) { what = "product"; Gen a = any(r), b = any(r); expect = copyOf(a.A); second = copyOf(b.A); text = dump(a.A) + dump(b.A); res = product(a.A, b.A); for (auto &s : a.A.states) { s->isMatch = !s->isMatch; s->next.clear(); } }
  else if (kind == 2 || kind == 3) { what = "learned automaton"; Gen g = learnable(r); expect = copyOf(g.A); al = g.alphabet; text = dump(g.A); Observed o; auto l = makeLearner(r, g, r.in(0, 3), o); res = l->run(); if (kind == 3) { Observed o2; Gen h = learnable(r); makeLearner(r, h, 0, o2)->run(); } c.ev("learned_outlive"); }
  else if (kind == 4) { what = "copy"; Gen g = any(r); expect = copyOf(g.A); text = dump(g.A); { TimedAutomaton t = copyOf(g.A); res = copyOf(t); for (auto &s : t.states) { s->next.clear(); s->isMatch = !s->isMatch; } } }
  else if (kind == 5) { what = "simplified automaton"; Gen g = any(r); expect = copyOf(g.A); text = dump(g.A); TimedAutomaton t = copyOf(g.A); res = t.simplify(); res.simplifyWithZones(); res.simplifyStrong(); }
  else if (kind == 6) {
    what = "hypothesis"; Gen g = learnable(r); text = dump(g.A); Observed o; std::vector<TimedAutomaton> kept; std::vector<std::string> then;
    { auto l = makeLearner(r, g, r.in(0, 3), o, [&](const TimedAutomaton &h) { kept.push_back(h); then.push_back(dump(h)); }); l->run(); }
    for (size_t i = 0; i < kept.size(); ++i) { c.ev("hypotheses_kept"); std::string now = dump(kept[i]);
      if (now != then[i]) { auto d = compare(o.hyps[i], kept[i], g.alphabet); c.ev("hypotheses_rewritten"); if (d.d.st == ref::Diff::DIFFERENT || kept[i].states.size() != o.hyps[i].states.size()) { c.fail("hypothesis", "a hypothesis shown to the oracle was changed afterwards: " + d.word + "\n" + then[i] + "now\n" + now + "target\n" + text); return; } } }
    c.nontrivial(text); c.sample(text); return;
  }
  else {   // runners and oracles keep what they need
    what = "oracle"; std::unique_ptr<learnta::EquivalenceOracle> o; std::unique_ptr<learnta::SymbolicMembershipOracle> m; Gen h = any(r); TimedAutomaton t;
    { Gen g = any(r); g.alphabet = al; t = copyOf(g.A); text = dump(g.A); o = makeOracle(r, g, r.in(0, 3)); m = std::make_unique<learnta::SymbolicMembershipOracle>(std::make_unique<learnta::TimedAutomatonRunner>(g.A)); }
    Judge j{t}, jh{h.A};
    for (int i = 0; i < 4; ++i) { auto w = randomWord(r, al, 4, 2); auto f = F::fromTimedWord(w); auto z = m->query(f); c.ev("outliving_queries"); if (z.empty() == j(w)) { c.fail("outlive-answer", "a membership query is answered wrongly after the target is gone: [" + hn::show(w) + "]\n" + text); return; } }
    auto w = o->findCounterExample(h.A); c.ev("outliving_queries"); if (w && j(*w) == jh(*w)) { c.fail("outlive-answer", "[" + hn::show(*w) + "] separates nothing\n" + text + dump(h.A)); return; }
    if (!w) { auto d = compare(t, h.A, al); if (d.d.st == ref::Diff::DIFFERENT) { c.fail("outlive-answer", "no answer, but " + d.word + "\n" + text + dump(h.A)); return; } }
    c.nontrivial(text + dump(h.A)); c.sample(text); return;
  }
  c.ev("results_outliving");
  for (int i = 0; i < 3; ++i) clutter(c);
  for (auto &s : res.states) for (auto &[a, ts] : s->next) for (auto &t : ts) { bool own = false; for (auto &q : res.states) own = own || q.get() == t.target; if (!own) { c.fail("outlive-target", "the " + what + " has a transition to a state that is not its own\n" + text + dump(res)); return; } }
  Judge j{expect}, k{res}; std::optional<Judge> j2; if (second) j2.emplace(*second);
  for (int i = 0; i < 60; ++i) { auto w = randomWord(r, al, 4, 2); bool e = j(w); if (flip) e = !e; if (j2) e = e && (*j2)(w); c.ev("words"); if (k(w) != e) { c.fail("outlive", "the " + what + " answers wrongly on [" + hn::show(w) + "] after its origin is gone\n" + text + dump(res)); return; } }
  learnta::TimedAutomatonRunner R{res}; for (int i = 0; i < 10; ++i) { auto w = randomWord(r, al, 4, 2); R.pre(); bool a = false; for (size_t q = 0; q < w.getDurations().size(); ++q) { a = R.step(w.getDurations()[q]); if (q < w.wordSize()) R.step(w.getWord()[q]); } R.post(); if (a != k(w)) { c.fail("outlive", "the library runs the " + what + " differently on [" + hn::show(w) + "]\n" + text + dump(res)); return; } }
  c.nontrivial(what + text); c.sample(what + "\n" + text);
}
int main(int ac, char **av) { return drive(ac, av, {{"repeated", repeated, 1200, 24000, 40, false}, {"outlive", outlive, 1600, 30000, 40, false}}); }
