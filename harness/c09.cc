// C09: step-by-step agreement of the runner with the reference semantics, on exact (dyadic) times.
#include "drv.hh"
#include "timed_automaton_runner.hh"
using namespace hn;
static const long T = 16;  // ticks in a time unit
static double dbl(long t) { return (double) t / (double) T; }

static Gen randTA(Ctx &c, bool unobs, bool open = false) {
  GenCfg g; g.maxStates = c.r.in(1, 5); g.maxClocks = c.r.in(0, 4); g.maxConst = c.r.in(1, 4); g.letters = c.r.in(1, 3);
  g.copies = c.r.chance(1, 2); g.constResets = c.r.chance(1, 2); g.complete = c.r.chance(1, 3);
  Gen r = genDTA(c.r, g);
  int k = (int) r.A.maxConstraints.size();
  for (auto &s : r.A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
    for (auto &[x, v] : t.resetVars) if (v.index() == 0 && c.r.chance(1, 3)) v = c.r.in(0, 8) / 2.0 + (c.r.chance(1, 4) ? 0.25 : 0);
    // several updates in any order, swaps of clocks included
    if (k >= 2 && c.r.chance(1, 5)) { t.resetVars.clear(); t.resetVars.emplace_back(0, (learnta::ClockVariables) 1); t.resetVars.emplace_back(1, (learnta::ClockVariables) 0); }
    for (size_t i = t.resetVars.size(); i > 1; --i) std::swap(t.resetVars[i - 1], t.resetVars[c.r.next() % i]);
    if (c.r.chance(1, 10) && !t.guard.empty()) t.guard.push_back(t.guard[0]);
  }
  if (unobs && k > 0) {
    // internal transitions to later states only (no internal loops); closed lower bounds
    int n = (int) r.A.states.size();
    for (int i = 0; i + 1 < n; ++i) if (c.r.chance(1, 2)) {
      int m = c.r.chance(1, 3) ? 2 : 1;
      for (int j = 0; j < m; ++j) {
        learnta::TATransition t; t.target = r.A.states[c.r.in(i + 1, n - 1)].get();
        auto lower = [&] { int x = c.r.in(0, k - 1), K = c.r.in(0, 4); t.guard.push_back(open && c.r.chance(1, 2) ? ConstraintMaker(x) > K : ConstraintMaker(x) >= K); };
        if (!c.r.chance(1, 15)) lower();
        if (c.r.chance(1, 3)) lower();
        if (c.r.chance(1, 3)) { int x = c.r.in(0, k - 1), K = c.r.in(0, 5); t.guard.push_back(c.r.chance(1, 2) ? ConstraintMaker(x) <= K : ConstraintMaker(x) < K); }
        for (int x = 0; x < k; ++x) if (c.r.chance(1, 3)) t.resetVars.emplace_back(x, c.r.in(0, 4) / 2.0);
        r.A.states[i]->next[0].push_back(t);
      }
    }
  }
  return r;
}

static void body(Ctx &c, bool unobs) {
  Gen g = randTA(c, unobs);
  if (c.r.chance(1, 60)) { g.A.states.clear(); g.A.initialStates.clear(); }
  // long constants now and then
  auto cv = convert(g.A, T);
  if (!cv.ok) { c.fail("harness", cv.why); return; }
  learnta::TimedAutomatonRunner run{g.A}, other{g.A};
  learnta::SUL &sul = run; learnta::SUL &sul2 = other;
  int words = c.thorough ? 40 : 20;
  std::vector<std::pair<std::vector<std::pair<int, long>>, std::vector<bool>>> hist;
  for (int w = 0; w < words; ++w) {
    ref::Runner R{cv.ta};
    bool again = !hist.empty() && c.r.chance(1, 8);  // replay an earlier word after other runs
    std::vector<std::pair<int, long>> ops; std::vector<bool> outs;
    std::string trace;
    sul.pre(); R.reset();
    bool interleave = c.r.chance(1, 4); if (interleave) sul2.pre();
    int len = c.r.in(1, 8);
    size_t hk = again ? c.r.next() % hist.size() : 0;
    if (again) len = (int) hist[hk].first.size();
    bool stuck = false;
    for (int i = 0; i < len && !stuck; ++i) {
      int kind; long D = 0;
      if (again) { kind = hist[hk].first[i].first; D = hist[hk].first[i].second; }
      else {
        kind = c.r.chance(1, 2) ? 0 : (int) c.r.pick(g.alphabet);
        if (c.r.chance(1, 40)) kind = 'z';   // an event outside the alphabet
        if (kind == 0) { D = c.r.chance(2, 5) ? T * c.r.in(0, 3) : c.r.chance(1, 3) ? T / 2 * c.r.in(0, 5) : c.r.in(0, 3 * T); if (c.r.chance(1, 50)) D = T * c.r.in(50, 100000); }
      }
      bool got, want;
      if (kind == 0) {
        // split the delay at random, with empty pieces
        want = R.delay(D);
        if (R.ambiguous) { c.ev("ambiguous"); break; }
        std::vector<long> cut{0, D}; int m = c.r.chance(1, 2) ? 0 : c.r.in(1, 4);
        for (int j = 0; j < m; ++j) cut.push_back(D ? (long) (c.r.next() % (uint64_t) (D + 1)) : 0);
        if (c.r.chance(1, 5)) cut.push_back(0);
        std::sort(cut.begin(), cut.end());
        got = false;
        for (size_t j = 1; j < cut.size(); ++j) { got = sul.step(dbl(cut[j] - cut[j - 1])); trace += " +" + std::to_string(dbl(cut[j] - cut[j - 1])); c.ev("delay_pieces"); }
        c.ev("delays");
      } else {
        got = sul.step((char) kind); want = R.act(kind);
        trace += " '" + std::string(1, (char) kind) + "'"; c.ev("events");
      }
      if (interleave) { if (c.r.chance(1, 2)) sul2.step(g.alphabet[0]); else sul2.step(dbl(c.r.in(0, 20))); }
      if (got != want) {
        c.fail(unobs ? "runner-urgent" : "runner", "after" + trace + " the runner answers " + std::to_string(got) + ", the semantics " + std::to_string(want) + "\n" + dump(g.A));
        return;
      }
      if (again && got != (bool) hist[hk].second[i]) { c.fail("restart", "a replayed word is answered differently\n" + trace + "\n" + dump(g.A)); return; }
      ops.emplace_back(kind, D); outs.push_back(got);
      if (want) c.ev("accepted_points");
      if (R.sink) { c.ev("sink_points"); if (c.r.chance(1, 2)) stuck = true; }
    }
    if (c.r.chance(4, 5)) sul.post();   // abandoned runs now and then
    if (!again && ops.size() == outs.size() && !ops.empty() && (int) ops.size() == len) hist.emplace_back(ops, outs);
    if (ops.size() > 2) c.nontrivial(trace + dump(g.A));
    if (w == 0) c.sample(dump(g.A) + "word:" + trace);
  }
}
// internal transitions that fire right after a moment; answers that hang on an infinitesimal are not judged
static void opened(Ctx &c) {
  static const long F = 1L << 30; Gen g = randTA(c, true, true); auto cv = convert(g.A, F); if (!cv.ok) { c.fail("harness", cv.why); return; }
  learnta::TimedAutomatonRunner run{g.A}; learnta::SUL &sul = run;
  for (int w = 0; w < (c.thorough ? 40 : 20); ++w) {
    std::vector<ref::Runner> R(4, ref::Runner{cv.ta}); for (int m = 0; m < 4; ++m) R[m].openMode = m;
    sul.pre(); std::string trace; int len = c.r.in(1, 8);
    for (int i = 0; i < len; ++i) {
      bool got; std::set<bool> want; bool amb = false;
      if (c.r.chance(1, 2)) {
        long D = c.r.chance(1, 4) ? F * c.r.in(0, 3) : F / 16 * c.r.in(0, 48); std::vector<long> cut{0, D}; for (int j = c.r.in(0, 2); j > 0 && D; --j) cut.push_back(c.r.chance(1, 3) ? D / F * F : (long) (c.r.next() % (uint64_t) (D / (F / 16) + 1)) * (F / 16));
        std::sort(cut.begin(), cut.end()); got = false;
        for (size_t j = 1; j < cut.size(); ++j) { long d = cut[j] - cut[j - 1]; got = sul.step((double) d / (double) F); trace += " +" + std::to_string((double) d / (double) F); if (j + 1 < cut.size()) for (auto &r : R) r.delay(d); else for (auto &r : R) want.insert(r.delay(d)); }
      } else { char a = (char) c.r.pick(g.alphabet); got = sul.step(a); trace += std::string(" '") + a + "'"; for (auto &r : R) want.insert(r.act(a)); }
      for (auto &r : R) amb |= r.ambiguous; for (auto &r : R) if (r.q != R[0].q || r.sink != R[0].sink) amb = true;
      if (amb || want.size() > 1) { c.ev("infinitesimal"); break; }
      c.ev("open_steps"); if (R[0].v != R[3].v) c.ev("after_open_transitions");
      if (got != *want.begin()) { c.fail("runner-open", "after" + trace + " the runner answers " + std::to_string(got) + "\n" + dump(g.A)); return; }
      if (R[0].sink) break;
    }
    if (c.r.chance(4, 5)) sul.post();
    c.nontrivial(trace + dump(g.A)); if (w == 0) c.sample(dump(g.A) + "word:" + trace);
  }
}
static void plain(Ctx &c) { body(c, false); }
static void urgent(Ctx &c) { body(c, true); }
int main(int ac, char **av) { return drive(ac, av, {{"plain", plain, 5000, 80000}, {"urgent", urgent, 4000, 60000}, {"open", opened, 3000, 40000}}); }
