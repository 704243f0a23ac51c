// C21: what is printed is read back and compared with what was printed.
#include "drv.hh"
#include "dot.hh"
#include "learn.hh"
using namespace hn;

static std::string key(const std::string &label, std::vector<std::tuple<int, std::string, long>> g, std::map<int, std::string> u) {
  std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end()); std::ostringstream o; o << label << "|"; for (auto &[x, op, c] : g) o << x << op << c << ","; o << "|"; for (auto &[x, v] : u) o << x << "=" << v << ","; return o.str();
}
static std::string num(double v) { char b[64]; snprintf(b, 64, "%.12g", v); return b; }
static const char *opName(Constraint::Order o) { return o == Constraint::Order::lt ? "<" : o == Constraint::Order::le ? "<=" : o == Constraint::Order::ge ? ">=" : ">"; }
static std::multiset<std::string> edgesOf(const TimedAutomaton &A) {
  std::map<const TAState *, std::string> m; std::multiset<std::string> r;
  for (auto &s : A.states) m[s.get()] = s->isMatch ? "A" : "R";
  for (auto &s : A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) {
    std::vector<std::tuple<int, std::string, long>> g; for (auto &q : t.guard) g.emplace_back(q.x, opName(q.odr), q.c);
    std::map<int, std::string> u; for (auto &[x, v] : t.resetVars) u[x] = v.index() == 1 ? "x" + std::to_string(std::get<learnta::ClockVariables>(v)) : num(std::get<double>(v));
    r.insert(m[s.get()] + m[t.target] + key(a == learnta::UNOBSERVABLE ? "-" : std::string(1, a), g, u));
  }
  return r;
}
static std::multiset<std::string> edgesOf(const dot::Automaton &A) {
  std::multiset<std::string> r;
  for (auto &e : A.edges) {
    std::vector<std::tuple<int, std::string, long>> g; for (auto &q : e.guard) g.emplace_back(q.x, q.op, q.c);
    std::map<int, std::string> u; for (auto &q : e.reset) u[q.x] = q.copy ? "x" + std::to_string(q.y) : num(q.v);
    r.insert(std::string(A.locs.at(e.from).second ? "A" : "R") + (A.locs.at(e.to).second ? "A" : "R") + key(e.label.size() == 1 ? e.label : "-", g, u));
  }
  return r;
}
// everything listed: states with their marks, transitions with events, guards and updates; the same language if deterministic
static bool judge(Ctx &c, const TimedAutomaton &A, const std::vector<Alphabet> &al, bool language) {
  std::ostringstream o; int mode = c.r.in(0, 3); if (mode == 1) o << std::boolalpha; if (mode == 2) o.precision(17); if (mode == 3) o << "first\n"; o << A; if (mode == 3) o << "then\n" << A;
  std::string text = o.str(); dot::Automaton a = dot::read(text); c.ev("automata_read");
  std::string ctx = "\nprinted\n" + text + "of\n" + dump(A);
  if (!a.ok) return c.fail("unreadable", "the text cannot be read back: " + a.why + ctx);
  if (a.locs.size() != A.states.size()) return c.fail("states", std::to_string(a.locs.size()) + " states are printed" + ctx);
  std::multiset<std::pair<bool, bool>> want, got; for (auto &s : A.states) want.insert({std::find(A.initialStates.begin(), A.initialStates.end(), s) != A.initialStates.end(), s->isMatch}); for (auto &[l, m] : a.locs) got.insert(m);
  if (want != got) return c.fail("marks", "the marks of the states differ" + ctx);
  auto x = edgesOf(A), y = edgesOf(a); c.ev("transitions_read", (long) y.size()); if (x != y) { std::string d; for (auto &e : x) if (x.count(e) != y.count(e)) d += " " + e; return c.fail("transitions", "the transitions differ:" + d + ctx); }
  if (!language || A.states.empty() || A.initialStates.size() != 1) return true;
  // the language: the reading against the automaton itself, on words and exactly where the decision is small
  ref::TA m; std::string why; if (!dot::model(a, 1L << 10, m, why)) return c.fail("unreadable", why + ctx); auto k = convert(A, 1L << 10); m.nclk = k.ta.nclk = std::max(m.nclk, k.ta.nclk);
  for (int i = 0; i < 40; ++i) { auto w = randomWord(c.r, al, 6, 3); ref::Word z; z.w = w.getWord(); for (double t : w.getDurations()) z.d.push_back(std::lround(t * (1L << 10))); ref::Runner R{m}, S{k.ta}; bool p = R.run(z), q = S.run(z); c.ev("words"); if (p) c.ev("words_accepted"); if (p != q) return c.fail("language", "the text says otherwise on [" + hn::show(w) + "]" + ctx); }
  long s = scaleOf(A); if (s && s <= 4) { ref::TA m2; if (dot::model(a, s, m2, why)) { auto k2 = convert(A, s); m2.nclk = std::max(m2.nclk, k2.ta.nclk); std::vector<int> alpha(al.begin(), al.end()); auto d = ref::Product(m2, k2.ta, alpha, 4000).run(); if (d.st == ref::Diff::EQUAL) c.ev("languages_decided"); if (d.st == ref::Diff::DIFFERENT) return c.fail("language", "the text describes another language: " + ref::show(d.w, (double) d.scale * (double) s) + ctx); } }
  return true;
}
static void automata(Ctx &c) {
  GenCfg q; q.maxStates = c.r.in(1, 6); q.maxClocks = c.r.in(0, 4); q.maxConst = c.r.chance(1, 6) ? 1234567 : c.r.in(1, 4); q.letters = c.r.in(1, 3); q.copies = true; q.constResets = c.r.chance(1, 2); q.complete = c.r.chance(1, 4);
  if (q.maxConst > 1000) q.constResets = false;
  bool det = c.r.chance(2, 3); Gen g = det ? genDTA(c.r, q) : genNTA(c.r, q); auto &A = g.A;
  if (c.r.chance(1, 4)) for (auto &s : A.states) for (auto &[a, ts] : s->next) for (auto &t : ts) for (auto &[x, v] : t.resetVars) if (v.index() == 0 && c.r.chance(1, 2)) v = c.r.in(0, 20) / 4.0;   // fractional updates
  if (c.r.chance(1, 5)) for (auto &s : A.states) if (c.r.chance(1, 2)) { TATransition t; t.target = c.r.pick(A.states).get(); if (A.clockSize()) t.guard.push_back(ConstraintMaker(0) >= c.r.in(0, 3)); s->next[learnta::UNOBSERVABLE].push_back(t); det = false; c.ev("internal_printed"); }
  if (c.r.chance(1, 8)) A.states[0]->next['y'];
  if (c.r.chance(1, 12)) A.initialStates.clear();
  if (c.r.chance(1, 12) && A.states.size() > 1) A.initialStates = {A.states[0], A.states[1]};
  if (c.r.chance(1, 20)) { A.states.clear(); A.initialStates.clear(); }
  if (det && c.r.chance(1, 3) && !A.states.empty() && A.initialStates.size() == 1 && q.maxConst < 1000) { auto op = c.r.in(0, 2); if (op == 0) A = A.complement(g.alphabet); else if (op == 1) { A.simplifyStrong(); } else { A.simplify(); } }
  std::string text = dump(A);
  if (!judge(c, A, g.alphabet, det)) return;
  if (dump(A) != text) { c.fail("changed", "printing changed the automaton\n" + text); return; }
  c.nontrivial(text); c.sample(text);
}
// hypotheses and results of the learner, as they are printed after learning
static void learned(Ctx &c) {
  GenCfg q; q.maxStates = c.r.in(1, 3); q.maxClocks = 1; q.maxConst = c.r.in(1, 2); q.letters = c.r.in(1, 2); q.constResets = c.r.chance(1, 3); Gen g = target(c.r, q);
  Observed o; bool ok = true; auto l = makeLearner(c.r, g, c.r.in(0, 3), o, [&](const TimedAutomaton &h) { if (ok) ok = judge(c, h, g.alphabet, true); }); auto h = l->run(); c.ev("learned_read");
  if (ok && judge(c, h, g.alphabet, true)) { c.nontrivial(dump(g.A)); c.sample(dump(g.A)); }
}
static void texts(Ctx &c) {
  std::string all;
  for (int i = 0; i < 20; ++i) {   // guards
    std::vector<Constraint> g; int n = c.r.in(0, 5), K = c.r.chance(1, 8) ? 2000000000 : 5, X = c.r.chance(1, 4) ? 255 : 3;
    for (int j = 0; j < n; ++j) { ConstraintMaker x((learnta::ClockVariables) c.r.in(0, X)); int k = c.r.in(0, K); switch (c.r.in(0, 3)) { case 0: g.push_back(x < k); break; case 1: g.push_back(x <= k); break; case 2: g.push_back(x > k); break; default: g.push_back(x >= k); } }
    std::ostringstream o; o << g; all += o.str() + "; "; std::vector<dot::Guard> r; c.ev("guards_read"); if (!dot::guards(o.str(), r)) { c.fail("guard-unreadable", "guard printed as \"" + o.str() + "\""); return; }
    auto sat = [](long v, const std::string &op, long k) { return op == "<" ? v < 2 * k : op == "<=" ? v <= 2 * k : op == ">" ? v > 2 * k : v >= 2 * k; };   // in half units
    for (auto &q : g) for (long d = -1; d <= 1; ++d) {   // all boundaries: move one clock, keep the rest
      std::map<int, long> v; for (auto &p : g) v.emplace(p.x, c.r.in(0, 10)); v[q.x] = 2L * q.c + d; if (v[q.x] < 0) continue; bool a = true, b = true; for (auto &p : g) a = a && sat(v[p.x], opName(p.odr), p.c); for (auto &p : r) b = b && v.count(p.x) && sat(v[p.x], p.op, p.c);
      c.ev("guard_valuations"); if (a != b) { c.fail("guard", "a guard of " + std::to_string(n) + " bounds is printed as \"" + o.str() + "\""); return; }
    }
    if (r.size() < std::set<std::string>([&] { std::set<std::string> s; for (auto &q : g) s.insert(std::to_string(q.x)); return s; }()).size()) { c.fail("guard", "a clock is missing in \"" + o.str() + "\""); return; }
    for (auto &q : g) { std::ostringstream p; p << q; std::vector<dot::Guard> one; if (!dot::guards(p.str(), one) || one.size() != 1 || one[0].x != q.x || one[0].op != opName(q.odr) || one[0].c != q.c) { c.fail("constraint", "a bound is printed as \"" + p.str() + "\""); return; } }
  }
  for (int i = 0; i < 20; ++i) {   // timed words
    bool fine = c.r.chance(1, 3); std::string w; std::vector<double> d; int n = c.r.chance(1, 8) ? c.r.in(10, 40) : c.r.in(0, 5);
    for (int j = 0; j <= n; ++j) { d.push_back(c.r.chance(1, 3) ? c.r.in(0, 12) : fine ? c.r.in(0, 1 << 20) / (double) (1 << 14) : c.r.in(0, 200) / 16.0); if (j < n) w.push_back("abxyz019"[c.r.in(0, 7)]); }
    std::ostringstream o; if (fine) o.precision(17); TimedWord t{w, d}; o << t; std::string s = o.str(); all += s + "; "; c.ev("timed_words_read");
    dot::Cur cur{s}; std::string rw; std::vector<double> rd; double v; bool ok = true;
    for (int j = 0; j <= n && ok; ++j) { ok = cur.num(v); rd.push_back(v); if (ok && j < n) { cur.ws(); ok = cur.p < s.size(); if (ok) rw.push_back(s[cur.p++]); ok = ok && (j == n || (cur.p < s.size() && s[cur.p] == ' ')); } }
    bool same = ok && cur.end() && rw == w && rd.size() == d.size(); for (size_t j = 0; same && j < d.size(); ++j) same = rd[j] == d[j];
    if (!same) { c.fail("timed-word", "a timed word of " + std::to_string(n) + " events " + w + " is printed as \"" + s + "\""); return; }
  }
  c.nontrivial(all); c.sample(all);
}
int main(int ac, char **av) { return drive(ac, av, {{"automata", automata, 4000, 100000}, {"learned", learned, 200, 5000, 40, false}, {"texts", texts, 1500, 30000}}); }
