// C20: automata described by JSON files: as parsed, and as learned by the command-line program.
#include "drv.hh"
#include "dot.hh"
#include "learn.hh"
#include "ota_json_parser.hh"
#include "experiment_runner.hh"
#include <boost/log/expressions.hpp>
// the program itself, with the level of logging of a release build; the headers above keep their assertions
#ifdef NDEBUG
#error "this driver is built with assertions"
#endif
#define NDEBUG
#define main learn_ota_json_main
#include "learn_ota_json.cc"
#undef main
#undef NDEBUG
using namespace hn;

struct Tr { int from, to; char ev; long lo, hi; bool loC, hiC, inf, reset; };   // an interval
struct File { std::vector<std::string> names; std::string events; std::vector<Tr> tr; int init = 0; std::vector<bool> acc; std::string text; };

static ref::TA model(const File &f) {
  ref::TA t; t.nclk = 1; t.init = f.init; for (bool a : f.acc) t.acc.push_back(a); t.next.resize(f.names.size());
  for (auto &x : f.tr) { ref::Trans u; u.tgt = x.to; u.g.push_back({0, x.loC ? ref::GE : ref::GT, x.lo}); if (!x.inf) u.g.push_back({0, x.hiC ? ref::LE : ref::LT, x.hi}); if (x.reset) u.r.push_back(ref::Reset{0, false, 0, 0}); t.next[x.from][(unsigned char) x.ev].push_back(u); }
  return t;
}
static std::string interval(Rng &r, const Tr &x) {
  std::ostringstream o; o << (x.loC ? "[" : "(") << x.lo << ","; if (r.chance(1, 6)) o << (x.inf ? "" : " "); if (x.inf) o << "+)"; else o << x.hi << (x.hiC ? "]" : ")"); return o.str();
}
static void write(Rng &r, File &f, const std::vector<std::string> &labels = {}) {
  std::ostringstream o; bool ids = r.chance(1, 3); std::string nl = r.chance(1, 3) ? "" : "\n  ";
  auto q = [](const std::string &s) { return "\"" + s + "\""; }; auto list = [&](const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + q(v[i]); return s + "]"; };
  std::vector<std::string> sig, acc; for (char a : f.events) sig.push_back(std::string(1, a)); for (size_t i = 0; i < f.names.size(); ++i) if (f.acc[i]) acc.push_back(f.names[i]);
  if (r.chance(1, 2)) std::reverse(acc.begin(), acc.end());
  std::vector<std::string> parts; parts.push_back(q("name") + ": " + q("A")); parts.push_back(q("l") + ": " + list(f.names)); parts.push_back(q("sigma") + ": " + list(sig));
  std::string t = q("tran") + ": {"; for (size_t i = 0; i < f.tr.size(); ++i) { auto &x = f.tr[i]; t += (i ? "," : "") + nl + "  " + q(ids ? "t" + std::to_string(f.tr.size() - i) : std::to_string(i)) + ": " + list({f.names[x.from], i < labels.size() && !labels[i].empty() ? labels[i] : std::string(1, x.ev), interval(r, x), x.reset ? "r" : "n", f.names[x.to]}); } t += nl + "}";
  parts.push_back(t); parts.push_back(q("init") + ": " + q(f.names[f.init])); parts.push_back(q("accept") + ": " + list(acc));
  if (r.chance(1, 2)) for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.next() % i]);
  o << "{"; for (size_t i = 0; i < parts.size(); ++i) o << (i ? "," : "") << nl << parts[i]; o << nl << "}\n"; f.text = o.str();
}
// plain names, and names that are easy to take for each other: starts and ends of another, other case, names of events, out of order
static std::vector<std::string> locationNames(Rng &r, int n) {
  static const std::vector<std::vector<std::string>> S = {
    {"1", "2", "3", "4", "5"}, {"loc_0", "loc_1", "loc_2", "loc_3", "loc_4"}, {"1", "10", "101", "0", "01"}, {"10", "1", "11", "110", "100"},
    {"q", "Q", "qq", "q0", "q00"}, {"a", "b", "aa", "ab", "ba"}, {"s a", "s b", "s", "a", " s"}, {"5", "4", "3", "2", "1"}, {"-1", "1", "+1", "1.0", "01"}, {"r", "n", "[0,1]", "0,+)", "init"}, {"accept", "l", "tran", "sigma", "name"}};
  auto v = S[r.next() % S.size()]; if (r.chance(1, 2)) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.next() % i]);
  v.resize((size_t) n); return v;
}
// per location and event a row of disjoint intervals
static File gen(Rng &r, int states, int letters, int K, bool complete) {
  File f; int n = r.in(1, states); auto names = locationNames(r, n); for (int i = 0; i < n; ++i) { f.names.push_back(names[i]); f.acc.push_back(r.chance(1, 2)); } if (r.chance(9, 10)) f.acc[r.in(0, n - 1)] = true;
  f.events = std::string(r.chance(1, 3) ? "zyx" : "abc").substr(0, (size_t) r.in(1, letters)); f.init = r.in(0, n - 1);
  for (int i = 0; i < n; ++i) for (char a : f.events) {
    long at = 0; bool closed = r.chance(9, 10); int m = r.in(0, 3);
    for (int j = 0; j < m; ++j) {
      Tr x{i, r.in(0, n - 1), a, at, 0, closed, false, false, r.chance(1, 2)}; x.inf = j + 1 == m && r.chance(1, 2);
      if (!x.inf) { x.hi = at + r.in(0, K); if (x.hi > K) x.hi = std::max<long>(at, K); x.hiC = r.chance(1, 2); if (x.hi == x.lo && !(x.loC && x.hiC)) { if (!x.loC) x.hi++; else x.hiC = true; } at = x.hi; closed = !x.hiC; if (r.chance(1, 3)) { at += r.in(0, 2); if (at > x.hi) closed = r.chance(1, 2); } }
      if (complete || r.chance(5, 6)) f.tr.push_back(x); if (x.inf || at > K) break;
    }
  }
  for (size_t i = f.tr.size(); i > 1; --i) std::swap(f.tr[i - 1], f.tr[r.next() % i]);
  write(r, f); return f;
}
struct Scratch {   // a file of this worker, removed again
  std::string path; explicit Scratch(const std::string &text, const char *suffix) { path = "/tmp/c20." + std::to_string(getpid()) + suffix; std::ofstream o(path); o << text; }
  ~Scratch() { unlink(path.c_str()); }
};
static bool sameLanguage(Ctx &c, const ref::TA &a, const ref::TA &b, const std::string &events, const std::string &what, const std::string &ctx, size_t cap = 200000) {
  std::vector<int> al(events.begin(), events.end()); auto d = ref::Product(a, b, al, cap).run();
  if (d.st == ref::Diff::DIFFERENT) return c.fail("language", what + " and the file disagree on " + ref::show(d.w, (double) d.scale) + "\n" + ctx);
  if (d.st == ref::Diff::EQUAL) c.ev("languages_decided"); else c.ev("languages_undecided");
  return true;
}
static void parsed(Ctx &c) {
  int K = c.r.chance(1, 4) ? 30 : c.r.in(1, 6); File f = gen(c.r, 5, 3, K, c.r.chance(1, 2)); Scratch s(f.text, ".json"); std::string ctx = f.text;
  TimedAutomaton A; std::vector<Alphabet> al;
  try { learnta::OtaJsonParser p{s.path}; A = p.getTarget(); al = p.getAlphabet(); } catch (const std::exception &e) { c.fail("refused", std::string("a valid file is refused: ") + e.what() + "\n" + ctx); return; }
  c.ev("files_parsed"); std::string got(al.begin(), al.end()), want = f.events; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got != want) { c.fail("events", "the events are " + got + "\n" + ctx); return; }
  ctx += dump(A); auto k = convert(A, 1); if (!k.ok) { c.fail("malformed", k.why + "\n" + ctx); return; }
  if (A.states.size() != f.names.size() || A.initialStates.size() != 1) { c.fail("states", std::to_string(A.states.size()) + " states, " + std::to_string(A.initialStates.size()) + " initial ones\n" + ctx); return; }
  for (auto &t : k.ta.next) for (auto &[a, ts] : t) for (auto &u : ts) for (auto &g : u.g) if (g.c > A.maxConstraints.at((size_t) g.x)) { c.fail("max-constant", "a guard is beyond the declared maximal constant\n" + ctx); return; }
  // both are run on words at, before and after each boundary, and compared exactly
  auto m = model(f); auto mt = m; for (auto &q : mt.next) for (auto &[a, ts] : q) for (auto &u : ts) for (auto &g : u.g) g.c *= 4; learnta::TimedAutomatonRunner R{A};
  for (int i = 0; i < 60; ++i) {
    ref::Word w; std::vector<double> d; int n = c.r.in(0, 5); for (int j = 0; j <= n; ++j) { long t = c.r.chance(1, 4) ? 0 : 4 * c.r.in(0, K + 1) + (c.r.chance(1, 2) ? 0 : c.r.in(-3, 3)); if (t < 0) t = 0; w.d.push_back(t); d.push_back((double) t / 4); if (j < n) w.w.push_back(f.events[c.r.next() % f.events.size()]); }
    ref::Runner S{mt}; bool want2 = S.run(w); R.pre(); bool b = false; for (int j = 0; j <= n; ++j) { b = R.step(d[j]); if (j < n) b = R.step(w.w[j]); } R.post(); c.ev("words"); if (want2) c.ev("words_accepted");
    if (b != want2) { c.fail("word", "[" + hn::show(TimedWord{w.w, d}) + "] is " + (b ? "accepted" : "rejected") + "\n" + ctx); return; }
  }
  if (!sameLanguage(c, k.ta, m, f.events, "the parsed automaton", ctx, 30000)) return;
  c.nontrivial(f.text); c.sample(f.text);
}
static void refused(Ctx &c) {
  File f = gen(c.r, 4, 2, 5, true); std::vector<std::string> labels; std::string what;
  if (f.tr.empty()) f.tr.push_back({0, 0, f.events[0], 0, 0, true, false, true, false});
  if (c.r.chance(2, 3)) {   // a second transition overlaps one of the file, with another effect
    auto x = f.tr[c.r.next() % f.tr.size()]; auto y = x; int how = c.r.in(0, 3);
    if (f.names.size() > 1 && c.r.chance(2, 3)) y.to = (x.to + 1) % (int) f.names.size(); else y.reset = !y.reset;
    long top = x.inf ? x.lo + 3 : x.hi;
    if (how == 1) { y.lo = 0; y.loC = true; y.inf = true; } else if (how == 2) { y.lo = top; y.hi = top; y.loC = y.hiC = true; y.inf = false; if (!x.inf && !x.hiC) { y.lo = x.lo; y.loC = x.loC; if (x.lo == x.hi) y.inf = true; } } else if (how == 3 && x.loC) { y.lo = 0; y.loC = true; y.inf = false; y.hi = x.lo; y.hiC = true; }   // touching at one point, from above or from below
    f.tr.insert(f.tr.begin() + (long) (c.r.next() % (f.tr.size() + 1)), y); what = "a nondeterministic automaton"; write(c.r, f); c.ev("nondeterministic_files");
  } else if (c.r.chance(1, 2)) { labels.assign(f.tr.size(), ""); auto k = c.r.next() % labels.size(); labels[k] = std::string(1, f.tr[k].ev) + (c.r.chance(1, 2) ? "b" : " "); if (c.r.chance(1, 4)) labels[k] = "start"; what = "a long event on a transition"; write(c.r, f, labels); c.ev("long_event_files"); }
  else { write(c.r, f); std::string from = std::string("\"sigma\": [\"") + f.events[0]; auto p = f.text.find(from); f.text.insert(p + from.size(), "bc"); what = "a long event in the alphabet"; c.ev("long_event_files"); }
  Scratch s(f.text, ".json");
  try { learnta::OtaJsonParser p{s.path}; c.fail("accepted", what + " is accepted\n" + f.text + dump(p.getTarget())); return; } catch (const std::exception &e) { c.ev("refusals"); }
  c.nontrivial(f.text); c.sample(what + "\n" + f.text);
}
// runs the program in a child process; its output is collected
static int program(const std::string &arg, std::string &out) {
  Scratch s("", ".out"); std::cout.flush(); fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit l{15, 20}; setrlimit(RLIMIT_CPU, &l); int fd = open(s.path.c_str(), O_WRONLY | O_TRUNC | O_APPEND); dup2(fd, 1); dup2(fd, 2);
    boost::log::core::get()->set_logging_enabled(true); std::cout.clear(); const char *av[] = {"learn_ota_json", arg.c_str(), nullptr}; int rc = learn_ota_json_main(arg.empty() ? 1 : 2, av);
    boost::log::core::get()->flush(); std::cout.flush(); fflush(nullptr); _exit(rc);
  }
  int st = 0; waitpid(p, &st, 0); out = slurp(s.path, 1 << 22); return st;
}
static void learned(Ctx &c) {
  if (c.r.chance(1, 20)) {   // no file, a file that is not there, a file that must be refused
    std::string out; int st = program("", out); if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) { c.fail("usage", "the program succeeds without a file\n" + out); return; } c.ev("program_without_file"); return;
  }
  File f = gen(c.r, 3, 2, c.r.chance(1, 10) ? 10 : c.r.in(1, 3), c.r.chance(2, 3)); if (f.events.size() > 1 && f.names.size() > 2 && c.r.chance(1, 2)) f = gen(c.r, 2, 1, 3, true);
  for (auto &x : f.tr) if (x.lo > 9 || (!x.inf && x.hi > 9)) { f = gen(c.r, 1, 1, 12, true); break; }   // two digits, but few locations
  Scratch s(f.text, ".json"); std::string out; int st = program(s.path, out); auto tail = out.size() > 2500 ? out.substr(out.size() - 2500) : out;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { c.inconclusive("the program used up its CPU time"); return; }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { c.fail("program:" + crashKey(out, st), "the program failed with wait status " + std::to_string(st) + "\n" + f.text + tail); return; }
  auto p = out.find("The learned DTA is as follows"); c.ev("programs_run");
  if (p == std::string::npos) { c.fail("program-output", "no learned automaton is printed\n" + f.text + tail); return; }
  auto a = dot::read(out, p); ref::TA t; long scale = 1; std::string why = a.why; bool ok = a.ok;
  if (ok && a.locs.empty()) { t.init = -1; }
  else if (ok) for (;; scale *= 2) { ok = dot::model(a, scale, t, why); if (ok || why != "a constant is not representable" || scale > 32) break; }   // updates may be fractions
  std::string ctx = f.text + tail; if (!ok) {
    if (a.ok && why == "a constant is not representable") { c.inconclusive("a fractional update"); return; }
    c.fail("program-output", "the learned automaton cannot be read: " + why + "\n" + ctx); return; }
  auto m = model(f); t.nclk = std::max(t.nclk, 1); m.nclk = 1; auto target = dot::read(out); ref::TA tt; if (target.ok && dot::model(target, 1, tt, why)) { tt.nclk = 1; c.ev("printed_targets"); if (!sameLanguage(c, tt, m, f.events, "the printed target", ctx)) return; }
  for (auto &q : m.next) for (auto &[x, ts] : q) for (auto &u : ts) for (auto &g : u.g) g.c *= (decltype(g.c)) scale;
  if (!sameLanguage(c, t, m, f.events, "the learned automaton", ctx)) return;
  c.ev("programs_judged"); c.nontrivial(f.text); c.sample(f.text);
}
int main(int ac, char **av) { return drive(ac, av, {{"parsed", parsed, 3000, 60000}, {"refused", refused, 1500, 30000}, {"learned", learned, 800, 12000, 40, false}}); }
