// C10: what the system under learning is told, and what is reported of it.
#include <cstring>
#include <new>
#include "drv.hh"
#include "membership_oracle.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "learner.hh"
#include "forward_regional_elementary_language.hh"
using namespace hn;

struct Log { std::vector<TimedWord> words; std::vector<long> posts; std::string broken; size_t pres = 0; bool open = false; std::string w; std::vector<double> d; };
// A system that records what it is fed (delays between two events are added up) and judges the order of the calls.
// Every call is recorded: a word is a delay, and then an event and a delay alternately, zero or not.
// It answers a delay by `rule`, a function of the word fed so far, and an event by the opposite of what the delay of zero behind it gives.
struct Recorder : learnta::SUL {
  std::shared_ptr<Log> L; std::function<bool(const std::string &, const std::vector<double> &)> rule;
  void pre() override { if (L->open && L->broken.empty()) L->broken = "a word was started before the one before had ended"; L->open = true; L->w.clear(); L->d.clear(); ++L->pres; }
  void post() override {
    if (!L->open) bad("a word was ended that had not been started");
    if (L->d.size() != L->w.size() + 1) { bad("a word was ended without its last delay"); L->d.resize(L->w.size() + 1); }
    L->open = false; L->words.emplace_back(L->w, L->d);
  }
  bool step(char a) override {
    need(); if (L->d.size() != L->w.size() + 1) { bad("an event was fed before the delay in front of it"); L->d.resize(L->w.size() + 1); }
    L->w.push_back(a); auto d = L->d; d.push_back(0.0); return !rule(L->w, d);
  }
  bool step(double t) override {
    need(); if (!(t >= 0)) bad("a delay that is negative or no number");
    if (L->d.size() != L->w.size()) { bad("two delays were fed one after the other"); L->d.resize(L->w.size() + 1); L->d.back() += t; } else L->d.push_back(t);
    return rule(L->w, L->d);
  }
  void bad(const char *m) { if (L->broken.empty()) L->broken = m; }
  size_t count() const override { return L->pres; }
  void need() { if (!L->open) bad("a step outside a word"); }
};
static bool hashRule(const std::string &w, const std::vector<double> &d, uint64_t salt, int den) {
  uint64_t h = fnv(w, 1469598103934665603ull ^ salt); for (double x : d) { int64_t t = (int64_t) std::llround(x * 1024); h = fnv(std::string((const char *) &t, 8), h); }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h % (uint64_t) den == 0;
}
static std::string show(const TimedWord &w) { std::ostringstream o; o << w; return o.str(); }
using Key = std::pair<std::string, std::vector<double>>;
static Key key(const TimedWord &w) { return {w.getWord(), w.getDurations()}; }
static std::vector<long> numbers(const std::string &s) {
  std::vector<long> n; std::istringstream is(s); std::string t;
  while (is >> t) { bool dig = !t.empty(); for (char x : t) dig = dig && isdigit((unsigned char) x); if (dig) n.push_back(std::stol(t)); } return n;
}
// words that are easy to mix up: few letters and durations, permuted, shifted, extended by zeros
static TimedWord word(Ctx &c, const std::vector<TimedWord> &old) {
  static const double D[] = {0, 0, 1, 1, 2, 0.5, 0.25, 3, 10, 100, 0.0009765625, 4096};
  if (!old.empty() && c.r.chance(1, 2)) {
    auto o = c.r.pick(old); auto w = o.getWord(); auto d = o.getDurations();
    switch (c.r.in(0, 5)) {
      case 0: return o;
      case 1: { size_t i = c.r.next() % d.size(), j = c.r.next() % d.size(); std::swap(d[i], d[j]); break; }
      case 2: { size_t i = c.r.next() % d.size(), j = c.r.next() % d.size(); d[i] += d[j]; d[j] = 0; break; }
      case 3: if (w.size() > 1) std::swap(w[c.r.next() % w.size()], w[c.r.next() % w.size()]); break;
      case 4: w.push_back('a'); d.push_back(0); break;
      default: if (!w.empty()) { w.pop_back(); double z = d.back(); d.pop_back(); d.back() += z; }
    }
    return TimedWord{w, d};
  }
  std::string w; std::vector<double> d{D[c.r.in(0, 11)]}; int n = c.r.in(0, 6); int al = c.r.in(1, 3);
  for (int i = 0; i < n; ++i) { w.push_back((char) ('a' + c.r.in(0, al - 1))); d.push_back(c.r.chance(1, 8) ? c.r.in(0, 1024) / 1024.0 : D[c.r.in(0, 11)]); }
  return TimedWord{w, d};
}

static void body(Ctx &c, int kind) {   // 0: plain, 1: cached, 2: symbolic oracle
  auto L = std::make_shared<Log>(); uint64_t salt = c.r.next(); int den = c.r.in(2, 4);
  auto rule = [=](const std::string &w, const std::vector<double> &d) { return hashRule(w, d, salt, den); };
  auto mk = [&](std::shared_ptr<Log> l) { auto s = std::make_unique<Recorder>(); s->L = l; s->rule = rule; return s; };
  std::unique_ptr<learnta::MembershipOracle> o;
  if (kind == 0) o = std::make_unique<learnta::SULMembershipOracle>(mk(L));
  else if (kind == 1) o = std::make_unique<learnta::MembershipOracleCache>(std::make_unique<learnta::SULMembershipOracle>(mk(L)));
  else o = std::make_unique<learnta::SymbolicMembershipOracle>(mk(L));
  std::vector<TimedWord> asked; std::map<Key, bool> want; size_t total = 0; long symbolic = 0; std::set<Key> languages;
  int n = c.r.in(20, c.thorough ? 400 : 120);
  for (int i = 0; i < n; ++i) {
    TimedWord w = !asked.empty() && c.r.chance(1, 3) ? c.r.pick(asked) : word(c, asked);
    bool known = want.count(key(w)); size_t before = L->words.size();
    bool got = o->answerQuery(w); ++total; c.ev("queries");
    bool exp = rule(w.getWord(), w.getDurations());
    if (got != exp) { c.fail("answer", "the answer for " + show(w) + " is " + std::to_string(got) + ", the system says " + std::to_string(exp)); return; }
    if (!L->broken.empty()) { c.fail("protocol", L->broken + " (word " + show(w) + ")"); return; }
    if (L->open) { c.fail("protocol", "the word was not ended: " + show(w)); return; }
    size_t sent = L->words.size() - before; size_t expSent = kind == 0 || !known ? 1 : 0;
    if (sent != expSent) { c.fail("sent", show(w) + " was sent " + std::to_string(sent) + " times instead of " + std::to_string(expSent)); return; }
    if (sent && key(L->words.back()) != key(w)) { c.fail("fed", "asked about " + show(w) + ", fed " + show(L->words.back())); return; }
    c.ev(known ? "repeated" : "first_time"); if (exp) c.ev("accepted");
    want[key(w)] = exp; asked.push_back(w);
    if (o->count() != L->pres) { c.fail("count", "the oracle counts " + std::to_string(o->count()) + " words, " + std::to_string(L->pres) + " were sent"); return; }
  }
  if (kind == 2) for (int i = c.r.in(0, 4); i > 0; --i) {   // symbolic queries: of single words, so that each is one membership query
    auto x = c.r.pick(asked); auto d = x.getDurations(); for (auto &t : d) t = std::min(std::floor(t), 3.0); TimedWord w{x.getWord(), d}; auto l = learnta::ForwardRegionalElementaryLanguage::fromTimedWord(w);
    bool exp = rule(w.getWord(), w.getDurations()), fresh = languages.insert(key(w)).second; auto before = L->words.size(); auto got = static_cast<learnta::SymbolicMembershipOracle &>(*o).query(l);
    ++symbolic; c.ev("symbolic_queries"); if (fresh) ++total;
    if (got.empty() == exp) { c.fail("symbolic", "the symbolic query for " + show(w) + " is wrong"); return; }
    if (L->words.size() - before != (want.count(key(w)) ? 0u : 1u)) { c.fail("sent", "the symbolic query for " + show(w) + " sent " + std::to_string(L->words.size() - before) + " words"); return; }
    want[key(w)] = exp; if (!L->broken.empty()) { c.fail("protocol", L->broken); return; }
  }
  std::ostringstream s; o->printStatistics(s); auto nums = numbers(s.str());
  std::vector<long> exp = kind == 0 ? std::vector<long>{(long) L->pres} : kind == 1 ? std::vector<long>{(long) total, (long) want.size()} : std::vector<long>{symbolic, (long) languages.size(), (long) total, (long) want.size()};
  if (nums != exp) { c.fail("statistics", "after " + std::to_string(total) + " queries of " + std::to_string(want.size()) + " words the statistics say\n" + s.str()); return; }
  std::string text; for (size_t i = 0; i < asked.size() && i < 12; ++i) text += show(asked[i]) + "; ";
  c.nontrivial(text); c.sample(text);
}
static void plain(Ctx &c) { body(c, 0); }
static void cached(Ctx &c) { body(c, 1); }
static void symbolic(Ctx &c) { body(c, 2); }

// a long history: thousands of different words, and then the old ones again
static void history(Ctx &c) {
  auto L = std::make_shared<Log>(); size_t n = (size_t) c.r.in(9000, c.thorough ? 150000 : 20000); int kind = c.r.in(0, 1);
  auto rule = [](const std::string &w, const std::vector<double> &d) { uint64_t h = 0; for (char a : w) h = h * 31 + (uint64_t) a; for (double x : d) h = h * 1000003 + (uint64_t) (x * 1024); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return ((h >> 40) & 1) == 1; };
  auto s = std::make_unique<Recorder>(); s->L = L; s->rule = rule;
  std::unique_ptr<learnta::MembershipOracle> o;
  if (kind == 0) o = std::make_unique<learnta::MembershipOracleCache>(std::make_unique<learnta::SULMembershipOracle>(std::move(s)));
  else o = std::make_unique<learnta::SymbolicMembershipOracle>(std::move(s));
  auto nth = [](size_t i) { std::vector<double> d{(double) (i % 97) / 32, (double) (i / 97 % 89) / 64, (double) (i / (97 * 89))}; return TimedWord{"ab", d}; };
  auto ask = [&](size_t i, bool known) {
    TimedWord w = nth(i); size_t before = L->words.size(); bool got = o->answerQuery(w), exp = rule(w.getWord(), w.getDurations()); c.ev("queries"); if (known) c.ev("repeated_late");
    if (got != exp) return c.fail("answer", "the answer for " + show(w) + " is wrong after " + std::to_string(before) + " words");
    if (L->words.size() - before != (known ? 0u : 1u)) return c.fail("sent", show(w) + " was sent " + std::to_string(L->words.size() - before) + " times; " + std::to_string(before) + " words were sent before");
    if (!L->broken.empty()) return c.fail("protocol", L->broken);
    return true;
  };
  for (size_t i = 0; i < n; ++i) {
    if (!ask(i, false)) return;
    if (i % 8 == 7 && !ask((size_t) c.r.in(0, (int) i), true)) return;
    L->words[i] = TimedWord{};  // only their number matters
  }
  for (size_t i = 0; i < n; i += (size_t) c.r.in(1, 9)) if (!ask(i, true)) return;
  if (o->count() != n || L->pres != n) { c.fail("count", "the oracle counts " + std::to_string(o->count()) + " words, " + std::to_string(L->pres) + " were sent"); return; }
  c.nontrivial(std::to_string(n) + (kind ? "s" : "c")); c.sample(std::to_string(n) + " words");
}

// the runner as the system: an answer is the acceptance of the word by the automaton
static void runner(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 4); g.maxClocks = c.r.in(0, 3); g.maxConst = 3; g.letters = c.r.in(1, 2); g.copies = c.r.chance(1, 2); g.constResets = c.r.chance(1, 2);
  Gen t = genDTA(c.r, g); bool none = c.r.chance(1, 12); if (none) { t.A = TimedAutomaton{}; c.ev("automata_without_states"); } auto cv = convert(t.A, 1024);
  // the runner is made where something else was before
  using TR = learnta::TimedAutomatonRunner; void *mem = ::operator new(sizeof(TR)); std::memset(mem, 0x55, sizeof(TR));
  std::unique_ptr<learnta::SUL> sul{new (mem) TR(t.A)};
  learnta::MembershipOracleCache o{std::make_unique<learnta::SULMembershipOracle>(std::move(sul))};
  std::set<Key> seen;
  for (int i = 0; i < 40; ++i) {
    std::string w; std::vector<double> d{c.r.in(0, 12) / 4.0}; ref::Word x; x.d.push_back((long) (d[0] * 1024));
    for (int n = c.r.in(0, 5); n > 0; --n) { w.push_back((char) c.r.pick(t.alphabet)); d.push_back(c.r.in(0, 12) / 4.0); x.d.push_back((long) (d.back() * 1024)); }
    x.w = w; bool want = false; if (!none) { ref::Runner R{cv.ta}; want = R.run(x); } bool got = o.answerQuery(TimedWord{w, d}); seen.insert({w, d}); c.ev("queries");
    if (got != want) { c.fail("answer", "the answer for " + show(TimedWord{w, d}) + " is " + std::to_string(got) + "\n" + dump(t.A)); return; }
    if (o.count() != seen.size()) { c.fail("count", "the oracle counts " + std::to_string(o.count()) + ", distinct words " + std::to_string(seen.size())); return; }
  }
  c.nontrivial(dump(t.A));
}

// a whole learning run: every word is sent once, in full, and the printed numbers are right
static void learning(Ctx &c) {
  GenCfg g; g.maxStates = c.r.in(1, 3); g.maxClocks = c.r.in(0, 1); g.maxConst = c.r.in(1, 2); g.letters = c.r.in(1, 2);
  Gen t = genDTA(c.r, g); auto L = std::make_shared<Log>(); auto cv = convert(t.A, 1L << 30);
  auto s = std::make_unique<Recorder>(); s->L = L;
  s->rule = [&](const std::string &w, const std::vector<double> &d) { ref::Word x; x.w = w; for (double z : d) x.d.push_back((long) std::llround(z * (double) (1L << 30))); ref::Runner R{cv.ta}; return R.run(x); };
  auto m = std::make_unique<learnta::SymbolicMembershipOracle>(std::move(s));
  auto e = std::make_unique<learnta::ComplementTimedAutomataEquivalenceOracle>(t.A, t.A.complement(t.alphabet), t.alphabet);
  learnta::Learner learner{t.alphabet, std::move(m), std::move(e)};
  learner.run(); c.ev("learning_runs");
  if (!L->broken.empty()) { c.fail("protocol", L->broken + "\n" + dump(t.A)); return; }
  std::map<Key, int> n; for (auto &w : L->words) if (++n[key(w)] == 2) { c.fail("sent", show(w) + " was sent twice in a learning run\n" + dump(t.A)); return; }
  c.ev("words_of_learning_runs", (long) L->words.size());
  std::ostringstream o; learner.printStatistics(o); auto nums = numbers(o.str());
  if (std::count(nums.begin(), nums.end(), (long) L->words.size()) == 0 || L->pres != L->words.size()) { c.fail("statistics", std::to_string(L->words.size()) + " words were sent, the statistics say\n" + o.str() + dump(t.A)); return; }
  c.nontrivial(dump(t.A));
}
int main(int ac, char **av) {
  return drive(ac, av, {{"plain", plain, 1500, 20000}, {"cached", cached, 2000, 30000}, {"symbolic", symbolic, 1000, 15000}, {"history", history, 24, 120, 60, false}, {"runner", runner, 1000, 15000}, {"learning", learning, 150, 2000, 60, false}});
}
