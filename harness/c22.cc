// C22: timed words against a model that keeps a list of (event, absolute time) and a total time.
#include "drv.hh"
#include <boost/functional/hash.hpp>
using namespace hn;
static const long T = 1L << 30;  // ticks in a time unit; sums of the words below stay exact

struct M {  // model: events with absolute times, total time
  std::vector<std::pair<char, long>> e; long total = 0;
  bool operator==(const M &o) const { return e == o.e && total == o.total; }
  std::string show() const { std::ostringstream s; for (auto &[a, t] : e) s << a << "@" << t << "/" << T << " "; s << "end@" << total << "/" << T; return s.str(); }
};
static M cat(const M &a, const M &b) { M r = a; for (auto &[c, t] : b.e) r.e.emplace_back(c, t + a.total); r.total += b.total; return r; }
static M read(const TimedWord &w, bool &ok) {
  M r; auto &d = w.getDurations(); const std::string s = w.getWord(); ok = d.size() == s.size() + 1; if (!ok) return r;
  for (size_t i = 0; i < d.size(); ++i) {
    double t = d[i] * T; if (t != std::floor(t)) ok = false;
    r.total += (long) t;
    if (i < s.size()) r.e.emplace_back(s[i], r.total);
  }
  return r;
}

// a delay: zero, whole, a few eighths, or off such a one by very little
static long delay(Ctx &c) {
  long t = c.r.chance(1, 3) ? 0 : c.r.chance(1, 2) ? T * c.r.in(0, 4) : T / 8 * c.r.in(0, 40);
  if (c.r.chance(1, 5)) { long e = T >> c.r.in(5, 30); t = c.r.chance(1, 2) ? t + e : std::max(0L, t - e); } return t;
}
static TimedWord gen(Ctx &c, M &m, int maxLen, bool &hadInternal) {
  int n = c.r.in(0, maxLen); std::string w; std::vector<double> d; m = M{};
  for (int i = 0; i <= n; ++i) {
    long t = delay(c);
    d.push_back((double) t / T); m.total += t;
    if (i < n) {
      char a = c.r.chance(1, 5) ? learnta::UNOBSERVABLE : (char) ("abcxyz"[c.r.in(0, 5)]);
      w.push_back(a); if (a != learnta::UNOBSERVABLE) m.e.emplace_back(a, m.total); else hadInternal = true;
    }
  }
  return TimedWord{w, d};
}

static void words(Ctx &c) {
  std::vector<std::pair<TimedWord, M>> pool; pool.emplace_back(TimedWord{}, M{});
  bool internal = false; std::string hist;
  auto check = [&](const TimedWord &w, const M &m, const char *what) {
    bool ok; M g = read(w, ok); c.ev("words_checked");
    if (!ok || !(g == m)) { std::ostringstream s; s << what << ": expected " << m.show() << ", got " << w << "\n" << hist; return c.fail(what, s.str()); }
    if (w.wordSize() != m.e.size()) return c.fail("size", "wordSize is wrong");
    auto acc = w.getAccumulatedDurations();
    if (acc.size() != m.e.size() + 1) return c.fail("accumulated", "wrong number of accumulated durations");
    for (size_t i = 0; i < acc.size(); ++i) {
      long from = i == 0 ? 0 : m.e[i - 1].second;
      if (acc[i] * T != (double) (m.total - from)) { std::ostringstream s; s << "accumulated duration " << i << " of " << w << " is " << acc[i]; return c.fail("accumulated", s.str()); }
    }
    return true;
  };
  int steps = c.thorough ? 60 : 30;
  for (int s = 0; s < steps; ++s) {
    int op = c.r.in(0, 6); auto a = c.r.pick(pool), b = c.r.pick(pool);
    TimedWord keepA = a.first, keepB = b.first;
    std::ostringstream h; h << "op " << op << " on [" << a.first << "] and [" << b.first << "]\n"; hist = h.str();
    if (op <= 1) {
      M m; bool in = false; auto w = gen(c, m, c.r.chance(1, 10) ? 40 : 6, in); internal |= in; if (in) c.ev("internal_absorbed");
      if (!check(w, m, in ? "absorbing internal events" : "constructor")) return;
      pool.emplace_back(w, m);
    } else if (op == 2) {
      if (a.second.total + b.second.total > 1L << 48) continue;  // beyond that sums of doubles are rounded
      auto w = a.first + b.first; M m = cat(a.second, b.second); c.ev("concatenations");
      if (!check(w, m, "concatenation")) return;
      if (m.e.size() < 200) pool.emplace_back(w, m);
      // associativity with a third word
      auto d = c.r.pick(pool);
      if (!((a.first + b.first) + d.first == a.first + (b.first + d.first))) { c.fail("associativity", "concatenation is not associative\n" + hist); return; }
    } else if (op == 3) {
      char x = "abc"[c.r.in(0, 2)]; auto w = a.first + x; M m = a.second; m.e.emplace_back(x, m.total);
      if (!check(w, m, "adding an event")) return; pool.emplace_back(w, m);
    } else if (op == 4) {
      long t = delay(c); auto w = a.first + (double) t / T; M m = a.second; m.total += t;
      if (!check(w, m, "adding a delay")) return; pool.emplace_back(w, m);
    } else if (op == 6) {  // the same word with one delay off by very little: another word
      auto d = a.first.getDurations(); size_t i = c.r.next() % d.size(); long e = T >> c.r.in(3, 30); d[i] += (double) e / T;
      TimedWord w{a.first.getWord(), d}; M m = a.second; m.total += e; for (size_t k = i; k < m.e.size(); ++k) m.e[k].second += e; c.ev("almost_equal");
      if (!check(w, m, "constructor")) return; pool.emplace_back(w, m);
    } else {
      // cut at a random place (within a delay too), take the suffix, and put it back
      auto &d = a.first.getDurations(); size_t k = (size_t) c.r.in(0, (int) a.first.wordSize());
      std::string pw = a.first.getWord().substr(0, k); std::vector<double> pd(d.begin(), d.begin() + (long) k + 1);
      long last = (long) (pd.back() * T); long cut = c.r.chance(1, 3) ? last : c.r.chance(1, 2) ? 0 : last ? (long) (c.r.next() % (uint64_t) (last + 1)) : 0;
      pd.back() = (double) cut / T; TimedWord p{pw, pd}; c.ev("suffixes");
      auto suf = a.first.getSuffix(p);
      M ms; bool ok; long pt = read(p, ok).total;
      for (size_t i = k; i < a.second.e.size(); ++i) ms.e.emplace_back(a.second.e[i].first, a.second.e[i].second - pt);
      ms.total = a.second.total - pt;
      std::ostringstream h2; h2 << "prefix [" << p << "]\n"; hist += h2.str();
      if (!check(suf, ms, "removing a prefix")) return;
      if (!(p + suf == a.first)) { c.fail("prefix", "prefix + suffix differs from the word\n" + hist); return; }
    }
    if (!(a.first == keepA) || !(b.first == keepB)) { c.fail("operands", "an operation changed its operands\n" + hist); return; }
  }
  // equality and hashing over all pairs
  std::set<size_t> hashes; std::set<std::string> distinct;
  for (auto &[w, m] : pool) {
    hashes.insert(learnta::hash_value(w)); distinct.insert(m.show());
    for (auto &[w2, m2] : pool) {
      c.ev("pairs_compared");
      if ((w == w2) != (m == m2)) { std::ostringstream s; s << "[" << w << "] == [" << w2 << "] is " << (w == w2); c.fail("equality", s.str()); return; }
      if (m == m2 && learnta::hash_value(w) != learnta::hash_value(w2)) { c.fail("hash", "equal words hash differently"); return; }
      // built again from its parts, a word is equal and hashes equally
    }
    TimedWord copy{w.getWord(), w.getDurations()};
    if (!(copy == w) || learnta::hash_value(copy) != learnta::hash_value(w)) { c.fail("hash", "a rebuilt word differs from the original"); return; }
  }
  if (distinct.size() >= 8 && hashes.size() * 2 < distinct.size()) { c.fail("hash", "most different words have the same hash"); return; }
  if (pool.size() > 5) { std::ostringstream s; s << pool.back().first; c.sample(s.str()); c.nontrivial(pool.back().second.show() + std::to_string(pool.size()) + (internal ? "i" : "")); }
}
int main(int ac, char **av) { return drive(ac, av, {{"words", words, 6000, 60000, 20, true}}); }
