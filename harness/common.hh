// Shared between the drivers: conversion to the reference model, generators, and the verdict protocol.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <random>
#include <sstream>
#include <boost/log/core.hpp>
#include "timed_automaton.hh"
#include "timed_word.hh"
#include "ref.hh"

namespace hn {
using learnta::TimedAutomaton; using learnta::TAState; using learnta::TATransition; using learnta::Constraint;
using learnta::ConstraintMaker; using learnta::Alphabet; using learnta::TimedWord;

// ---------- deterministic randomness ----------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int in(int lo, int hi) { return lo + (int) (next() % (uint64_t) (hi - lo + 1)); }
  bool chance(int num, int den) { return (int) (next() % (uint64_t) den) < num; }
  template<class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// ---------- conversion ----------
struct Conv {
  ref::TA ta; bool ok = true; std::string why; long scale = 1;
};

// the smallest scale that makes every constant assignment integral (0: none up to 64)
inline long scaleOf(const TimedAutomaton &A) {
  for (long s : {1L, 2L, 4L, 8L, 16L, 3L, 6L, 12L, 5L, 10L, 20L, 7L, 32L, 64L, 1024L}) {
    bool ok = true;
    for (auto &st : A.states) for (auto &[a, ts] : st->next) for (auto &t : ts) for (auto &[x, v] : t.resetVars)
      if (v.index() == 0) { double y = std::get<double>(v) * s; if (y != std::floor(y) || y < 0 || y > 1e9) ok = false; }
    if (ok) return s;
  }
  return 0;
}

inline Conv convert(const TimedAutomaton &A, long scale) {
  Conv r; r.scale = scale;
  std::map<const TAState *, int> id;
  for (auto &s : A.states) { id[s.get()] = (int) r.ta.acc.size(); r.ta.acc.push_back(s->isMatch); }
  r.ta.next.resize(A.states.size());
  int n = (int) A.maxConstraints.size();
  auto bad = [&](const std::string &w) { if (r.ok) { r.ok = false; r.why = w; } };
  for (auto &s : A.states)
    for (auto &[a, ts] : s->next)
      for (auto &t : ts) {
        ref::Trans u;
        auto it = id.find(t.target);
        if (it == id.end()) { bad("a transition leaves the set of states"); continue; }
        u.tgt = it->second;
        for (auto &g : t.guard) {
          if ((int) g.x >= n) { bad("a guard uses an undeclared clock"); n = std::max(n, (int) g.x + 1); }
          u.g.push_back({(int) g.x, g.odr == Constraint::Order::lt ? ref::LT : g.odr == Constraint::Order::le ? ref::LE
                             : g.odr == Constraint::Order::ge ? ref::GE : ref::GT, (long) g.c * scale});
        }
        for (auto &[x, v] : t.resetVars) {
          if ((int) x >= n) { bad("a reset writes an undeclared clock"); n = std::max(n, (int) x + 1); }
          ref::Reset z{(int) x, v.index() == 1, 0, 0};
          if (v.index() == 1) {
            z.y = std::get<learnta::ClockVariables>(v);
            if (z.y >= n) { bad("a reset reads an undeclared clock"); n = std::max(n, z.y + 1); }
          } else {
            double y = std::get<double>(v) * (double) scale;
            if (y != std::floor(y) || y < 0) bad("a constant assignment is not representable");
            z.v = (long) y;
          }
          u.r.push_back(z);
        }
        r.ta.next[id[s.get()]][(unsigned char) a].push_back(u);
      }
  r.ta.nclk = n;
  if (!A.initialStates.empty()) {
    auto it = id.find(A.initialStates.front().get());
    if (it == id.end()) bad("the initial state is not one of the states");
    else r.ta.init = it->second;
  }
  return r;
}

inline long lcm(long a, long b) { long x = a, y = b; while (y) { long t = x % y; x = y; y = t; } return a / x * b; }

// language comparison of two library automata with the reference model
struct Cmp { ref::Diff d; long scale = 1; std::string word; TimedWord tw; };

inline TimedWord toTimedWord(const ref::Word &w, double unit) {
  std::vector<double> d; for (long x : w.d) d.push_back((double) x / unit);
  return TimedWord{w.w, d};
}

inline Cmp compare(const TimedAutomaton &A, const TimedAutomaton &B, const std::vector<Alphabet> &al, size_t cap = 300000) {
  Cmp r;
  long sa = scaleOf(A), sb = scaleOf(B);
  if (!sa || !sb || lcm(sa, sb) > 64) { r.d.st = ref::Diff::UNKNOWN; r.d.why = "constants"; return r; }
  r.scale = lcm(sa, sb);
  Conv a = convert(A, r.scale), b = convert(B, r.scale);
  if (!a.ok || !b.ok) { r.d.st = ref::Diff::UNKNOWN; r.d.why = a.ok ? b.why : a.why; return r; }
  std::vector<int> alpha(al.begin(), al.end());
  r.d = ref::Product(a.ta, b.ta, alpha, cap).run();
  if (r.d.st == ref::Diff::DIFFERENT) {
    r.word = ref::show(r.d.w, (double) r.d.scale * r.scale);
    r.tw = toTimedWord(r.d.w, (double) r.d.scale * r.scale);
  }
  return r;
}

// ---------- generator of deterministic automata ----------
struct GenCfg {
  int maxStates = 3, maxClocks = 1, maxConst = 2, letters = 1;
  bool copies = false, constResets = false, complete = false;
  int acceptNum = 1, acceptDen = 2;
  int emptyActionNum = 1, emptyActionDen = 4;
  bool copyHeavy = false;  // genNTA: many clock copies, and guards on the first clock mostly
};

struct Gen { TimedAutomaton A; std::vector<Alphabet> alphabet; };

// per state and action the clock space is cut by a decision tree of single-clock tests: disjoint guards
inline Gen genDTA(Rng &r, const GenCfg &c) {
  Gen g;
  int n = r.in(1, c.maxStates), k = r.in(c.maxClocks > 0 ? 1 : 0, c.maxClocks), K = r.in(1, c.maxConst);
  static const char letters[] = "abc";
  for (int i = 0; i < c.letters; ++i) g.alphabet.push_back(letters[i]);
  bool any = false;
  for (int i = 0; i < n; ++i) { bool acc = r.chance(c.acceptNum, c.acceptDen); any |= acc; g.A.states.push_back(std::make_shared<TAState>(acc)); }
  if (!any) g.A.states[r.in(0, n - 1)]->isMatch = true;
  for (int i = 0; i < n; ++i)
    for (Alphabet a : g.alphabet) {
      if (!c.complete && r.chance(c.emptyActionNum, c.emptyActionDen)) continue;
      std::vector<std::vector<Constraint>> leaves{{}};
      bool bands = k > 0 && r.chance(1, 6);
      if (bands) {
        // intervals of one clock, in any order
        int x = r.in(0, k - 1), m = r.in(1, 3); std::vector<std::pair<int, bool>> at; // a cut at (c, true) is below c, at (c, false) above
        for (int j = 0; j < m; ++j) at.emplace_back(r.in(0, K), r.chance(1, 2));
        std::sort(at.begin(), at.end(), [](auto &a, auto &b) { return 2 * a.first - a.second < 2 * b.first - b.second; });
        at.erase(std::unique(at.begin(), at.end()), at.end()); if (at.front() == std::make_pair(0, true)) at.erase(at.begin());
        leaves.clear();
        for (size_t j = 0; j <= at.size(); ++j) {
          std::vector<Constraint> l;
          if (j > 0) l.push_back(at[j - 1].second ? ConstraintMaker(x) >= at[j - 1].first : ConstraintMaker(x) > at[j - 1].first);
          if (j < at.size()) l.push_back(at[j].second ? ConstraintMaker(x) < at[j].first : ConstraintMaker(x) <= at[j].first);
          leaves.push_back(l);
        }
        if (r.chance(1, 2)) for (size_t j = leaves.size(); j > 1; --j) std::swap(leaves[j - 1], leaves[r.next() % j]);
      }
      // decision tree
      int cuts = k == 0 || bands ? 0 : r.in(0, 2);
      for (int j = 0; j < cuts; ++j) {
        int x = r.in(0, k - 1), K0 = r.in(0, K); bool strict = K0 == 0 ? false : r.chance(1, 2);
        std::vector<std::vector<Constraint>> nl;
        size_t split = r.next() % leaves.size();
        for (size_t l = 0; l < leaves.size(); ++l) {
          if (cuts > 1 && l != split && r.chance(1, 2)) { nl.push_back(leaves[l]); continue; }
          auto lo = leaves[l], hi = leaves[l];
          if (strict) { lo.push_back(ConstraintMaker(x) < K0); hi.push_back(ConstraintMaker(x) >= K0); }
          else { lo.push_back(ConstraintMaker(x) <= K0); hi.push_back(ConstraintMaker(x) > K0); }
          nl.push_back(lo); nl.push_back(hi);
        }
        leaves.clear();
        // keep the satisfiable ones only (independent check on a half-grid)
        for (auto &l : nl) {
          bool ok = true;
          for (int x2 = 0; x2 < k; ++x2) {
            bool some = false;
            for (int h = 0; h <= 2 * K + 1 && !some; ++h) {
              bool s = true;
              for (auto &q : l) if ((int) q.x == x2) {
                double v = h / 2.0;
                bool sat = q.odr == Constraint::Order::lt ? v < q.c : q.odr == Constraint::Order::le ? v <= q.c
                           : q.odr == Constraint::Order::ge ? v >= q.c : v > q.c;
                s = s && sat;
              }
              some = s;
            }
            ok = ok && some;
          }
          if (ok) leaves.push_back(l);
        }
      }
      for (auto &l : leaves) {
        if (!c.complete && r.chance(1, bands ? 3 : 5)) continue;
        TATransition t; t.target = g.A.states[r.in(0, n - 1)].get(); t.guard = l;
        for (int x = 0; x < k; ++x) {
          int w = r.in(0, 9);
          if (w < 4) t.resetVars.emplace_back(x, 0.0);
          else if (w == 4 && c.constResets) t.resetVars.emplace_back(x, (double) r.in(0, K));
          else if (w == 5 && c.copies && k > 1) { int y = r.in(0, k - 1); if (y != x) t.resetVars.emplace_back(x, (learnta::ClockVariables) y); }
        }
        g.A.states[i]->next[a].push_back(t);
      }
    }
  g.A.initialStates = {g.A.states[r.in(0, n - 1)]};
  g.A.maxConstraints.assign(k, K);
  return g;
}

// automata with arbitrary (also overlapping) guards, one accepting state or few, without internal transitions
inline Gen genNTA(Rng &r, const GenCfg &c) {
  Gen g;
  int n = r.in(1, c.maxStates), k = r.in(c.maxClocks > 0 ? 1 : 0, c.maxClocks), K = r.in(1, c.maxConst);
  for (int i = 0; i < c.letters; ++i) g.alphabet.push_back((Alphabet) ('a' + i));
  for (int i = 0; i < n; ++i) g.A.states.push_back(std::make_shared<TAState>(false));
  int nacc = r.chance(2, 3) ? 1 : r.in(0, n);
  for (int i = 0; i < nacc; ++i) g.A.states[r.chance(2, 3) ? n - 1 : r.in(0, n - 1)]->isMatch = true;
  std::vector<int> mx(k, 0);
  int m = r.in(n - 1, 2 * n + 4);
  bool tight = r.chance(1, 2);
  for (int i = 0; i < m; ++i) {
    TATransition t;
    int src = i < n - 1 && r.chance(3, 4) ? i : r.in(0, n - 1), dst = i < n - 1 && r.chance(3, 4) ? i + 1 : r.in(0, n - 1);
    t.target = g.A.states[dst].get();
    if (k) for (int j = r.in(tight ? 1 : 0, tight ? 4 : 3); j > 0; --j) {
      int x = c.copyHeavy && r.chance(3, 4) ? 0 : r.in(0, k - 1), C = r.in(0, K);
      switch (r.in(0, 5)) {
        case 0: t.guard.push_back(ConstraintMaker(x) <= C); break;
        case 1: if (C) t.guard.push_back(ConstraintMaker(x) < C); break;
        case 2: t.guard.push_back(ConstraintMaker(x) >= C); break;
        case 3: t.guard.push_back(ConstraintMaker(x) > C); break;
        case 4: t.guard.push_back(ConstraintMaker(x) >= C); t.guard.push_back(ConstraintMaker(x) <= C); break;
        default: if (C) { t.guard.push_back(ConstraintMaker(x) > C - 1); t.guard.push_back(ConstraintMaker(x) < C); }
      }
    }
    for (int x = 0; x < k; ++x) {
      int w = r.in(c.copyHeavy ? 2 : 0, 9);
      if (w < 4) t.resetVars.emplace_back(x, 0.0);
      else if (w == 4 && c.constResets) t.resetVars.emplace_back(x, (double) r.in(0, K));
      else if ((w == 5 || (w < 8 && c.copyHeavy)) && c.copies && k > 1) { int y = r.in(0, k - 1); if (y != x) t.resetVars.emplace_back(x, (learnta::ClockVariables) y); }
    }
    for (auto &q : t.guard) mx[q.x] = std::max(mx[q.x], (int) q.c);
    g.A.states[src]->next[r.pick(g.alphabet)].push_back(t);
  }
  g.A.initialStates = {g.A.states[0]};
  if (n > 1 && r.chance(1, 12)) g.A.initialStates.push_back(g.A.states[1]);
  g.A.maxConstraints = r.chance(1, 2) ? mx : std::vector<int>(k, K);
  return g;
}

inline TimedAutomaton copyOf(const TimedAutomaton &A) {
  TimedAutomaton B; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; A.deepCopy(B, m); return B;
}

// one small change that keeps the automaton deterministic; "" if nothing was changed
inline std::string mutate(Rng &r, Gen &g) {
  auto &A = g.A; int n = (int) A.states.size(), k = (int) A.clockSize();
  if (n == 0) return "";
  std::vector<std::pair<TAState *, Alphabet>> slots;
  for (auto &s : A.states) for (Alphabet a : g.alphabet) if (s->next.count(a) && !s->next[a].empty()) slots.push_back({s.get(), a});
  for (int tries = 0; tries < 12; ++tries) {
    int kind = r.in(0, 7);
    if (kind == 0) { auto &s = A.states[r.in(0, n - 1)]; s->isMatch = !s->isMatch; return "acceptance"; }
    if (slots.empty()) continue;
    auto [s, a] = r.pick(slots); auto &ts = s->next[a]; auto &t = ts[r.next() % ts.size()];
    if (kind == 1) { auto *o = t.target; t.target = A.states[r.in(0, n - 1)].get(); if (o != t.target) return "target"; continue; }
    if (kind == 2) { if (r.chance(1, 2) && ts.size() > 1) { ts.erase(ts.begin() + (long) (r.next() % ts.size())); return "removed transition"; } continue; }
    if (k == 0) continue;
    if (kind == 3 || kind == 4) {   // a boundary moves from open to closed (or the other way) on both sides
      if (t.guard.empty()) continue;
      auto q = t.guard[r.next() % t.guard.size()];
      bool strictLow = q.odr == Constraint::Order::lt || q.odr == Constraint::Order::ge;   // the cut is [<c | >=c] or [<=c | >c]
      if (strictLow || q.c > 0)
        for (auto &u : ts) for (auto &p : u.guard) if (p.x == q.x && p.c == q.c) {
          if (strictLow) { if (p.odr == Constraint::Order::lt) p.odr = Constraint::Order::le; else if (p.odr == Constraint::Order::ge) p.odr = Constraint::Order::gt; }
          else { if (p.odr == Constraint::Order::le) p.odr = Constraint::Order::lt; else if (p.odr == Constraint::Order::gt) p.odr = Constraint::Order::ge; }
        }
        else continue;
      return "boundary";
    }
    if (kind == 5) {   // an update is dropped, added or changed
      int x = r.in(0, k - 1); bool had = false;
      for (size_t i = 0; i < t.resetVars.size(); ++i) if ((int) t.resetVars[i].first == x) { t.resetVars.erase(t.resetVars.begin() + (long) i); had = true; break; }
      if (!had || r.chance(1, 3)) {
        if (k > 1 && r.chance(1, 3)) { int y = (x + 1) % k; t.resetVars.emplace_back(x, (learnta::ClockVariables) y); }
        else t.resetVars.emplace_back(x, had ? 1.0 : 0.0);
      }
      return "update";
    }
    if (kind == 6) {   // a guard is strengthened
      int x = r.in(0, k - 1), K = r.in(0, A.maxConstraints[x]);
      t.guard.push_back(r.chance(1, 2) ? ConstraintMaker(x) <= K : ConstraintMaker(x) > K); return "stronger guard";
    }
    if (kind == 7) {   // a cut moves
      if (t.guard.empty()) continue;
      auto q = t.guard[r.next() % t.guard.size()]; int d = q.c == 0 ? 1 : r.chance(1, 2) ? 1 : -1;
      if (q.c + d > A.maxConstraints[q.x]) d = -1;
      if (q.c + d < 0 || (q.c + d == 0 && (q.odr == Constraint::Order::lt || q.odr == Constraint::Order::ge))) continue;
      for (auto &u : ts) for (auto &p : u.guard) if (p.x == q.x && p.c == q.c) p.c += d;
      return "constant";
    }
  }
  return "";
}

// are two transitions with different effect enabled at one valuation?
inline bool isDeterministic(const TimedAutomaton &A) {
  for (auto &s : A.states) for (auto &[a, ts] : s->next) for (size_t i = 0; i < ts.size(); ++i) for (size_t j = i + 1; j < ts.size(); ++j) {
    if (ts[i].target == ts[j].target && ts[i].resetVars == ts[j].resetVars) continue;
    std::map<int, std::pair<int, int>> b;   // clock -> interval of half units, exact for these guards
    bool sat = true;
    for (auto *t : {&ts[i], &ts[j]}) for (auto &g : t->guard) {
      auto &[lo, hi] = b.emplace(g.x, std::make_pair(0, 1 << 28)).first->second;
      switch (g.odr) {
        case Constraint::Order::lt: hi = std::min(hi, 2 * g.c - 1); break;
        case Constraint::Order::le: hi = std::min(hi, 2 * g.c); break;
        case Constraint::Order::ge: lo = std::max(lo, 2 * g.c); break;
        default: lo = std::max(lo, 2 * g.c + 1);
      }
    }
    for (auto &[x, p] : b) if (p.first > p.second) sat = false;
    if (sat) return false;
  }
  return true;
}

inline std::string dump(const TimedAutomaton &A) {
  std::ostringstream o;
  std::map<const TAState *, int> id; int i = 0;
  for (auto &s : A.states) id[s.get()] = i++;
  o << "clocks=" << A.maxConstraints.size() << " max=[";
  for (int m : A.maxConstraints) o << m << " ";
  o << "] init=" << (A.initialStates.empty() ? -1 : id.count(A.initialStates[0].get()) ? id[A.initialStates[0].get()] : -2) << "\n";
  for (auto &s : A.states) {
    o << "  q" << id[s.get()] << (s->isMatch ? " accepting" : "") << "\n";
    std::map<int, std::vector<TATransition>> m; for (auto &[a, ts] : s->next) m[a] = ts;
    for (auto &[a, ts] : m) for (auto &t : ts) {
      o << "    "; if (a) o << (char) a; else o << "eps";
      o << " -> q" << (id.count(t.target) ? id[t.target] : -2) << " {";
      for (size_t j = 0; j < t.guard.size(); ++j) {
        auto &q = t.guard[j];
        o << (j ? ", " : "") << "x" << (int) q.x << (q.odr == Constraint::Order::lt ? "<" : q.odr == Constraint::Order::le ? "<="
             : q.odr == Constraint::Order::ge ? ">=" : ">") << q.c;
      }
      o << "} [";
      for (size_t j = 0; j < t.resetVars.size(); ++j) {
        auto &[x, v] = t.resetVars[j];
        o << (j ? ", " : "") << "x" << (int) x << ":=";
        if (v.index() == 1) o << "x" << (int) std::get<learnta::ClockVariables>(v); else o << std::get<double>(v);
      }
      o << "]\n";
    }
  }
  return o.str();
}

inline void quiet() { if (!getenv("HN_LOG")) boost::log::core::get()->set_logging_enabled(false); }
}  // namespace hn
