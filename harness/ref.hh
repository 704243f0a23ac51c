// Reference model: an executable semantics of timed automata that shares no code with the library.
// Everything is exact: clock values are integers ("ticks"), or region representatives.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace ref {

enum Op { LT, LE, GE, GT };

struct Constr { int x; Op op; long c; };
struct Reset { int x; bool copy; int y; long v; };
struct Trans { int tgt; std::vector<Constr> g; std::vector<Reset> r; };

// action 0 is the unobservable one
struct TA {
  int nclk = 0;
  int init = -1;  // -1: the empty automaton
  std::vector<char> acc;
  std::vector<std::map<int, std::vector<Trans>>> next;
  long maxConst() const {
    long m = 0;
    for (auto &s : next) for (auto &[a, ts] : s) for (auto &t : ts) {
      for (auto &c : t.g) m = std::max(m, c.c);
      for (auto &r : t.r) if (!r.copy) m = std::max(m, r.v);
    }
    return m;
  }
  bool hasUnobservable() const {
    for (auto &s : next) { auto it = s.find(0); if (it != s.end() && !it->second.empty()) return true; }
    return false;
  }
};

inline bool sat1(long v, Op op, long c) {
  switch (op) { case LT: return v < c; case LE: return v <= c; case GE: return v >= c; default: return v > c; }
}

// ---- concrete run on integer ticks; `scale` ticks are one time unit; guard constants are already in ticks ----
struct Word { std::string w; std::vector<long> d; };  // d.size()==w.size()+1, in ticks

struct Conc { int q; std::vector<long> v; };

// earliest delay d>=0 after which the guard holds; closed=true if it holds at d itself, false if only just after.
inline bool earliest(const std::vector<Constr> &g, const std::vector<long> &v, long &d, bool &closed) {
  // interval of delays: lower (lo,loClosed), upper (hi,hiClosed)
  long lo = 0; bool loC = true; bool hasHi = false; long hi = 0; bool hiC = true;
  for (auto &c : g) {
    long k = c.c - v[c.x];
    if (c.op == GE || c.op == GT) {
      bool cl = c.op == GE;
      if (k > lo) { lo = k; loC = cl; }
      else if (k == lo && !cl) loC = false;
    } else {
      bool cl = c.op == LE;
      if (!hasHi || k < hi) { hasHi = true; hi = k; hiC = cl; }
      else if (k == hi && !cl) hiC = false;
    }
  }
  if (hasHi && (hi < lo || (hi == lo && !(loC && hiC)))) return false;
  d = lo; closed = loC; return true;
}

inline void applyResets(std::vector<long> &v, const std::vector<Reset> &r) {
  auto old = v;
  for (auto &x : r) v[x.x] = x.copy ? old[x.y] : x.v;
}

struct Runner {
  const TA &A;
  // When an internal transition fires right after a moment (open lower bound): -1 gives up, otherwise the moment is
  // approximated; bit 0: a tick of the delay is lost, bit 1: the clocks are a tick ahead.
  int openMode = -1;
  int q; std::vector<long> v; bool sink = false; bool ambiguous = false;
  explicit Runner(const TA &A) : A(A) { reset(); }
  void reset() { q = A.init; v.assign(A.nclk, 0); sink = q < 0; ambiguous = false; }
  bool acc() const { return !sink && A.acc[q]; }
  bool act(int a) {
    if (sink) return false;
    auto it = A.next[q].find(a);
    if (it != A.next[q].end())
      for (auto &t : it->second) {
        bool ok = true;
        for (auto &c : t.g) if (!sat1(v[c.x], c.op, c.c)) { ok = false; break; }
        if (ok) { applyResets(v, t.r); q = t.tgt; return acc(); }
      }
    sink = true; return false;
  }
  // urgent unobservable transitions; no unobservable transition is taken by a zero delay
  bool delay(long D) {
    int fuel = 100000;
    while (!sink && D > 0) {
      auto it = A.next[q].find(0);
      const Trans *best = nullptr; long bd = 0; bool bc = true, tied = false;
      if (it != A.next[q].end())
        for (auto &t : it->second) {
          long d; bool c;
          if (!earliest(t.g, v, d, c)) continue;
          if (best && d == bd && c == bc) tied = true;
          if (!best || d < bd || (d == bd && c && !bc)) { best = &t; bd = d; bc = c; tied = false; }
        }
      if (best && (bd < D || (bd == D && bc))) {
        if ((!bc && openMode < 0) || tied) ambiguous = true;
        for (auto &x : v) x += bd + (!bc && openMode > 0 && (openMode & 2) ? 1 : 0);
        applyResets(v, best->r);
        q = best->tgt; D -= bd; if (!bc && openMode > 0 && (openMode & 1)) D = std::max(0L, D - 1);
        if (--fuel == 0) { ambiguous = true; return acc(); }
        continue;
      }
      for (auto &x : v) x += D;
      D = 0;
    }
    return acc();
  }
  bool run(const Word &w) {
    reset();
    bool r = delay(w.d[0]);
    for (size_t i = 0; i < w.w.size(); ++i) { act((unsigned char) w.w[i]); r = delay(w.d[i + 1]); }
    return r;
  }
};

// ---- region-based product of two deterministic automata: decides language equality ----
// A region of n clocks: integer part ip[i] (capped at K+1 = "above K"), fraction rank fr[i] (0 = integral, ranks dense
// from 1). Clocks above K keep no order.
struct Reg {
  std::vector<int> ip, fr;
  bool operator==(const Reg &o) const { return ip == o.ip && fr == o.fr; }
};

struct RegOps {
  long K;  // in ticks: constants are at most K
  void norm(Reg &r) const {
    size_t n = r.ip.size();
    std::vector<int> ranks;
    for (size_t i = 0; i < n; ++i) {
      if (r.ip[i] > K || (r.ip[i] == K && r.fr[i] > 0)) { r.ip[i] = (int) K + 1; r.fr[i] = 0; }
      else if (r.fr[i] > 0) ranks.push_back(r.fr[i]);
    }
    std::sort(ranks.begin(), ranks.end());
    ranks.erase(std::unique(ranks.begin(), ranks.end()), ranks.end());
    for (size_t i = 0; i < n; ++i)
      if (r.fr[i] > 0) r.fr[i] = 1 + (int) (std::lower_bound(ranks.begin(), ranks.end(), r.fr[i]) - ranks.begin());
  }
  bool above(const Reg &r, int i) const { return r.ip[i] == K + 1; }
  bool sat(const Reg &r, const Constr &c, int off) const {
    int i = c.x + off;
    if (above(r, i)) return c.op == GE || c.op == GT;
    switch (c.op) {
      case LT: return r.ip[i] < c.c;
      case LE: return r.ip[i] < c.c || (r.ip[i] == c.c && r.fr[i] == 0);
      case GE: return r.ip[i] >= c.c;
      default: return r.ip[i] > c.c || (r.ip[i] == c.c && r.fr[i] > 0);
    }
  }
  // returns false if time may diverge with no further change
  bool timeSucc(Reg &r) const {
    size_t n = r.ip.size();
    bool anyInt = false; int mx = 0; bool all = true;
    for (size_t i = 0; i < n; ++i) {
      if (above(r, i)) continue;
      all = false;
      if (r.fr[i] == 0) anyInt = true;
      mx = std::max(mx, r.fr[i]);
    }
    if (all) return false;
    if (anyInt) {
      for (size_t i = 0; i < n; ++i) if (!above(r, i)) r.fr[i] += 1;
    } else {
      for (size_t i = 0; i < n; ++i)
        if (!above(r, i) && r.fr[i] == mx) { r.fr[i] = 0; r.ip[i] += 1; }
    }
    norm(r);
    return true;
  }
  void reset(Reg &r, const std::vector<Reset> &rs, int off) const {
    Reg o = r;
    for (auto &x : rs) {
      if (x.copy) { r.ip[x.x + off] = o.ip[x.y + off]; r.fr[x.x + off] = o.fr[x.y + off]; }
      else { r.ip[x.x + off] = (int) x.v; r.fr[x.x + off] = 0; }
    }
    norm(r);
  }
};

struct Diff {
  enum St { EQUAL, DIFFERENT, UNKNOWN } st = EQUAL;
  std::string why;                 // for UNKNOWN
  Word w; long scale = 1;          // a distinguishing word for DIFFERENT (ticks; scale ticks are one time unit)
  size_t configs = 0;
};

// Turn a path of the product into a concrete word: keep exact rational delays by replaying regions with
// representatives. We choose the fractions afresh at each step by greedy construction: simulate concretely with
// a fine tick, trying to follow the region path.
// A region sequence is realisable from any valuation in the start region (bisimulation), so a greedy choice works
// provided the tick is fine enough; we use 1/(2^k) refinement of the open intervals.
struct PathStep { int kind; int act; };  // kind 0: time successor, 1: action

// Language equality of two deterministic automata without unobservable transitions (or with closed-guard ones,
// urgent semantics). acceptance differs at some reachable configuration <=> languages differ.
struct Product {
  const TA &A, &B;
  std::vector<int> alphabet;
  RegOps R;
  size_t cap;
  bool complementary = false;  // look for a word both accept or both reject instead
  Product(const TA &A, const TA &B, std::vector<int> al, size_t cap) : A(A), B(B), alphabet(std::move(al)), cap(cap) {
    R.K = std::max(A.maxConst(), B.maxConst());
  }
  struct Cfg {
    int qa, qb; Reg r; bool fresh;  // fresh: no positive delay since the last action (unobservables not yet forced)
    bool operator==(const Cfg &o) const { return qa == o.qa && qb == o.qb && fresh == o.fresh && r == o.r; }
  };
  struct H {
    size_t operator()(const Cfg &c) const {
      size_t h = (size_t) c.qa * 1000003u + (size_t) c.qb * 7919u + c.fresh;
      for (size_t i = 0; i < c.r.ip.size(); ++i) h = h * 1099511628211ull + (size_t) (c.r.ip[i] * 64 + c.r.fr[i]);
      return h;
    }
  };
  static bool accOf(const TA &X, int q) { return q >= 0 && X.acc[q]; }
  bool enabled(const Trans &t, const Reg &r, int off) const {
    for (auto &c : t.g) if (!R.sat(r, c, off)) return false;
    return true;
  }
  // an action in one component
  void act(const TA &X, int &q, Reg &r, int a, int off) const {
    if (q < 0) return;
    auto it = X.next[q].find(a);
    if (it != X.next[q].end())
      for (auto &t : it->second) if (enabled(t, r, off)) { R.reset(r, t.r, off); q = t.tgt; return; }
    q = -1;
    for (int i = 0; i < X.nclk; ++i) { r.ip[i + off] = (int) R.K + 1; r.fr[i + off] = 0; }
    R.norm(r);
  }
  // fire every closed unobservable transition enabled right now; returns false on too many
  bool fire(const TA &X, int &q, Reg &r, int off, bool &fired) const {
    int fuel = 64;
    while (q >= 0) {
      auto it = X.next[q].find(0);
      if (it == X.next[q].end()) return true;
      const Trans *f = nullptr;
      for (auto &t : it->second) if (enabled(t, r, off)) { f = &t; break; }
      if (!f) return true;
      R.reset(r, f->r, off); q = f->tgt; fired = true;
      if (--fuel == 0) return false;
    }
    return true;
  }
  Diff run() {
    Diff res;
    for (auto *X : {&A, &B})
      for (auto &s : X->next) {
        auto it = s.find(0);
        if (it == s.end()) continue;
        for (auto &t : it->second) {
          bool lowerClosed = false, open = false;
          for (auto &c : t.g) { if (c.op == GE) lowerClosed = true; if (c.op == GT) open = true; }
          if (open || (!lowerClosed && !t.g.empty())) { /* handled as "fires as soon as the region is entered" */ }
          if (open) { res.st = Diff::UNKNOWN; res.why = "unobservable transition with an open lower bound"; return res; }
        }
      }
    int nA = A.nclk, nB = B.nclk;
    struct Node { Cfg c; int parent; int step; };  // step: -1 time, else action
    std::vector<Node> nodes;
    std::unordered_map<Cfg, int, H> seen;
    Cfg c0{A.init, B.init, Reg{std::vector<int>(nA + nB, 0), std::vector<int>(nA + nB, 0)}, true};
    if (A.init < 0) for (int i = 0; i < nA; ++i) c0.r.ip[i] = (int) R.K + 1;
    if (B.init < 0) for (int i = 0; i < nB; ++i) c0.r.ip[nA + i] = (int) R.K + 1;
    R.norm(c0.r);
    auto push = [&](const Cfg &c, int par, int step) {
      if (seen.emplace(c, (int) nodes.size()).second) nodes.push_back({c, par, step});
    };
    push(c0, -1, -2);
    for (size_t i = 0; i < nodes.size(); ++i) {
      Cfg c = nodes[i].c;
      if ((accOf(A, c.qa) != accOf(B, c.qb)) != complementary) {
        res.st = Diff::DIFFERENT; res.configs = nodes.size();
        std::vector<int> path;
        for (int j = (int) i; nodes[j].parent >= 0; j = nodes[j].parent) path.push_back(nodes[j].step);
        std::reverse(path.begin(), path.end());
        concretise(path, res);
        return res;
      }
      if (nodes.size() > cap) { res.st = Diff::UNKNOWN; res.why = "product too large"; res.configs = nodes.size(); return res; }
      if (c.qa < 0 && c.qb < 0) continue;
      for (int a : alphabet) {
        Cfg d = c;
        act(A, d.qa, d.r, a, 0); act(B, d.qb, d.r, a, nA);
        d.fresh = true;
        push(d, (int) i, a);
      }
      Cfg d = c;
      bool fired = false;
      // a positive delay first forces what is enabled now
      if (!fire(A, d.qa, d.r, 0, fired) || !fire(B, d.qb, d.r, nA, fired)) { res.st = Diff::UNKNOWN; res.why = "unobservable loop"; return res; }
      bool moved = R.timeSucc(d.r);
      if (!fire(A, d.qa, d.r, 0, fired) || !fire(B, d.qb, d.r, nA, fired)) { res.st = Diff::UNKNOWN; res.why = "unobservable loop"; return res; }
      d.fresh = false;
      if (moved || fired || c.fresh) push(d, (int) i, -1);
    }
    res.configs = nodes.size();
    return res;
  }
  // Concretise a path with exact arithmetic: all values are kept in units of 1/(U) ticks with a fresh halving per
  // open step. Delay choices: to enter an open region from a boundary take half of the distance to the next
  // boundary; to enter a boundary take the whole distance.
  void concretise(const std::vector<int> &path, Diff &res) const {
    long nopen = 0;
    for (int s : path) if (s == -1) ++nopen;
    int bits = (int) std::min<long>(nopen + 2, 40);
    long U = 1L << bits;
    std::vector<long> va(A.nclk, 0), vb(B.nclk, 0);
    int qa = A.init, qb = B.init;
    auto scaled = [&](const TA &X, const Trans &t, const std::vector<long> &v) {
      for (auto &c : t.g) if (!sat1(v[c.x], c.op, c.c * U)) return false;
      return true;
    };
    auto reset = [&](std::vector<long> &v, const std::vector<Reset> &rs) {
      auto o = v; for (auto &x : rs) v[x.x] = x.copy ? o[x.y] : x.v * U;
    };
    auto fireAll = [&](const TA &X, int &q, std::vector<long> &v) {
      int fuel = 64;
      while (q >= 0 && fuel--) {
        auto it = X.next[q].find(0); if (it == X.next[q].end()) return;
        const Trans *f = nullptr;
        for (auto &t : it->second) if (scaled(X, t, v)) { f = &t; break; }
        if (!f) return;
        reset(v, f->r); q = f->tgt;
      }
    };
    res.w.w.clear(); res.w.d = {0};
    for (int s : path) {
      if (s == -1) {
        fireAll(A, qa, va); fireAll(B, qb, vb);
        bool onBoundary = false; long dist = U;
        auto look = [&](const std::vector<long> &v, int q) {
          if (q < 0) return;
          for (long x : v) {
            if (x > R.K * U) continue;
            if (x % U == 0) onBoundary = true;
            long toNext = U - x % U; dist = std::min(dist, toNext);
          }
        };
        look(va, qa); look(vb, qb);
        long d = onBoundary ? dist / 2 : dist;
        for (auto &x : va) x += d;
        for (auto &x : vb) x += d;
        res.w.d.back() += d;
        fireAll(A, qa, va); fireAll(B, qb, vb);
      } else {
        auto stepc = [&](const TA &X, int &q, std::vector<long> &v) {
          if (q < 0) return;
          auto it = X.next[q].find(s);
          if (it != X.next[q].end())
            for (auto &t : it->second) if (scaled(X, t, v)) { reset(v, t.r); q = t.tgt; return; }
          q = -1;
        };
        stepc(A, qa, va); stepc(B, qb, vb);
        res.w.w.push_back((char) s); res.w.d.push_back(0);
      }
    }
    res.scale = U;  // in ticks
  }
};

// ---- nondeterministic automata without internal transitions ----
// Is an accepting state reachable? Explores all regions; returns -1 if there are more than `cap` configurations.
inline int nonEmpty(const TA &A, const std::vector<int> &inits, size_t cap, size_t *size = nullptr) {
  RegOps R; R.K = A.maxConst();
  std::set<std::pair<int, std::pair<std::vector<int>, std::vector<int>>>> seen;
  std::vector<std::pair<int, Reg>> todo;
  auto push = [&](int q, const Reg &r) { if (seen.insert({q, {r.ip, r.fr}}).second) todo.push_back({q, r}); };
  for (int q : inits) push(q, Reg{std::vector<int>(A.nclk, 0), std::vector<int>(A.nclk, 0)});
  while (!todo.empty()) {
    auto [q, r] = todo.back(); todo.pop_back();
    if (size) *size = seen.size();
    if (A.acc[q]) return 1;
    if (seen.size() > cap) return -1;
    for (auto &[a, ts] : A.next[q]) for (auto &t : ts) {
      bool ok = true;
      for (auto &c : t.g) if (!R.sat(r, c, 0)) { ok = false; break; }
      if (!ok) continue;
      Reg s = r; R.reset(s, t.r, 0); push(t.tgt, s);
    }
    Reg s = r; if (R.timeSucc(s)) push(q, s);
  }
  return 0;
}

// membership by following all runs; times and constants in the same ticks
inline bool acceptsN(const TA &A, const std::vector<int> &inits, const Word &w) {
  std::set<std::pair<int, std::vector<long>>> cur;
  for (int q : inits) cur.insert({q, std::vector<long>(A.nclk, w.d[0])});
  for (size_t i = 0; i < w.w.size(); ++i) {
    std::set<std::pair<int, std::vector<long>>> nx;
    for (auto &[q, v] : cur) {
      auto it = A.next[q].find((unsigned char) w.w[i]);
      if (it == A.next[q].end()) continue;
      for (auto &t : it->second) {
        bool ok = true;
        for (auto &c : t.g) if (!sat1(v[c.x], c.op, c.c)) { ok = false; break; }
        if (!ok) continue;
        auto u = v; applyResets(u, t.r);
        for (auto &x : u) x += w.d[i + 1];
        nx.insert({t.tgt, u});
      }
    }
    cur.swap(nx);
  }
  for (auto &[q, v] : cur) if (A.acc[q]) return true;
  return false;
}

inline std::string show(const Word &w, double unit) {
  std::ostringstream o; o << w.d[0] / unit;
  for (size_t i = 0; i < w.w.size(); ++i) o << " " << w.w[i] << " " << w.d[i + 1] / unit;
  return o.str();
}
}  // namespace ref
