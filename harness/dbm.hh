// An independent, exact difference-bound matrix on integer ticks. Index 0 is the constant 0.
#pragma once
#include <limits>
#include <sstream>
#include "common.hh"

namespace dbm {
constexpr long INF = std::numeric_limits<long>::max() / 4;
struct B { long c; bool le; };
inline bool less(const B &a, const B &b) { return a.c < b.c || (a.c == b.c && !a.le && b.le); }
inline bool same(const B &a, const B &b) { return (a.c >= INF && b.c >= INF) || (a.c == b.c && a.le == b.le); }
inline B add(const B &a, const B &b) { return a.c >= INF || b.c >= INF ? B{INF, false} : B{a.c + b.c, a.le && b.le}; }
inline bool holds(long d, const B &b) { return b.c >= INF || d < b.c || (d == b.c && b.le); }

struct D {
  int n = 1; std::vector<B> m;
  explicit D(int n = 1) : n(n), m((size_t) n * n, B{INF, false}) { for (int i = 0; i < n; ++i) at(i, i) = {0, true}; }
  B &at(int i, int j) { return m[(size_t) i * n + j]; }
  const B &at(int i, int j) const { return m[(size_t) i * n + j]; }
  void tighten(int i, int j, B b) { if (less(b, at(i, j))) at(i, j) = b; }  // i - j <= b
  void close() {
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      B b = add(at(i, k), at(k, j)); if (less(b, at(i, j))) at(i, j) = b;
    }
  }
  bool emptyClosed() const { for (int i = 0; i < n; ++i) if (less(at(i, i), B{0, true})) return true; return false; }
  bool empty() const { D d = *this; d.close(); return d.emptyClosed(); }
  // v[0] is the constant: v.size() == n, v[0] == 0
  bool has(const std::vector<long> &v) const {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!holds(v[i] - v[j], at(i, j))) return false;
    return true;
  }
  // both closed and non-empty
  bool includes(const D &o) const { for (size_t i = 0; i < m.size(); ++i) if (less(m[i], o.m[i]) && !same(m[i], o.m[i])) return false; return true; }
  bool equal(const D &o) const { for (size_t i = 0; i < m.size(); ++i) if (!same(m[i], o.m[i])) return false; return true; }
  D meet(const D &o) const { D d = *this; for (size_t i = 0; i < m.size(); ++i) if (less(o.m[i], d.m[i])) d.m[i] = o.m[i]; return d; }
  // a random point with every coordinate in [lo,hi] if possible; closes first; false if empty within the box
  bool randomPoint(hn::Rng &r, std::vector<long> &v, long lo, long hi) const {
    D d = *this;
    for (int i = 1; i < n; ++i) { d.tighten(i, 0, {hi, true}); d.tighten(0, i, {-lo, true}); }
    d.close(); if (d.emptyClosed()) return false;
    v.assign(n, 0);
    std::vector<int> ord; for (int i = 1; i < n; ++i) ord.push_back(i);
    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.next() % i]);
    for (int i : ord) {
      long l = -d.at(0, i).c + (d.at(0, i).le ? 0 : 1), u = d.at(i, 0).c - (d.at(i, 0).le ? 0 : 1);
      if (l > u) return false;  // no tick inside
      long x = r.chance(1, 3) ? l : r.chance(1, 2) ? u : l + (long) (r.next() % (uint64_t) (u - l + 1));
      v[i] = x; d.tighten(i, 0, {x, true}); d.tighten(0, i, {-x, true}); d.close();
      if (d.emptyClosed()) return false;
    }
    return true;
  }
  std::string show(double unit) const {
    std::ostringstream o;
    auto name = [](int i) { return i ? "x" + std::to_string(i - 1) : std::string("0"); };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && at(i, j).c < INF)
      o << name(i) << "-" << name(j) << (at(i, j).le ? "<=" : "<") << at(i, j).c / unit << " ";
    return o.str();
  }
};

// reads a matrix of Bounds: entries are rounded to ticks; exact=false if some entry is not a multiple of a tick
template<class M> D fromMatrix(const M &value, long unit, bool &exact) {
  D d((int) value.cols());
  for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.n; ++j) {
    double c = value(i, j).first;
    if (c > 1e12) { d.at(i, j) = {INF, false}; continue; }
    if (c < -1e12) { d.at(i, j) = {-1000000000, false}; continue; }
    double t = c * (double) unit; if (t != std::floor(t)) exact = false;
    d.at(i, j) = {(long) std::floor(t), value(i, j).second};
  }
  return d;
}
inline std::string showPoint(const std::vector<long> &v, double unit) {
  std::ostringstream o; o << "("; for (size_t i = 1; i < v.size(); ++i) o << (i > 1 ? ", " : "") << v[i] / unit; o << ")"; return o.str();
}
// the region of a point up to a bound for each clock (the constants are multiples of `unit` ticks)
inline D regionOf(const std::vector<long> &v, const std::vector<long> &M, long unit) {
  int n = (int) v.size(); D d(n);
  std::vector<int> small;
  for (int i = 1; i < n; ++i) {
    if (v[i] > M[i]) { d.tighten(0, i, {-M[i], false}); continue; }
    small.push_back(i);
    long f = v[i] / unit * unit;
    if (v[i] == f) { d.tighten(i, 0, {f, true}); d.tighten(0, i, {-f, true}); }
    else { d.tighten(i, 0, {f + unit, false}); d.tighten(0, i, {-f, false}); }
  }
  for (int i : small) for (int j : small) if (i != j) {
    long x = v[i] - v[j];
    long f = x >= 0 ? x / unit * unit : -((-x + unit - 1) / unit * unit);
    if (x == f) d.tighten(i, j, {f, true}); else { d.tighten(i, j, {f + unit, false}); d.tighten(j, i, {-f, false}); }
  }
  return d;
}
}  // namespace dbm
