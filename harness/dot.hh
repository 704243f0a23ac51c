// Reads automata, guards and words back from the text the library prints; knows nothing of the library.
#pragma once
#include <cctype>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include "ref.hh"

namespace dot {
struct Guard { int x; std::string op; long c; };
struct Update { int x; bool copy; int y; double v; };
struct Edge { int from, to; std::string label; std::vector<Guard> guard; std::vector<Update> reset; };
struct Automaton { std::map<int, std::pair<bool, bool>> locs; std::vector<Edge> edges; bool ok = true; std::string why; };

struct Cur {
  const std::string &s; size_t p = 0;
  void ws() { while (p < s.size() && isspace((unsigned char) s[p])) ++p; }
  bool eat(const std::string &t) { ws(); if (s.compare(p, t.size(), t) == 0) { p += t.size(); return true; } return false; }
  bool num(double &v) { ws(); char *e; v = strtod(s.c_str() + p, &e); if (e == s.c_str() + p) return false; p = (size_t) (e - s.c_str()); return true; }
  bool integer(long &v) { double d; size_t q = p; if (!num(d) || d != (double) (long) d) { p = q; return false; } v = (long) d; return true; }
  bool end() { ws(); return p >= s.size(); }
};
inline bool clock(Cur &c, int &x) { long v; if (!c.eat("x") || !c.integer(v)) return false; x = (int) v; return true; }
inline bool guards(const std::string &t, std::vector<Guard> &g) {
  Cur c{t}; if (c.end()) return true;
  do { Guard q; if (!clock(c, q.x)) return false; bool ok = false; for (auto *o : {"<=", ">=", "<", ">"}) if (c.eat(o)) { q.op = o; ok = true; break; } if (!ok || !c.integer(q.c)) return false; g.push_back(q); } while (c.eat(","));
  return c.end();
}
inline bool updates(const std::string &t, std::vector<Update> &u) {
  Cur c{t}; if (c.end()) return true;
  do { Update q{}; if (!clock(c, q.x) || !c.eat(":=")) return false; int y; Cur d = c; if (clock(d, y)) { q.copy = true; q.y = y; c.p = d.p; } else if (!c.num(q.v)) return false; u.push_back(q); } while (c.eat(","));
  return c.end();
}
inline bool flag(const std::string &v, bool &b) { if (v == "1" || v == "true") { b = true; return true; } if (v == "0" || v == "false") { b = false; return true; } return false; }
// the first automaton after position `from`
inline Automaton read(const std::string &s, size_t from = 0) {
  Automaton a; auto bad = [&](const std::string &w) { if (a.ok) { a.ok = false; a.why = w; } return a; };
  size_t p = s.find("digraph", from); if (p == std::string::npos) return bad("no automaton");
  p = s.find('\n', p); if (p == std::string::npos) return bad("cut short");
  for (++p;;) {
    size_t e = s.find('\n', p); if (e == std::string::npos) return bad("no end");
    std::string line = s.substr(p, e - p); p = e + 1; Cur c{line};
    if (c.eat("}")) break; if (c.end()) continue;
    long from2; if (!c.eat("loc") || !c.integer(from2)) return bad("line: " + line);
    if (c.eat("->")) {
      long to; Edge ed; if (!c.eat("loc") || !c.integer(to)) return bad("line: " + line); ed.from = (int) from2; ed.to = (int) to; bool labelled = false;
      if (!c.eat("[")) return bad("line: " + line);
      while (!c.eat("]")) {
        c.ws(); size_t k = line.find('=', c.p); if (k == std::string::npos || k + 1 >= line.size() || line[k + 1] != '"') return bad("line: " + line);
        std::string key = line.substr(c.p, k - c.p); size_t q = line.find('"', k + 2); if (key == "label" && k + 2 < line.size() && line[k + 2] == '"') q = k + 3; if (q == std::string::npos) return bad("line: " + line);
        std::string val = line.substr(k + 2, q - k - 2); c.p = q + 1; c.eat(",");
        if (key == "label") { ed.label = val; labelled = true; continue; }
        if (val.size() < 2 || val.front() != '{' || val.back() != '}') return bad("line: " + line);
        val = val.substr(1, val.size() - 2);
        if (key == "guard") { if (!guards(val, ed.guard)) return bad("guard: " + val); } else if (key == "reset") { if (!updates(val, ed.reset)) return bad("reset: " + val); } else return bad("line: " + line);
      }
      if (!labelled || !c.end()) return bad("line: " + line);
      a.edges.push_back(ed);
    } else {
      if (!c.eat("[init=")) return bad("line: " + line); size_t k = line.find(',', c.p); if (k == std::string::npos) return bad("line: " + line); std::string i = line.substr(c.p, k - c.p); c.p = k + 1;
      if (!c.eat("match=")) return bad("line: " + line); size_t k2 = line.find(']', c.p); if (k2 == std::string::npos) return bad("line: " + line); std::string m = line.substr(c.p, k2 - c.p); bool bi, bm; if (!flag(i, bi) || !flag(m, bm)) return bad("line: " + line);
      if (a.locs.count((int) from2)) return bad("a state is listed twice: " + line); a.locs[(int) from2] = {bi, bm};
    }
  }
  for (auto &e : a.edges) if (!a.locs.count(e.from) || !a.locs.count(e.to)) return bad("a transition between states that are not listed");
  return a;
}
// a model of it, with times multiplied by scale; internal transitions get the label 0
inline bool model(const Automaton &a, long scale, ref::TA &t, std::string &why) {
  t = ref::TA{}; std::map<int, int> id; int inits = 0; for (auto &[l, m] : a.locs) { id[l] = (int) t.acc.size(); t.acc.push_back(m.second); if (m.first) { t.init = id[l]; ++inits; } }
  t.next.resize(t.acc.size()); t.nclk = 0;
  if (inits != 1) { why = std::to_string(inits) + " initial states"; return false; }
  for (auto &e : a.edges) {
    ref::Trans u; u.tgt = id[e.to]; int ev = e.label.size() == 1 ? (unsigned char) e.label[0] : 0;
    for (auto &g : e.guard) { t.nclk = std::max(t.nclk, g.x + 1); u.g.push_back({g.x, g.op == "<" ? ref::LT : g.op == "<=" ? ref::LE : g.op == ">=" ? ref::GE : ref::GT, g.c * scale}); }
    for (auto &r : e.reset) { t.nclk = std::max({t.nclk, r.x + 1, r.copy ? r.y + 1 : 0}); double v = r.v * (double) scale; if (!r.copy && v != (double) (long) v) { why = "a constant is not representable"; return false; } u.r.push_back(ref::Reset{r.x, r.copy, r.copy ? r.y : 0, r.copy ? 0 : (long) v}); }
    t.next[id[e.from]][ev].push_back(u);
  }
  return true;
}
}  // namespace dot
