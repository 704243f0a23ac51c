// Driver runtime: runs numbered cases in isolated worker processes, watches them, and writes one JSON summary.
//   driver --out FILE --seed S --tier quick|thorough [--jobs N] [--scale PERCENT]
//   driver --seed S --only WORKLOAD:INDEX          (replays one case in this process, verbosely)
#pragma once
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include <ctime>
#include <fstream>
#include "common.hh"
#ifdef HN_VALGRIND
#include <valgrind/valgrind.h>
#endif

namespace hn {

inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

struct Shm {
  volatile long current;      // position in the slot's list
  volatile long cpuStartMs;   // cpu clock of the worker when the current case began
  volatile int done;
};

struct Ctx {
  Rng r{0};
  uint64_t seed = 0;
  int idx = 0;
  bool thorough = false, replay = false;
  std::map<std::string, long> events;
  std::vector<uint64_t> keys;
  std::string sampleText, inc;
  std::vector<std::pair<std::string, std::string>> fails;
  // counts an observation made by a monitor
  void ev(const char *name, long n = 1) { events[name] += n; }
  // marks the case as non-trivial; cases with the same text count once
  void nontrivial(const std::string &what) { keys.push_back(fnv(what)); }
  void sample(const std::string &s) { if (sampleText.empty()) sampleText = s.substr(0, 1500); }
  bool fail(const std::string &key, const std::string &msg) {
    if (fails.size() < 3) fails.emplace_back(key, msg.substr(0, 6000));
    return false;
  }
  void inconclusive(const std::string &why) { inc = why; }
  bool failed() const { return !fails.empty(); }
};

struct Workload {
  std::string name;
  std::function<void(Ctx &)> fn;
  int quick, thorough;
  double cpuLimit = 40;        // seconds of CPU time for one case (sanitized build); about 100 times the usual maximum
  bool hangIsViolation = true; // otherwise a timeout is inconclusive
};

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}

inline long cpuMs() {
  struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
inline long procCpuMs(pid_t p) {
  clockid_t c;
  if (clock_getcpuclockid(p, &c)) return -1;
  struct timespec t; if (clock_gettime(c, &t)) return -1;
  return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

struct CaseRef { int w, idx; };

inline void runCase(const Workload &w, int idx, uint64_t seed, Ctx &c) {
  c.seed = seed; c.idx = idx;
  c.r = Rng(fnv(w.name) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t) idx * 0xD1B54A32D192ED03ull));
  try { w.fn(c); }
  catch (const std::exception &e) { c.fail("exception", std::string("uncaught exception: ") + e.what()); }
#ifdef HN_VALGRIND   // built to run under valgrind: what memcheck reported belongs to the case that was running
  static unsigned long seen = 0; unsigned long now = VALGRIND_COUNT_ERRORS;
  if (!RUNNING_ON_VALGRIND) c.fail("valgrind", "valgrind is not watching"); else c.ev("watched_by_valgrind");
  if (now != seen) { c.fail("valgrind", "valgrind reported " + std::to_string(now - seen) + " errors"); seen = now; }
#endif
}

inline std::string slurp(const std::string &p, size_t n = 3500) {
  std::ifstream f(p); std::string s((std::istreambuf_iterator<char>(f)), {});
  return s.size() > n ? s.substr(0, n) : s;
}

// A short, line-number-free name of a crash
inline std::string crashKey(const std::string &err, int st) {
  auto between = [&](const std::string &a, const std::string &b) -> std::string {
    auto i = err.find(a); if (i == std::string::npos) return "";
    i += a.size(); auto j = err.find(b, i); return err.substr(i, j == std::string::npos ? 120 : j - i);
  };
  std::string a = between("Assertion `", "' failed");
  if (!a.empty()) {
    auto i = err.find(": Assertion `");
    std::string loc = err.substr(0, i); auto k = loc.rfind('\n'); if (k != std::string::npos) loc = loc.substr(k + 1);
    auto b = loc.rfind('/'); if (b != std::string::npos && b < loc.find(' ')) loc = loc.substr(b + 1);
    auto col = loc.find(':');
    return "assert:" + loc.substr(0, col == std::string::npos ? 40 : col) + ":" + a;
  }
  a = between("ERROR: AddressSanitizer: ", " "); if (!a.empty()) return "asan:" + a;
  a = between("runtime error: ", "\n"); if (!a.empty()) return "ubsan:" + a;
  a = between("terminate called after throwing an instance of '", "'"); if (!a.empty()) return "exception:" + a;
  if (WIFSIGNALED(st)) return "signal:" + std::to_string(WTERMSIG(st));
  return "exit:" + std::to_string(WEXITSTATUS(st));
}

inline int drive(int argc, char **argv, std::vector<Workload> ws) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("HN_NOASLR")) {
    setenv("HN_NOASLR", "1", 1);
    if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  quiet();
  std::string out, tier = "quick", only, filter; uint64_t seed = 1; int jobs = 8, scale = 100;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--out") out = v; else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") tier = v; else if (a == "--only") only = v; else if (a == "--jobs") jobs = atoi(v.c_str());
    else if (a == "--scale") scale = atoi(v.c_str()); else if (a == "--filter") filter = v;
  }
  bool th = tier == "thorough";
  if (!only.empty()) {
    auto k = only.rfind(':'); std::string n = only.substr(0, k); int idx = atoi(only.c_str() + k + 1);
    for (auto &w : ws) if (w.name == n) {
      Ctx c; c.thorough = th; c.replay = true; runCase(w, idx, seed, c);
      for (auto &[key, m] : c.fails) printf("FAIL %s\n%s\n", key.c_str(), m.c_str());
      if (!c.inc.empty()) printf("INCONCLUSIVE %s\n", c.inc.c_str());
      for (auto &[k2, v] : c.events) printf("event %s %ld\n", k2.c_str(), v);
      if (!c.sampleText.empty()) printf("sample %s\n", c.sampleText.c_str());
      printf("cpu_ms %ld\n", cpuMs());
      return c.failed() ? 1 : 0;
    }
    fprintf(stderr, "no such workload\n"); return 2;
  }
  if (out.empty()) { fprintf(stderr, "--out missing\n"); return 2; }
  std::vector<CaseRef> all;
  for (size_t w = 0; w < ws.size(); ++w) {
    if (!filter.empty() && ws[w].name != filter) continue;
    long n = (long) (th ? ws[w].thorough : ws[w].quick) * scale / 100;
    if (n == 0 && (th ? ws[w].thorough : ws[w].quick) > 0) n = 1;
    for (long i = 0; i < n; ++i) all.push_back({(int) w, (int) i});
  }
  // slots: interleave the workloads
  std::vector<std::vector<CaseRef>> slots(jobs);
  for (size_t i = 0; i < all.size(); ++i) slots[(i * 2654435761u >> 7) % jobs].push_back(all[i]);
  std::string dir = out + ".d"; mkdir(dir.c_str(), 0755);
  struct Slot { pid_t pid = -1; size_t next = 0; Shm *sh; std::string log, err; };
  std::vector<Slot> S(jobs);
  struct Viol { std::string key, msg, wl; int idx; };
  std::vector<Viol> viols; std::map<std::string, long> incs; long crashes = 0, timeouts = 0;
  std::vector<CaseRef> retry;
  auto start = [&](int j, const std::vector<CaseRef> &list) {
    auto &s = S[j];
    s.sh->done = 0; s.sh->current = (long) s.next; s.sh->cpuStartMs = 0;
    s.pid = fork();
    if (s.pid == 0) {
      int e = open(s.err.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644); dup2(e, 2);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
      int log = open(s.log.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
      for (size_t p = s.next; p < list.size(); ++p) {
        s.sh->current = (long) p; s.sh->cpuStartMs = cpuMs();
        (void) !ftruncate(e, 0);
        Ctx c; c.thorough = th;
        runCase(ws[list[p].w], list[p].idx, seed, c);
        std::ostringstream o;
        o << "C " << list[p].w << " " << list[p].idx << " " << (cpuMs() - s.sh->cpuStartMs) << "\n";
        for (auto &[k, v] : c.events) o << "E " << k << " " << v << "\n";
        for (auto k : c.keys) o << "K " << k << "\n";
        if (!c.inc.empty()) o << "I " << c.inc << "\n";
        if (!c.sampleText.empty() && list[p].idx < 40) o << "S " << jstr(c.sampleText) << "\n";
        for (auto &[k, m] : c.fails) o << "F " << jstr(k) << " " << jstr(m) << "\n";
        o << "D\n";
        std::string t = o.str(); (void) !write(log, t.data(), t.size());
      }
      s.sh->done = 1; _exit(0);
    }
  };
  auto runAll = [&](std::vector<std::vector<CaseRef>> &lists, double factor, bool second) {
    for (size_t j = 0; j < lists.size(); ++j) { S[j].next = 0; if (!lists[j].empty()) start((int) j, lists[j]); else S[j].pid = -1; }
    for (;;) {
      bool alive = false;
      for (size_t j = 0; j < lists.size(); ++j) {
        auto &s = S[j];
        if (s.pid <= 0) continue;
        alive = true;
        int st = 0; pid_t p = waitpid(s.pid, &st, WNOHANG);
        if (p == s.pid) {
          s.pid = -1;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.sh->done) continue;
          size_t cur = (size_t) s.sh->current;
          auto &cr = lists[j][cur];
          std::string err = slurp(s.err), key = crashKey(err, st);
          ++crashes;
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && err.empty()) incs["worker killed"]++;
          else if (err.find("hard rss limit") != std::string::npos || err.find("out of memory") != std::string::npos ||
                   err.find("allocation-size-too-big") != std::string::npos || key == "exception:std::bad_alloc") {
            if (ws[cr.w].hangIsViolation) viols.push_back({"resources", "the case used too much memory\n" + err, ws[cr.w].name, cr.idx});
            else incs["memory"]++;
          }
          else viols.push_back({key, "the case ended abnormally (wait status " + std::to_string(st) + ")\n" + err, ws[cr.w].name, cr.idx});
          s.next = cur + 1;
          if (viols.size() >= 12) { for (auto &z : S) if (z.pid > 0) { kill(z.pid, SIGKILL); waitpid(z.pid, &st, 0); z.pid = -1; } return; }
          if (s.next < lists[j].size()) start((int) j, lists[j]);
          continue;
        }
        size_t cur = (size_t) s.sh->current;
        if (cur < lists[j].size()) {
          long ms = procCpuMs(s.pid);
          if (ms > 0 && (double) (ms - s.sh->cpuStartMs) > ws[lists[j][cur].w].cpuLimit * factor * 1000 &&
              (size_t) s.sh->current == cur) {
            kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); s.pid = -1;
            auto &cr = lists[j][cur];
            if (!second && ws[cr.w].hangIsViolation) retry.push_back(cr);
            else if (!second) { incs["timeout " + ws[cr.w].name]++; ++timeouts; if (getenv("HN_VERBOSE")) fprintf(stderr, "timeout %s:%d\n", ws[cr.w].name.c_str(), cr.idx); }
            else viols.push_back({"hang", "the case did not end within its CPU limit, twice", ws[cr.w].name, cr.idx});
            s.next = cur + 1;
            if (retry.size() >= 4 && !second) { for (auto &z : S) if (z.pid > 0) { kill(z.pid, SIGKILL); waitpid(z.pid, &st, 0); z.pid = -1; } return; }
            if (s.next < lists[j].size()) start((int) j, lists[j]);
          }
        }
      }
      if (!alive) break;
      usleep(20000);
    }
  };
  for (int j = 0; j < jobs; ++j) {
    S[j].sh = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S[j].log = dir + "/log." + std::to_string(j); S[j].err = dir + "/err." + std::to_string(j);
    unlink(S[j].log.c_str());
  }
  runAll(slots, 1.0, false);
  if (!retry.empty() && viols.size() < 12) {
    std::vector<std::vector<CaseRef>> l2(jobs);
    for (size_t i = 0; i < retry.size(); ++i) l2[i % jobs].push_back(retry[i]);
    runAll(l2, 2.0, true);
  }
  // collect
  long evals = 0; std::unordered_set<uint64_t> keys; std::map<std::string, long> events, perW; std::map<int, std::string> samples;
  std::map<int, long> maxMs, sumMs; std::map<int, int> maxIdx;
  for (int j = 0; j < jobs; ++j) {
    std::ifstream f(S[j].log); std::string line; int cw = -1, ci = -1;
    while (std::getline(f, line)) {
      if (line.size() < 1) continue;
      std::istringstream is(line.substr(1));
      if (line[0] == 'C') { long ms; is >> cw >> ci >> ms; sumMs[cw] += ms; if (ms >= maxMs[cw]) { maxMs[cw] = ms; maxIdx[cw] = ci; } ++evals; perW[ws[cw].name]++; }
      else if (line[0] == 'E') { std::string k; long v; is >> k >> v; events[k] += v; }
      else if (line[0] == 'K') { uint64_t k; is >> k; keys.insert(k); }
      else if (line[0] == 'I') incs[line.substr(2)]++;
      else if (line[0] == 'S') { if (!samples.count(cw)) samples[cw] = line.substr(2); }
      else if (line[0] == 'F') {
        // two JSON strings; split at the first unescaped `" "`
        size_t p = 3; while (p < line.size() && !(line[p] == '"' && line[p - 1] != '\\')) ++p;
        viols.push_back({line.substr(3, p - 3), line.substr(p + 2), ws[cw].name, ci});
        viols.back().msg = "\x01" + viols.back().msg;  // already JSON
      }
    }
  }
  std::ofstream o(out);
  o << "{\"evaluations\":" << evals << ",\"planned\":" << all.size() << ",\"distinct\":" << keys.size() << ",\"crashes\":" << crashes
    << ",\"events\":{";
  bool first = true;
  for (auto &[k, v] : events) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
  o << "},\"cases\":{"; first = true;
  for (auto &[k, v] : perW) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
  o << "},\"max_case_ms\":{"; first = true;
  for (auto &[k, v] : maxMs) { o << (first ? "" : ",") << jstr(ws[k].name + ":" + std::to_string(maxIdx[k])) << ":" << v; first = false; }
  o << "},\"sum_ms\":{"; first = true;
  for (auto &[k, v] : sumMs) { o << (first ? "" : ",") << jstr(ws[k].name) << ":" << v; first = false; }
  o << "},\"inconclusive\":{"; first = true;
  for (auto &[k, v] : incs) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
  o << "},\"samples\":["; first = true;
  for (auto &[k, v] : samples) { o << (first ? "" : ",") << "{\"workload\":" << jstr(ws[k].name) << ",\"case\":" << v << "}"; first = false; }
  o << "],\"violations\":["; first = true;
  for (auto &v : viols) {
    o << (first ? "" : ",\n") << "{\"key\":" << (v.msg[0] == 1 ? "\"" + v.key + "\"" : jstr(v.key)) << ",\"workload\":" << jstr(v.wl) << ",\"idx\":" << v.idx
      << ",\"msg\":" << (v.msg[0] == 1 ? v.msg.substr(1) : jstr(v.msg)) << "}";
    first = false;
  }
  o << "]}\n";
  o.close();
  for (int j = 0; j < jobs; ++j) { unlink(S[j].log.c_str()); unlink(S[j].err.c_str()); }
  rmdir(dir.c_str());
  return 0;
}
}  // namespace hn
