// Concrete replay of the contracts against the real code (compiled from /repo with ASan/UBSan).
// usage: driver MODE run SECONDS SEED DICT      DICT: comma separated interesting integers
//        driver MODE replay p1,p2,...
// prints "WITNESS MODE p1,p2,... : message" and exits 3 when the contract fails on a concrete input.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
#endif

namespace drv {
typedef unsigned long long u64;
typedef std::vector<u64> par;

static char current[4096] = "";
static u64 evaluations = 0;

static void report(const char *msg) {
  char buf[8192];
  int n = snprintf(buf, sizeof buf, "WITNESS %s : %s\n", current, msg);
  ssize_t r = write(1, buf, n);
  (void)r;
}
static void on_death() { report("sanitizer error (invalid memory access or undefined behaviour)"); }
static void on_signal(int s) {
  report(s == SIGVTALRM ? "does not terminate (CPU time limit of one case)" : "crash (signal)");
  _exit(3);
}

struct Fail {
  std::string msg;
};
#define EXPECT(c, ...)                                                                             \
  do {                                                                                             \
    if (!(c)) {                                                                                    \
      char expect_buf[512];                                                                        \
      snprintf(expect_buf, sizeof expect_buf, __VA_ARGS__);                                        \
      throw drv::Fail{expect_buf};                                                                 \
    }                                                                                              \
  } while (0)

struct Gen {
  std::mt19937_64 rng;
  std::vector<u64> dict;
  double budget;
  std::chrono::steady_clock::time_point start;
  std::function<void(const par &)> run;
  const char *mode;
  bool left() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() < budget;
  }
  u64 below(u64 n) { return n ? rng() % n : 0; }
  u64 between(u64 a, u64 b) { return a + below(b - a + 1); }
  // a "size": small, a dictionary value or near one; at most hi
  u64 pick(u64 lo, u64 hi) {
    u64 v;
    switch (below(4)) {
    case 0:
      v = between(lo, std::min<u64>(hi, lo + 9));
      break;
    case 1:
    case 2:
      if (!dict.empty()) {
        v = dict[below(dict.size())];
        u64 k = below(8);
        if (k == 0)
          v += 1;
        else if (k == 1 && v)
          v -= 1;
        else if (k == 2)
          v *= 2;
        else if (k == 3 && v > 1)
          v = v / 2 + below(2);
        break;
      } // fallthrough
    default:
      v = between(lo, std::min<u64>(hi, lo + 40));
    }
    return v < lo || v > hi ? between(lo, std::min<u64>(hi, lo + 20)) : v;
  }
  void emit(const par &p) {
    std::string s = mode;
    s += " ";
    for (size_t i = 0; i < p.size(); i++)
      s += (i ? "," : "") + std::to_string(p[i]);
    snprintf(current, sizeof current, "%s", s.c_str());
    itimerval tv = {{0, 0}, {60, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    try {
      run(p);
    } catch (const Fail &f) {
      report(f.msg.c_str());
      _exit(3);
    } catch (const std::exception &e) {
      report((std::string("unexpected exception: ") + e.what()).c_str());
      _exit(3);
    } catch (...) {
      report("unexpected exception");
      _exit(3);
    }
    evaluations++;
  }
};

struct Mode {
  const char *name;
  void (*run)(const par &);
  void (*gen)(Gen &);
};

inline std::vector<u64> numbers(const char *s) {
  std::vector<u64> r;
  while (s && *s) {
    char *e;
    r.push_back(strtoull(s, &e, 10));
    if (e == s)
      break;
    s = *e ? e + 1 : e;
  }
  return r;
}

inline int main(int argc, char **argv, const std::vector<Mode> &modes) {
  if (argc < 4)
    return 2;
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_death_callback(on_death);
#endif
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM})
    signal(s, on_signal);
  std::set_terminate([] {
    report("std::terminate");
    _exit(3);
  });
  for (const Mode &m : modes) {
    if (strcmp(m.name, argv[1]))
      continue;
    Gen g;
    g.mode = m.name;
    g.run = m.run;
    if (!strcmp(argv[2], "replay")) {
      g.emit(numbers(argv[3]));
      printf("HOLDS %s %s\n", m.name, argv[3]);
      return 0;
    }
    g.budget = atof(argv[3]);
    g.rng.seed(argc > 4 ? strtoull(argv[4], nullptr, 10) : 1);
    if (argc > 5)
      g.dict = numbers(argv[5]);
    g.start = std::chrono::steady_clock::now();
    m.gen(g);
    printf("OK %s %llu\n", m.name, evaluations);
    return 0;
  }
  return 2;
}

// odometer over [lo_i, hi_i]; calls f with every vector while time is left
inline void product(Gen &g, const std::vector<u64> &lo, const std::vector<u64> &hi, const std::function<void(const par &)> &f) {
  par p(lo);
  for (;;) {
    if (!g.left())
      return;
    f(p);
    size_t i = p.size();
    while (i > 0 && p[i - 1] == hi[i - 1]) {
      p[i - 1] = lo[i - 1];
      i--;
    }
    if (i == 0)
      return;
    p[i - 1]++;
  }
}
} // namespace drv
