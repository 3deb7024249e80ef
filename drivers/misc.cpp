// Concrete replay of the contracts of learning/MetaProgrammingCPP.cpp and src/aligned_allocator.hpp (real code).
#include "common.hpp"

#include "aligned_allocator.hpp"
#include <type_traits>
#define main learning_main
#include "learning/MetaProgrammingCPP.cpp"
#undef main
using namespace drv;

struct Rec {
  std::vector<par> *log;
  template <typename... I> void operator()(I... i) const { log->push_back(par{(u64)i...}); }
};
template <size_t D> static void looper(u64 mn, u64 mx) {
  std::vector<par> log;
  Looper<D, size_t> l(mn, mx);
  l.iterate_simple(Rec{&log});
  u64 m = mx > mn ? mx - mn : 0, n = 1;
  for (size_t d = 0; d < D; d++)
    n *= m;
  EXPECT(log.size() == n, "%zu calls for %llu indices", log.size(), n);
  for (u64 q = 0; q < n; q++) {
    u64 r = q;
    EXPECT(log[q].size() == D, "call with %zu indices", log[q].size());
    for (size_t d = D; d-- > 0; r /= m)
      EXPECT(log[q][d] == mn + r % m, "call %llu sees index %llu in direction %zu instead of %llu", q, log[q][d], d, mn + r % m);
  }
}
static void looper_run(const par &p) {
  switch (p[0]) {
  case 1:
    return looper<1>(p[1], p[2]);
  case 2:
    return looper<2>(p[1], p[2]);
  case 3:
    return looper<3>(p[1], p[2]);
  default:
    return looper<4>(p[1], p[2]);
  }
}
static void looper_gen(Gen &g) {
  static const u64 top[] = {0, 40, 40, 14, 8};
  for (u64 d = 1; d <= 4; d++)
    product(g, {0, 0}, {6, d < 3 ? 20ull : 9ull}, [&](const par &q) { g.emit({d, q[0], q[1]}); });
  for (u64 v : g.dict)
    for (u64 mn : {v, v > 1 ? v - 1 : 0})
      for (u64 m = 0; m < 4 && g.left(); m++)
        g.emit({1 + m, mn, mn + m});
  for (u64 v : g.dict)
    if (v <= 2000 && g.left())
      g.emit({1 + (v <= 300), 0, v});
  while (g.left()) {
    u64 d = g.pick(1, 4), mn = g.pick(0, 1000);
    g.emit({d, mn, mn + g.pick(0, top[d])});
  }
}

template <typename T> static void alloc_one(u64 n, u64 al) {
  alignment::aligned_allocator a, b;
  T *p = a.alloc<T>(n, al), *q = b.alloc<T>(n, al);
  EXPECT(reinterpret_cast<uintptr_t>(p) % al == 0 && reinterpret_cast<uintptr_t>(q) % al == 0, "the array is not aligned to %llu", al);
  u64 step = n > 4096 ? n / 1024 : 1;
  for (u64 k = 0; k < n; k += step)
    p[k] = (T)(k % 97);
  p[n - 1] = (T)((n - 1) % 97);
  for (u64 k = 0; k < n; k += step)
    q[k] = (T)(k % 89);
  q[n - 1] = (T)((n - 1) % 89);
  for (u64 k = 0; k < n; k += step)
    EXPECT(p[k] == (T)(k % 97) && q[k] == (T)(k % 89), "element %llu lost its value", k);
  EXPECT(p[n - 1] == (T)((n - 1) % 97) && q[n - 1] == (T)((n - 1) % 89), "the last element lost its value");
}
static void alloc_run(const par &p) {
  { alignment::aligned_allocator unused; }
  switch (p[0]) {
  case 0:
    return alloc_one<char>(p[1], p[2]);
  case 1:
    return alloc_one<int>(p[1], p[2]);
  case 2:
    return alloc_one<float>(p[1], p[2]);
  default:
    return alloc_one<double>(p[1], p[2]);
  }
}
static void alloc_gen(Gen &g) {
  for (u64 l = 0; l <= 12; l++)
    for (u64 t = 0; t < 4; t++)
      for (u64 n = 1; n <= 40 && g.left(); n++)
        g.emit({t, n, 1ull << l});
  for (u64 v : g.dict)
    for (u64 n : {v, v + 1, v - 1})
      if (n >= 1 && n <= 1 << 20)
        for (u64 l : {0, 4, 5, 6, 12})
          if (g.left())
            g.emit({g.below(4), n, 1ull << l});
  while (g.left())
    g.emit({g.below(4), g.pick(1, 100000), 1ull << g.below(21)});
}

int main(int argc, char **argv) {
  return drv::main(argc, argv, {{"looper", looper_run, looper_gen}, {"alloc", alloc_run, alloc_gen}});
}
