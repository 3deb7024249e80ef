// Concrete replay of the contracts of the HPX variants (real code, stub HPX).
#include "common.hpp"
#include <iostream>

#if defined(SEMI)
#include "variants/semi.hpp"
#elif defined(LOOPED)
#include "variants/looped.hpp"
#elif defined(ALGORITHMS)
#include "variants/algorithms.hpp"
#elif defined(COMBINED)
#include "variants/combined.hpp"
#endif
using namespace drv;
typedef std::vector<double> vec;

static vec ints(u64 n, u64 seed) {
  std::mt19937_64 r(seed);
  vec v(n);
  for (double &x : v)
    x = (double)(int)(r() % 19) - 9;
  return v;
}
static vec transposed(const vec &m, u64 n) {
  vec t(n * n);
  for (u64 i = 0; i < n; i++)
    for (u64 j = 0; j < n; j++)
      t[j * n + i] = m[i * n + j];
  return t;
}
// N, block_result, block_input; combined: N, repetitions
static void mult_run(const par &p) {
  u64 N = p[0], br = p[1], bi = p.size() > 2 ? p[2] : 1;
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2), A0 = A, B0 = B;
#if defined(SEMI)
  semi::semi m(N, A, B, br, bi);
#elif defined(LOOPED)
  looped::looped m(N, A, B, br, bi);
#elif defined(ALGORITHMS)
  algorithms::algorithms m(N, A, B, bi, br);
#endif
#ifdef COMBINED
  double duration = 0;
  combined::combined m(N, A, B, br, 0);
  vec T0 = transposed(B0, N);
  vec C = m.matrix_multiply(duration);
#else
  const vec &T0 = B0;
  vec C = m.matrix_multiply();
#endif
  EXPECT(C.size() == N * N, "result has %zu elements", C.size());
  for (u64 i = 0; i < N; i++)
    for (u64 j = 0; j < N; j++) {
      double e = 0;
      for (u64 k = 0; k < N; k++)
        e += A0[i * N + k] * T0[j * N + k];
      EXPECT(C[i * N + j] == e, "element (%llu,%llu) is %g instead of %g", i, j, C[i * N + j], e);
    }
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static u64 divisor(Gen &g, u64 n) {
  std::vector<u64> d;
  for (u64 k = 1; k <= n; k++)
    if (n % k == 0)
      d.push_back(k);
  return d.empty() ? 1 + g.below(4) : d[g.below(d.size())];
}
static void mult_gen(Gen &g) {
#ifdef COMBINED
  static const u64 edge[] = {0, 1, 2, 5, 8, 37, 70, 255, 256, 257, 419, 420, 421, 500};
  for (u64 n : edge)
    if (g.left())
      g.emit({n, 1 + n % 3});
  while (g.left())
    g.emit({g.pick(1, 600), 1 + g.below(3)});
  return;
#endif
  for (u64 N = 0; N <= 6 && g.left(); N++)
    for (u64 b = 1; b <= N + (N == 0); b++)
#ifdef SEMI
      g.emit({N, 1, b});
#else
      if (N == 0 || N % b == 0)
        g.emit({N, b, 1}), g.emit({N, 1, b}), g.emit({N, b, b});
#endif
  while (g.left()) {
    u64 N = g.pick(1, 90);
#ifdef SEMI
    g.emit({N, 1 + g.below(9), g.pick(1, 130)});
#else
    u64 a = divisor(g, N), b = divisor(g, N);
    g.emit({N, a, b});
#endif
  }
}
int main(int argc, char **argv) { return drv::main(argc, argv, {{"multiply", mult_run, mult_gen}}); }
