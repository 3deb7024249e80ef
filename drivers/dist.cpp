// Concrete replay of the contracts of the distributed variants (real code, stub HPX on one locality).
#include "common.hpp"
#include <iostream>

#include "variants/components/multiplier.hpp"
#include "variants/single.hpp"
#include "variants/static_improved.hpp"
using namespace drv;
typedef std::vector<double> vec;

static vec ints(u64 n, u64 seed) {
  std::mt19937_64 r(seed);
  vec v(n);
  for (double &x : v)
    x = (double)(int)(r() % 19) - 9;
  return v;
}
static double element(const vec &A, const vec &B, u64 N, bool tr, u64 i, u64 j) {
  double e = 0;
  for (u64 k = 0; k < N; k++)
    e += A[i * N + k] * (tr ? B[j * N + k] : B[k * N + j]);
  return e;
}
static void compare(const vec &A, const vec &B, u64 N, bool tr, const vec &C, u64 x, u64 y, u64 n) {
  EXPECT(C.size() == n * n, "the block has %zu elements", C.size());
  for (u64 i = 0; i < n; i++)
    for (u64 j = 0; j < n; j++) {
      double e = element(A, B, N, tr, x + i, y + j);
      EXPECT(C[i * n + j] == e, "element (%llu,%llu) of the block is %g instead of %g", i, j, C[i * n + j], e);
    }
}
// N, x, y, n, transposed, block_input
static void submatrix_run(const par &p) {
  u64 N = p[0], x = p[1], y = p[2], n = p[3];
  if (x > N || y > N || n > N - x || n > N - y)
    return;
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2);
  multiply_components::multiplier m(N, A, B, p[4], p[5], 0);
  compare(A, B, N, p[4], m.calculate_submatrix(x, y, n), x, y, n);
}
static void submatrix_gen(Gen &g) {
  for (u64 N = 0; N <= 5; N++)
    for (u64 n = 0; n <= N; n++)
      for (u64 x = 0; x + n <= N; x++)
        for (u64 y = 0; y + n <= N && g.left(); y++)
          for (u64 t = 0; t < 2; t++)
            for (u64 b : {0, 1, 2, 7})
              g.emit({N, x, y, n, t, b});
  while (g.left()) {
    u64 N = g.pick(1, 60), n = g.below(N + 1);
    g.emit({N, g.below(N - n + 1), g.below(N - n + 1), n, g.below(2), g.below(70)});
  }
}
// N, transposed, block_result, block_input, repetitions
static void single_run(const par &p) {
  u64 N = p[0];
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2), A0 = A, B0 = B;
  single::single s(N, A, B, p[1], p[2], p[3], p[4], 0);
  compare(A0, B0, N, p[1], s.matrix_multiply(), 0, 0, N);
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static void improved_run(const par &p) {
  u64 N = p[0];
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2), A0 = A, B0 = B;
  multiply_components::static_improved s(N, A, B, p[1], p[3], p[2], 1, 1, 0.0, p[4], 0);
  compare(A0, B0, N, p[1], s.matrix_multiply(), 0, 0, N);
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static void single_gen(Gen &g) {
  for (u64 N = 0; N <= 12; N++)
    for (u64 t = 0; t < 2; t++)
      for (u64 r = 1; r <= N + 1 && g.left(); r += 1 + r / 3)
        g.emit({N, t, r, N % 5, 1 + N % 2});
  while (g.left())
    g.emit({g.pick(1, 70), g.below(2), g.pick(1, 40), g.below(60), 1 + g.below(2)});
}

int main(int argc, char **argv) {
  return drv::main(argc, argv, {{"submatrix", submatrix_run, submatrix_gen}, {"single", single_run, single_gen}, {"improved", improved_run, single_gen}});
}
