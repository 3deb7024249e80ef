// Concrete replay of the contracts of the blocked Vc kernels (real code, stub Vc).
#include "common.hpp"
#include <iostream>

#ifdef TILED
#include "reference_kernels/kernel_tiled.hpp"
#else
#include "reference_kernels/kernel_test.hpp"
#endif
using namespace drv;
typedef std::vector<double> vec;

static vec ints(u64 n, u64 seed) {
  std::mt19937_64 r(seed);
  vec v(n);
  for (double &x : v)
    x = (double)(int)(r() % 19) - 9;
  return v;
}
static void compare(const vec &A, vec B, const vec &C, u64 N, bool tr) {
  if (tr)
    for (u64 i = 0; i < N; i++)
      for (u64 j = 0; j < i; j++)
        std::swap(B[i * N + j], B[j * N + i]);
  EXPECT(C.size() == N * N, "result has %zu elements", C.size());
  vec row(N);
  for (u64 i = 0; i < N; i++) {
    std::fill(row.begin(), row.end(), 0.0);
    for (u64 k = 0; k < N; k++) {
      double a = A[i * N + k];
      for (u64 j = 0; j < N; j++)
        row[j] += a * B[k * N + j];
    }
    for (u64 j = 0; j < N; j++)
      EXPECT(C[i * N + j] == row[j], "element (%llu,%llu) is %g instead of %g", i, j, C[i * N + j], row[j]);
  }
}
// the kernels print their speed
struct Quiet {
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(nullptr)) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
#ifdef TILED
static void tiled_run(const par &p) {
  u64 N = p[0];
  bool tr = p.size() > 3 ? p[3] : N % 2;
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2), A0 = A, B0 = B, C;
  {
    Quiet q;
    double duration = 0;
    kernel_tiled::kernel_tiled k(N, A, B, tr, p[1], 0);
    C = k.matrix_multiply(duration);
    if (p.size() > 2 && p[2])
      C = k.matrix_multiply(duration);
  }
  compare(A0, B0, C, N, tr);
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static void tiled_gen(Gen &g) {
  for (u64 N : {1, 2, 3, 37, 64, 257, 420, 421})
    if (g.left())
      g.emit({N, 1 + N % 2, N % 3 == 0});
  for (u64 v : g.dict)
    if (v <= 520 && g.left())
      g.emit({v, 1 + g.below(2), g.below(2), g.below(2)});
  while (g.left())
    g.emit({g.pick(1, 530), 1 + g.below(2), g.below(2), g.below(2)});
}
#else
static void test_run(const par &p) {
  u64 N = p[0];
  bool tr = p.size() > 3 ? p[3] : N % 2;
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2), A0 = A, B0 = B, C;
  {
    Quiet q;
    kernel_test::kernel_test k(N, A, B, tr, p[1], 0);
    C = k.matrix_multiply();
  }
  // known finding kernel_test-transposed: the argument is ignored (and nothing else is wrong)
  vec P = C;
  if (tr) {
    for (u64 i = 0; i < N; i++) {
      std::fill(P.begin() + i * N, P.begin() + (i + 1) * N, 0.0);
      for (u64 k = 0; k < N; k++)
        for (u64 j = 0; j < N; j++)
          P[i * N + j] += A0[i * N + k] * B0[k * N + j];
    }
  }
  compare(A0, B0, C, N, tr && P != C);
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static void test_gen(Gen &g) {
  g.emit({0, 1});
  g.emit({512, 1, 0, 1});
  if (g.left())
    g.emit({512, 2, 0, 0});
  for (u64 r = 0; g.left(); r++)
    g.emit({r % 3 == 2 ? 1024ull : 512ull, 1 + r % 2, 0, g.below(2)});
}
#endif
int main(int argc, char **argv) {
#ifdef TILED
  return drv::main(argc, argv, {{"tiled", tiled_run, tiled_gen}});
#else
  return drv::main(argc, argv, {{"test", test_run, test_gen}});
#endif
}
