#include "common.hpp"

#include "reference_kernels/kernel.hpp"
#include "reference_kernels/naive.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
using namespace drv;
typedef std::vector<double> vec;

// small integers: every sum of products is exact in double, in any order
static vec ints(u64 n, u64 seed) {
  std::mt19937_64 r(seed);
  vec v(n);
  for (double &x : v)
    x = (double)(int)(r() % 19) - 9;
  return v;
}
static double at(const vec &A, const vec &B, u64 N, u64 i, u64 j, bool tr) {
  double s = 0;
  for (u64 k = 0; k < N; k++)
    s += A[i * N + k] * (tr ? B[j * N + k] : B[k * N + j]);
  return s;
}
// full comparison for small N, rows/columns around the borders and random ones otherwise
static void compare(const vec &A, const vec &B, const vec &C, u64 N, bool tr, u64 x, u64 y, u64 b, u64 seed, const vec *C0 = nullptr) {
  std::mt19937_64 r(seed);
  u64 tests = b * b * N <= 3000000 ? b * b : 4000;
  for (u64 q = 0; q < tests; q++) {
    u64 i, j;
    if (tests == b * b) {
      i = q / b;
      j = q % b;
    } else {
      i = r() % 3 == 0 ? b - 1 - r() % std::min<u64>(b, 8) : r() % b;
      j = r() % 3 == 0 ? b - 1 - r() % std::min<u64>(b, 8) : r() % b;
    }
    double w = at(A, B, N, x + i, y + j, tr) + (C0 ? (*C0)[i * b + j] : 0);
    EXPECT(C[i * b + j] == w, "element (%llu,%llu) is %g instead of %g", i, j, C[i * b + j], w);
  }
}
template <bool tr> static void naive_run(const par &p) {
  u64 N = p[0];
  vec A = ints(N * N, 2 * N + 1), B = ints(N * N, 2 * N + 2), A0 = A, B0 = B;
  vec C = tr ? naive_matrix_multiply_transposed<double>(N, A, B) : naive_matrix_multiply<double>(N, A, B);
  EXPECT(C.size() == N * N, "result has %zu elements", C.size());
  compare(A0, B0, C, N, tr, 0, 0, N, N);
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static void naive_gen(Gen &g) {
  for (u64 N = 0; N <= 40 && g.left(); N++)
    g.emit({N});
  for (u64 v : g.dict)
    for (u64 N : {v, v + 1})
      if (N > 40 && N <= 520 && g.left())
        g.emit({N});
  for (int r = 0; r < 3 && g.left(); r++)
    g.emit({200});
  while (g.left())
    g.emit({g.pick(1, 300)});
}

static void kernel_any(const par &p, int which) {
  u64 N = p[0], b = p[1], x = p[2], y = p[3], bi = p.size() > 4 ? p[4] : 0;
  vec A = ints(N * N, 5 * N + b), B = ints(N * N, 7 * N + x), C(b * b, which == 2 ? 0.0 : 3.0), A0 = A, B0 = B, C0;
  if (which == 2 && p.size() > 5 && p[5])
    C = ints(b * b, 11);
  C0 = C;
  if (which == 0)
    kernel::kernel<double>(A, B, C, N, x, y, b);
  else if (which == 1)
    kernel::kernel_transposed<double>(A, B, C, N, x, y, b);
  else
    kernel::kernel_transposed_blocked<double>(A, B, C, N, x, y, b, bi);
  EXPECT(C.size() == b * b, "the result block was resized");
  compare(A0, B0, C, N, which != 0, x, y, b, N, which == 2 ? &C0 : nullptr);
  EXPECT(A == A0 && B == B0, "an input was modified");
}
static void kernel_run(const par &p) { kernel_any(p, 0); }
static void kernel_tr_run(const par &p) { kernel_any(p, 1); }
static void kernel_bl_run(const par &p) { kernel_any(p, 2); }
static void kernel_gen(Gen &g) {
  for (u64 N = 0; N <= 9; N++)
    for (u64 b = 0; b <= N; b++)
      for (u64 x = 0; x + b <= N; x++)
        for (u64 y = 0; y + b <= N; y++)
          g.emit({N, b, x, y});
  while (g.left()) {
    u64 N = g.pick(1, 200), b = g.pick(1, N);
    g.emit({N, b, g.below(2) ? g.below(N - b + 1) : (N - b) / b * b, g.below(N - b + 1)});
  }
}
static void kernel_bl_gen(Gen &g) {
  for (u64 N = 0; N <= 13 && g.left(); N++)
    for (u64 b = 0; b <= N; b += 4)
      for (u64 bi = 1; bi <= N + 2; bi++)
        for (u64 x = 0; x + b <= N; x += 1)
          for (u64 y = 0; y + b <= N; y += 1)
            g.emit({N, b, x, y, bi, (x + y) % 2});
  while (g.left()) {
    u64 N = g.pick(4, 260), b = 4 * g.pick(1, N / 4);
    g.emit({N, b, g.below(2) ? g.below(N - b + 1) : (N - b) / b * b, g.below(N - b + 1), g.pick(1, 2 * N), g.below(2)});
  }
}

static void transpose_run(const par &p) {
  u64 so = p[0], sr = p[1];
  vec a(so * sr);
  for (u64 i = 0; i < a.size(); i++)
    a[i] = i;
  const vec a0 = a;
  vec r = util::transpose_matrix<double>(so, sr, a);
  EXPECT(r.size() == so * sr, "result has %zu elements", r.size());
  for (u64 i = 0; i < so; i++)
    for (u64 j = 0; j < sr; j++)
      EXPECT(r[i * sr + j] == (double)(j * so + i), "element (%llu,%llu) is %g", i, j, r[i * sr + j]);
  std::vector<double, boost::alignment::aligned_allocator<double, 64>> b(a.begin(), a.end());
  auto rb = util::transpose_matrix<double>(so, sr, b);
  EXPECT(rb.size() == so * sr, "aligned result has %zu elements", rb.size());
  for (u64 i = 0; i < rb.size(); i++)
    EXPECT(rb[i] == r[i], "aligned variant differs at %llu", i);
  if (so == sr) {
    vec q = util::transpose_matrix<double>(so, a);
    EXPECT(q == r, "square variant differs");
  }
  EXPECT(a == a0, "input was modified");
}
static void transpose_gen(Gen &g) {
  for (u64 i = 0; i <= 24; i++)
    for (u64 j = 0; j <= 24; j++)
      g.emit({i, j});
  while (g.left()) {
    u64 i = g.pick(1, 100000), j = g.below(2) ? i : g.pick(1, 1000000 / i + 1);
    if (i * j <= 1500000)
      g.emit({i, j});
  }
}
static void patterns_run(const par &p) {
  u64 N = p[0];
  vec a = util::create_identity_matrix<double>(N), b = util::create_enumerating_matrix<double>(N);
  EXPECT(a.size() == N * N, "identity has %zu elements", a.size());
  EXPECT(b.size() == N * N, "enumerating matrix has %zu elements", b.size());
  for (u64 i = 0; i < N; i++)
    for (u64 j = 0; j < N; j++) {
      EXPECT(a[i * N + j] == (i == j ? 1.0 : 0.0), "identity element (%llu,%llu) is %g", i, j, a[i * N + j]);
      EXPECT(b[i * N + j] == (double)(i * N + j), "enumerating element (%llu,%llu) is %g", i, j, b[i * N + j]);
    }
  vec r = util::create_random_matrix<double>(N);
  EXPECT(r.size() == N * N, "random matrix has %zu elements", r.size());
  for (double x : r)
    EXPECT(x >= 0.0 && x <= 1.0, "random element %g", x);
}
static void patterns_gen(Gen &g) {
  for (u64 N = 0; N <= 70; N++)
    g.emit({N});
  g.emit({4100}); // more than 2^24 elements
  for (u64 v : g.dict)
    for (u64 N : {v, v + 1, v - 1})
      if (N > 70 && N < 2000 && g.left())
        g.emit({N});
  while (g.left())
    g.emit({g.pick(1, 600)});
}

int main(int argc, char **argv) {
  return drv::main(argc, argv,
                   {{"naive", naive_run<false>, naive_gen},
                    {"naive_transposed", naive_run<true>, naive_gen},
                    {"kernel", kernel_run, kernel_gen},
                    {"kernel_transposed", kernel_tr_run, kernel_gen},
                    {"kernel_transposed_blocked", kernel_bl_run, kernel_bl_gen},
                    {"transpose", transpose_run, transpose_gen},
                    {"patterns", patterns_run, patterns_gen}});
}
