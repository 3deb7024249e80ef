PRE = "#include <array>\n#include <cstddef>\n#include <cstdint>\n#include <cstdio>\n#include <vector>\n#include <algorithm>\n"
TILED = PRE + r'''
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
template <size_t D> int check(std::array<size_t, D> T, std::array<size_t, D> t) {
  size_t n = 1, ts = 1;
  std::vector<memory_layout::tiling_info_dim> ti;
  for (size_t d = 0; d < D; d++) {
    n *= T[d] * t[d];
    ts *= t[d];
    ti.push_back({t[d], T[d] * t[d]});
  }
  std::vector<double> m(n);
  for (size_t i = 0; i < n; i++)
    m[i] = i;
  std::vector<double> r = memory_layout::make_tiled<D>(m, ti);
  for (size_t q = 0; q < n; q++) {
    size_t x = q, a[D], in[D], A = 0, I = 0;
    for (size_t k = D; k-- > 0;) {
      size_t S = T[k] * t[k];
      a[k] = x % S / t[k];
      in[k] = x % S % t[k];
      x /= S;
    }
    for (size_t k = 0; k < D; k++) {
      A = A * T[k] + a[k];
      I = I * t[k] + in[k];
    }
    if (r[A * ts + I] != m[q])
      return 1;
  }
  return 0;
}
'''
SEEDS = [
 dict(id="B01", property="P01", file="src/memory_layout/tile_array.hpp",
      old="          cur_stride *= tiling_info[(dim - 1) - d].stride;\n", new="          cur_stride *= tiling_info[d].stride;\n",
      demo=TILED + "int main() { return check<2>({3, 2}, {2, 4}) | check<3>({2, 3, 1}, {1, 2, 3}); }\n",
      needs="a matrix whose extents differ between directions", breaks="elements of non-square matrices are taken from the wrong place"),
 dict(id="B02", property="P01", file="src/memory_layout/tile_array.hpp",
      old="    cur_stride *= (tiling_info[(dim - 1) - d].stride /\n                   tiling_info[(dim - 1) - d].tile_size_dir);",
      new="    cur_stride *= (tiling_info[(dim - 1) - d].stride /\n                   tiling_info[0].tile_size_dir);",
      demo=TILED + "int main() { return check<2>({3, 2}, {4, 2}); }\n",
      needs="tile sizes that differ between directions", breaks="tiles land at the wrong place in the tiled vector"),
 dict(id="B03", property="P03", file="src/memory_layout/tile_view.hpp",
      old="      inner_flat_index += coord[(dim - 1) - d] * cur_stride;\n      cur_stride *= tiling_info[(dim - 1) - d].tile_size_dir;",
      new="      inner_flat_index += coord[(dim - 1) - d] * cur_stride;\n      cur_stride *= tiling_info[dim - 1].tile_size_dir;",
      demo=PRE + r'''
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_view.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> ti = {{2, 4}, {3, 6}, {2, 2}};
  std::vector<double> m(48);
  for (size_t i = 0; i < 48; i++)
    m[i] = i;
  size_t ix[3] = {1, 1, 0};
  memory_layout::tile_view<3, double, std::allocator<double>> v(m, ix, ti);
  return !(v.flat_index({{1, 2, 1}}) == 11 && v(size_t(1), size_t(2), size_t(1)) == 47);
}
''',
      needs="a view of three or more dimensions with different tile sizes", breaks="coordinates address the wrong element of the tile"),
 dict(id="B04", property="P04", file="src/memory_layout/tile_iterator.hpp",
      old="  size_t tiles_dim = cur_info.stride / cur_info.tile_size_dir;", new="  size_t tiles_dim = cur_info.stride / tiling_info[0].tile_size_dir;",
      demo=PRE + r'''
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> ti = {{4, 8}, {2, 8}};
  std::vector<double> m(64, 0.0);
  size_t calls = 0;
  memory_layout::iterate_tiles<2>(m, ti, [&](memory_layout::tile_view<2, double, std::allocator<double>> v) { calls++; });
  return calls != 8;
}
''',
      needs="different tile sizes per direction", breaks="tiles are skipped"),
 dict(id="B05", property="P05", file="src/memory_layout/loop_nest.hpp", count=2,
      old="  for (T cur = min[cur_dim]; cur < max[cur_dim]; cur += step[cur_dim]) {",
      new="  for (T cur = min[cur_dim]; cur + step[cur_dim] <= max[cur_dim]; cur += step[cur_dim]) {",
      demo=PRE + r'''
#include "memory_layout/loop_nest.hpp"
int main() {
  std::array<size_t, 2> mn = {{0, 1}}, mx = {{5, 8}}, st = {{2, 3}};
  size_t n = 0;
  util::loop_nest<2>(mn, mx, st, [&](const std::array<size_t, 2> &) { n++; });
  return n != 9;
}
''',
      needs="a step that does not divide the range", breaks="the last index of a direction is dropped"),
 dict(id="B06", property="P06", file="src/memory_layout/util.hpp",
      old="                  const std::array<size_t, dim> &strides) {\n  size_t flat_index = 0;\n  size_t cur_stride = 1;",
      new="                  const std::array<size_t, dim> &strides) {\n  size_t flat_index = 0;\n  uint32_t cur_stride = 1;",
      demo=PRE + r'''
#include "memory_layout/util.hpp"
int main() {
  std::array<size_t, 3> i = {{3, 1, 7}}, e = {{8, 70000, 70000}};
  return memory_layout::flat_index(i, e) != 3 * 4900000000ull + 70000 + 7;
}
''',
      needs="inner extents whose product exceeds 32 bits", breaks="the flat index wraps around"),
 dict(id="B07", property="P07", cxx="g++ -std=c++14 -O0 -fopenmp -w -I src",
      edits=[("src/reference_kernels/naive.hpp",
              "#pragma omp parallel for\n  for (uint64_t i = 0; i < N; i++) {\n    for (uint64_t j = 0; j < N; j++) {\n      T result_component = 0.0;\n      for (uint64_t k = 0; k < N; k++) {\n        result_component += A.at(i * N + k) * B.at(j * N + k);",
              "  T result_component;\n#pragma omp parallel for\n  for (uint64_t i = 0; i < N; i++) {\n    for (uint64_t j = 0; j < N; j++) {\n      result_component = 0.0;\n      for (uint64_t k = 0; k < N; k++) {\n        result_component += A.at(i * N + k) * B.at(j * N + k);")],
      demo=PRE + r'''
#include <omp.h>
#include "reference_kernels/naive.hpp"
int main() {
  omp_set_num_threads(8);
  const size_t N = 160;
  std::vector<double> A(N * N), B(N * N);
  for (size_t i = 0; i < N * N; i++) {
    A[i] = (double)(i % 13) - 6;
    B[i] = (double)(i % 7) - 3;
  }
  for (int r = 0; r < 40; r++) {
    std::vector<double> C = naive_matrix_multiply_transposed<double>(N, A, B);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) {
        double s = 0;
        for (size_t k = 0; k < N; k++)
          s += A[i * N + k] * B[j * N + k];
        if (C[i * N + j] != s)
          return 1;
      }
  }
  return 0;
}
''',
      needs="two threads working on rows at the same time", breaks="the accumulator is shared between threads: results depend on the schedule"),
 dict(id="B08", property="P08", file="src/reference_kernels/kernel.hpp",
      old="        C[(i + 3) * block_result + (j + 1)] += result_component_3_1;", new="        C[(i + 3) * block_result + (j + 1)] = result_component_3_1;",
      demo=PRE + r'''
#include "reference_kernels/kernel.hpp"
int main() {
  const size_t N = 12, b = 4, x = 4, y = 8;
  std::vector<double> A(N * N), B(N * N), C(b * b, 0.0);
  for (size_t i = 0; i < N * N; i++) {
    A[i] = i % 5;
    B[i] = i % 7;
  }
  kernel::kernel_transposed_blocked<double>(A, B, C, N, x, y, b, 6);
  for (size_t i = 0; i < b; i++)
    for (size_t j = 0; j < b; j++) {
      double s = 0;
      for (size_t k = 0; k < N; k++)
        s += A[(x + i) * N + k] * B[(y + j) * N + k];
      if (C[i * b + j] != s)
        return 1;
    }
  return 0;
}
''',
      needs="more than one input chunk", breaks="one element in eight keeps only the last chunk's contribution"),
 dict(id="B09", property="P09", file="src/util/pattern_matrices.hpp",
      old="    m[i] = static_cast<double>(i);", new="    m[i] = static_cast<float>(i);",
      demo=PRE + r'''
#include "util/pattern_matrices.hpp"
int main() {
  const size_t N = 4100;
  std::vector<double> m = util::create_enumerating_matrix<double>(N);
  for (size_t i = 0; i < N * N; i++)
    if (m[i] != (double)i)
      return 1;
  return 0;
}
''',
      needs="more than 2^24 elements", breaks="odd numbers above 2^24 are rounded"),
 dict(id="B10", property="P09", file="src/util/transpose_matrix.hpp",
      old="      result[i * stride_result + j] = org[j * stride_org + i];",
      new="      result[i * stride_result + j] = org[j * stride_result + i];",
      demo=PRE + r'''
#include "util/transpose_matrix.hpp"
int main() {
  std::vector<double> m(6);
  for (size_t i = 0; i < 6; i++)
    m[i] = i;
  std::vector<double> r = util::transpose_matrix<double>(3, 2, m);
  for (size_t i = 0; i < 3; i++)
    for (size_t j = 0; j < 2; j++)
      if (r[i * 2 + j] != m[j * 3 + i])
        return 1;
  return 0;
}
''',
      needs="a rectangular matrix", breaks="elements are read with the stride of the result"),
]
