"""planted bugs of the HPX variants"""
import os
HPX = [(os.path.join(r, f), os.path.relpath(os.path.join(r, f), "/verif/stubs/hpx")) for r, _, fs in os.walk("/verif/stubs/hpx") for f in fs]
FILES = HPX + [("/verif/stubs/vc/Vc/Vc", "Vc/Vc")]
HEAD = r"""
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <vector>
#include "variants/%s"
"""
PROG = HEAD + r"""
static int check(size_t N, size_t br, size_t bi) {
  std::vector<double> A(N * N), B(N * N);
  for (size_t i = 0; i < N * N; i++) {
    A[i] = (double)(i * 7 %% 13) - 5;
    B[i] = (double)(i * 5 %% 11) - 4;
  }
  std::vector<double> A0 = A, B0 = B;
  double d = 0;
  (void)d;
  %s
  if (C.size() != N * N || A != A0 || B != B0)
    return 1;
  std::vector<double> r(N);
  for (size_t i = 0; i < N; i++) {
    std::fill(r.begin(), r.end(), 0.0);
    for (size_t q = 0; q < N; q++)
      for (size_t j = 0; j < N; j++)
        r[j] += A[i * N + q] * B[%s];
    for (size_t j = 0; j < N; j++)
      if (C[i * N + j] != r[j])
        return 1;
  }
  return 0;
}
int main() {
  const size_t in[][3] = {%s};
  for (int rep = 0; rep < %d; rep++)
    for (auto &p : in)
      if (check(p[0], p[1], p[2]))
        return 1;
  return 0;
}
"""
NT, TR = "q * N + j", "j * N + q"
CX = 'g++ -std=c++14 -O1 -mavx2 -mfma -fopenmp -w -I src -I "$here"'
V = "src/variants/"


def semi(*ns, rep=1):
    return dict(demo=PROG % ("semi.hpp", "semi::semi m(N, A, B, br, bi); std::vector<double> C = m.matrix_multiply();", TR, ", ".join("{%d,%d,%d}" % n for n in ns), rep),
                cxx=CX, link=V + "semi.cpp", files=FILES)


def header(name, args, *ns, rep=1):
    return dict(demo=PROG % (name + ".hpp", "%s::%s m(N, A, B, %s); std::vector<double> C = m.matrix_multiply();" % (name, name, args), TR, ", ".join("{%d,%d,%d}" % n for n in ns), rep), cxx=CX, files=FILES)


def combined(*ns, rep=1):
    return dict(demo=PROG % ("combined.hpp", "combined::combined m(N, A, B, br, 0); std::vector<double> C = m.matrix_multiply(d);", NT, ", ".join("{%d,%d,%d}" % n for n in ns), rep),
                cxx=CX, link=V + "combined.cpp", files=FILES)


WALK = r"""
int main() {
  for (size_t last = 1; last < 4; last++) {
    std::vector<size_t> lo = {%s}, hi = {4, 5 + last, 9}, st = {1, 2, 3};
    %s it(lo, hi, st);
    for (size_t k = lo[2]; k < hi[2]; k += st[2])
      for (size_t j = lo[1]; j < hi[1]; j += st[1])
        for (size_t i = lo[0]; i < hi[0]; i += st[0]) {
          const std::vector<size_t> &c = *it;
          if (c[0] != i || c[1] != j || c[2] != k)
            return 1;
          ++it;
        }
  }
  return 0;
}
"""
DIST = " ".join(V + x + ".cpp" for x in ("components/multiplier", "components/recursive", "single", "static_improved"))


def dist(*ns, tr="true"):
    return dict(demo=PROG % ("single.hpp", "single::single m(N, A, B, %s, br, bi, 1, 0); std::vector<double> C = m.matrix_multiply();" % tr, TR if tr == "true" else NT, ", ".join("{%d,%d,%d}" % n for n in ns), 1),
                cxx=CX, link=DIST, files=FILES)


SEEDS = [
    dict(id="B19", property="P16", file=V + "index_iterator.hpp", old="cur < max[cur_dim]; cur += step[cur_dim]", new="cur + step[cur_dim] <= max[cur_dim]; cur += step[cur_dim]",
         needs="a size that is no multiple of the register tile or of block_input", breaks="the last partial step of a direction is skipped", **semi((8, 1, 4), (8, 1, 3), (6, 1, 2))),
    dict(id="B20", property="P16", file=V + "semi.cpp", old="C_conflict[(x + 3) * N_fixed + (y + 1)] += result_component_3_1", new="C_conflict[(x + 3) * N_fixed + (y + 1)] = result_component_3_1",
         needs="more than one input chunk", breaks="one element of each register tile keeps only the last chunk", **semi((8, 1, 8), (8, 1, 4))),
    dict(id="B21", property="P17", file=V + "looped.hpp", old="          cur_index[i] = min_index[i];", new="          cur_index[i] = min_index[0];",
         needs="directions that start at different positions, and a carry over two of them", breaks="a carry resets the second direction to the start of the first",
         demo=HEAD % "looped.hpp" + WALK % ("1, 2, 0", "looped::dim_index_iterator<size_t>"), cxx=CX, files=FILES),
    dict(id="B22", property="P17", file=V + "looped.hpp", old="    inner_index_count *= (max[d] - min[d]) / block[d];", new="    inner_index_count *= (max[d] - min[0]) / block[d];",
         needs="more than one block", breaks="the blocks off the diagonal are visited too often or too seldom", **header("looped", "br, bi", (12, 12, 12), (12, 4, 3), (12, 6, 12))),
    dict(id="B23", property="P18", edits=[(V + "algorithms.hpp", "B_small[y * block_input + k] =", "B_small[y * block_result + k] ="),
                                          (V + "algorithms.hpp", "auto B_submatrix_begin = B_small.begin() + y * block_input;", "auto B_submatrix_begin = B_small.begin() + y * block_result;")],
         needs="an input block larger than the result block", breaks="rows of the small copy of B overlap", **header("algorithms", "bi, br", (12, 4, 4), (12, 2, 6), (12, 3, 12))),
    dict(id="B24", property="P18", edits=[(V + "algorithms.hpp", "          // use small intermediate matrices to reduce conflict misses\n          std::vector<double> A_small(block_input * block_result);\n\n", ""),
                                          (V + "algorithms.hpp", "    hpx::parallel::for_each_n(\n        hpx::parallel::par,", "    // use small intermediate matrices to reduce conflict misses\n    std::vector<double> A_small(block_input * block_result);\n\n    hpx::parallel::for_each_n(\n        hpx::parallel::par,"),
                                          (V + "algorithms.hpp", "        [this, &C](const std::vector<size_t> &cur_index) {", "        [this, &C, &A_small](const std::vector<size_t> &cur_index) {")],
         needs="two blocks processed at the same time", breaks="concurrent blocks share one copy buffer", **header("algorithms", "bi, br", (96, 8, 32), rep=40)),
    dict(id="B25", property="P19", edits=[(V + "index_iterator.hpp", "          std::vector<T> recursive_min(dim);\n", ""),
                                          (V + "index_iterator.hpp", "    // first process parallel dimensions\n", "    std::vector<T> recursive_min(dim);\n\n    // first process parallel dimensions\n"),
                                          (V + "index_iterator.hpp", "         &max, &block, f](const std::vector<size_t> &partial_index) {", "         &max, &block, &recursive_min, f](const std::vector<size_t> &partial_index) {")],
         needs="two blocks of the outer level entered at the same time", breaks="concurrent blocks share their start position", **combined((850, 1, 1), rep=8)),
    dict(id="B26", property="P19", file=V + "combined.cpp", old="  for (size_t x = 0; x < N_org; x++) {\n    for (size_t k = 0; k < N_org; k++) {", new="  for (size_t x = 0; x < N_org; x++) {\n    for (size_t k = 0; k < N_org - (N_org - 1) % L3_K_STEP / (L3_K_STEP - 1); k++) {",
         needs="N a multiple of 256", breaks="the last column of A is dropped", **combined((40, 1, 1), (256, 1, 1))),
    dict(id="B27", property="P20", file=V + "components/multiplier.cpp", old="  if (!transposed) {", new="  if (!transposed || (block_result == N && N < 4)) {",
         needs="a transposed multiplication of at most 3 x 3 in a single block", breaks="the small whole matrix is multiplied as if it was not transposed", **dist((8, 8, 0), (8, 4, 2), (3, 3, 0))),
    dict(id="B28", property="P21", file=V + "components/recursive.cpp", old="      for (uint64_t j = 0; j < blockSize; j++) {", new="      for (uint64_t j = 0; j < blockSize + (y == 0 && i + 1 < blockSize); j++) {",
         needs="the left part completes after the right one", breaks="the left part overwrites the first column of the right one", **dist((8, 4, 0), (12, 3, 2))),
    dict(id="B29", property="P21", file=V + "components/recursive.cpp", old="    uint64_t n_new = blockSize / 2;", new="    uint64_t n_new = blockSize / 2;\n    if (blockSize % 4 == 2 && blockSize > 2 * block_result) {\n      n_new = blockSize / 2 - blockSize / 2 % 2;\n    }",
         needs="a block of twice an odd extent that is still split more than once", breaks="the last rows and columns of the block are not computed", **dist((8, 2, 0), (6, 3, 0), (6, 1, 0))),
    dict(id="B30", property="P21", file=V + "static_improved.cpp", old="      C[(w.x + i) * N + (w.y + j)] = submatrix[i * w.N + j];", new="      C[(w.x + i) * N + (w.y + j)] = submatrix[i * std::min(w.N, N - w.y) + j % (N - w.x)];",
         needs="a package below the middle of the matrix, wider than what is left", breaks="wraps columns", skip=True),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
