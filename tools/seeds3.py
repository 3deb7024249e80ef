"""planted bugs of the blocked Vc kernels"""
VC = [("/verif/stubs/vc/Vc/Vc", "Vc/Vc")]
PROG = r"""
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <vector>
#include "reference_kernels/%(k)s.hpp"
int main() {
  for (size_t N : {%(n)s})
    for (int tr = 0; tr < 2; tr++) {
      std::vector<double> A(N * N), B(N * N);
      for (size_t i = 0; i < N * N; i++) {
        A[i] = (double)(i * 7 %% 13) - 5;
        B[i] = (double)(i * 5 %% 11) - 4;
      }
      double d = 0;
      %(k)s::%(k)s k(N, A, B, tr, %(r)s, 0);
      std::vector<double> C = k.matrix_multiply(%(d)s);
      if (C.size() != N * N)
        return 1;
      std::vector<double> r(N);
      for (size_t i = 0; i < N; i++) {
        for (size_t j = 0; j < N; j++)
          r[j] = 0;
        for (size_t q = 0; q < N; q++)
          for (size_t j = 0; j < N; j++)
            r[j] += A[i * N + q] * (tr ? B[j * N + q] : B[q * N + j]);
        for (size_t j = 0; j < N; j++)
          if (C[i * N + j] != r[j])
            return 1;
      }
    }
  return 0;
}
"""
T = "src/reference_kernels/kernel_tiled.cpp"
K = "src/reference_kernels/kernel_test.cpp"
CX = 'g++ -std=c++14 -O2 -mavx2 -mfma -fopenmp -w -I src -I "$here"'


def tiled(n, r):
    return dict(file=T, demo=PROG % dict(k="kernel_tiled", n=n, r=r, d="d"), cxx=CX, link=T, files=VC)


def ktest(n, r):
    return dict(file=K, demo=PROG % dict(k="kernel_test", n=n, r=r, d=""), cxx=CX, link=K, files=VC)


SEEDS = [
    dict(id="B17", property="P14", old="    std::fill(C_padded.begin(), C_padded.end(), 0.0);\n\n    std::chrono", new="    std::chrono",
         needs="more than one repetition", breaks="the product is accumulated over the repetitions", **tiled("40", "2")),
    dict(id="B18", property="P14", old="      for (size_t x = 0; x < L1_X; x++) {\n        for (size_t y = 0; y < L1_Y; y++) {\n          // skip padding\n          if (l1_x * L1_X + x < N_org && l1_y * L1_Y + y < N_org) {",
         new="      if ((l1_x + 1) * L1_X > N_org + L1_X - 2 && l1_x > 0) {\n        continue; // only padding\n      }\n      for (size_t x = 0; x < L1_X; x++) {\n        for (size_t y = 0; y < L1_Y; y++) {\n          // skip padding\n          if (l1_x * L1_X + x < N_org && l1_y * L1_Y + y < N_org) {",
         needs="N one above a multiple of 35 (and not small)", breaks="the last row of the product is left zero", **tiled("36, 71", "1")),
    dict(id="B19", property="P15", old="                          if (x + 4 < l1_x + L1_X) {\n                            double_v res_52", new="                          if (x + 4 < l2_x + L2_X) {\n                            double_v res_52",
         needs="a block whose register tile overlaps the next L1 block", breaks="the rows of the next block are added twice", **ktest("512", "1")),
    dict(id="B20", property="P15", old="        for (size_t l3_k = 0; l3_k < N; l3_k += L3_K_STEP) {", new="        for (size_t l3_k = 0; l3_k + L3_K_STEP < N + L3_K_STEP / 2; l3_k += 2 * L3_K_STEP) {",
         needs="N of at least 1024", breaks="only every other chunk of the inner dimension is summed", **ktest("512, 1024", "1")),
]
