// Verification entry points for src/reference_kernels and src/util (real code, instantiated).
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

#include "reference_kernels/kernel.hpp"
#include "reference_kernels/naive.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"

typedef std::vector<double> vec;
typedef std::vector<double, boost::alignment::aligned_allocator<double, 64>> avec;

extern "C" void vc_naive(vec *ret, size_t N, vec &A, vec &B) { new (ret) vec(naive_matrix_multiply<double>(N, A, B)); }
extern "C" void vc_naive_transposed(vec *ret, size_t N, vec &A, vec &B) {
  new (ret) vec(naive_matrix_multiply_transposed<double>(N, A, B));
}
extern "C" void vc_kernel(vec &A, vec &B, vec &C, size_t N, size_t x, size_t y, size_t b) {
  kernel::kernel<double>(A, B, C, N, x, y, b);
}
extern "C" void vc_kernel_transposed(vec &A, vec &B, vec &C, size_t N, size_t x, size_t y, size_t b) {
  kernel::kernel_transposed<double>(A, B, C, N, x, y, b);
}
extern "C" void vc_kernel_transposed_blocked(vec &A, vec &B, vec &C, size_t N, size_t x, size_t y, size_t b,
                                             size_t bi) {
  kernel::kernel_transposed_blocked<double>(A, B, C, N, x, y, b, bi);
}
extern "C" void vc_transpose(vec *ret, size_t N, const vec &org) { new (ret) vec(util::transpose_matrix<double>(N, org)); }
extern "C" void vc_transpose_rect(vec *ret, size_t so, size_t sr, const vec &org) {
  new (ret) vec(util::transpose_matrix<double>(so, sr, org));
}
extern "C" void vc_transpose_rect_aligned(avec *ret, size_t so, size_t sr, const avec &org) {
  new (ret) avec(util::transpose_matrix<double>(so, sr, org));
}
extern "C" void vc_identity(vec *ret, size_t N) { new (ret) vec(util::create_identity_matrix<double>(N)); }
extern "C" void vc_enumerating(vec *ret, size_t N) { new (ret) vec(util::create_enumerating_matrix<double>(N)); }
extern "C" void vc_random(vec *ret, size_t N) { new (ret) vec(util::create_random_matrix<double>(N)); }
