#include "reference_kernels/kernel_test.cpp"

extern "C" void vc_kernel_test(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, bool transposed,
                               uint64_t repetitions, uint64_t verbose) {
  kernel_test::kernel_test k(N, *A, *B, transposed, repetitions, verbose);
  new (ret) std::vector<double>(k.matrix_multiply());
}
