#include "reference_kernels/kernel_tiled.cpp"

extern "C" void vc_kernel_tiled(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, bool transposed,
                                uint64_t repetitions, uint64_t verbose) {
  double duration = 0.0;
  kernel_tiled::kernel_tiled k(N, *A, *B, transposed, repetitions, verbose);
  new (ret) std::vector<double>(k.matrix_multiply(duration));
}
