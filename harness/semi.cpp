#include "variants/semi.cpp"

extern "C" void vc_semi(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, uint64_t block_result,
                        uint64_t block_input) {
  semi::semi s(N, *A, *B, block_result, block_input);
  new (ret) std::vector<double>(s.matrix_multiply());
}
