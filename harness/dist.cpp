// The components of the distributed variants: each one against the contracts of the actions it calls.
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
// a component name: its text and its number ("text" + std::to_string(number))
namespace vc {
struct name {
  const char *text;
  std::uint32_t number;
};
inline name operator+(const char *t, name n) { return name{t, n.number}; }
} // namespace vc
namespace std {
inline vc::name vc_to_string(std::uint32_t n) { return vc::name{"", n}; }
} // namespace std
#define to_string vc_to_string
#define HPX_STUB_NAMES
namespace hpx {
namespace components {
typedef vc::name name_type;
template <typename C> void name(const vc::name &, void *);
template <typename C> void *named(const vc::name &);
} // namespace components
} // namespace hpx
#include <hpx/components.hpp>
#define private public
#include "variants/components/multiplier.hpp"
#include "variants/components/recursive.hpp"
#include "variants/static_improved.hpp"
#include "variants/single.hpp"
#undef private

namespace vc {
// ghost: the product P of the two N x N matrices, and the block size an action may be called for at most
static const double *P;
static std::size_t N, limit;
inline void require(bool c) {
  if (!c)
    std::__throw_logic_error("contract of the callee");
}
// contract of both actions: the n x n block at (x,y) of the product, for every block inside it
static std::vector<double> block(std::uint64_t x, std::uint64_t y, std::size_t n) {
  require(n <= limit && x <= N && y <= N && n <= N - x && n <= N - y);
  std::vector<double> r(n * n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
      r[i * n + j] = P[(x + i) * N + (y + j)];
  return r;
}
} // namespace vc
namespace hpx {
template <> struct remote<multiply_components::multiplier::calculate_submatrix_action> {
  static std::vector<double> call(id_type, std::uint64_t x, std::uint64_t y, std::size_t n) { return vc::block(x, y, n); }
};
template <> struct remote<multiply_components::recursive::distribute_recursively_action> {
  static std::vector<double> call(id_type, std::uint64_t x, std::uint64_t y, std::size_t n) { return vc::block(x, y, n); }
};
namespace components {
// names on the one locality: /multiplier#0 and /recursive#0
inline void check(const vc::name &n, const char *text) {
  for (int i = 0; text[i] != 0; i++)
    vc::require(n.text[i] == text[i]);
  vc::require(n.number == 0);
}
template <> void name<multiply_components::multiplier>(const vc::name &n, void *) { check(n, "/multiplier#"); }
template <> void name<multiply_components::recursive>(const vc::name &n, void *) { check(n, "/recursive#"); }
template <> void *named<multiply_components::multiplier>(const vc::name &n) {
  check(n, "/multiplier#");
  return nullptr;
}
template <> void *named<multiply_components::recursive>(const vc::name &n) {
  check(n, "/recursive#");
  return nullptr;
}
} // namespace components
} // namespace hpx
#include "variants/components/multiplier.cpp"
#include "variants/components/recursive.cpp"
#include "variants/single.cpp"
#include "variants/static_improved.cpp"

extern "C" void vc_submatrix(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, bool transposed,
                             uint64_t block_input, uint64_t x, uint64_t y, size_t block_result) {
  multiply_components::multiplier m(N, *A, *B, transposed, block_input, 0);
  new (ret) std::vector<double>(m.calculate_submatrix(x, y, block_result));
}
extern "C" void vc_extract(std::vector<double> *C, std::vector<double> *small, size_t x, size_t y, size_t n) {
  multiply_components::recursive r(1, 0);
  r.extract_submatrix(*C, *small, x, y, n);
}
extern "C" void vc_distribute(std::vector<double> *ret, size_t N, const double *P, size_t block_result, uint64_t x, uint64_t y, size_t n,
                              size_t limit) {
  vc::P = P;
  vc::N = N;
  vc::limit = limit;
  multiply_components::recursive r(block_result, 0);
  new (ret) std::vector<double>(r.distribute_recursively(x, y, n));
}
extern "C" void vc_single(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, const double *P,
                          bool transposed, uint64_t block_result, uint64_t block_input, uint64_t repetitions) {
  vc::P = P;
  vc::N = N;
  vc::limit = N;
  single::single s(N, *A, *B, transposed, block_result, block_input, repetitions, 0);
  new (ret) std::vector<double>(s.matrix_multiply());
}
extern "C" void vc_insert(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, std::vector<double> *small,
                          size_t x, size_t y, size_t n, size_t i, size_t j) {
  multiply_components::static_improved s(N, *A, *B, true, 0, 1, 1, 0, 0.0, 1, 0);
  s.C[i * N + j] = 7.0;
  s.insert_submatrix(*small, matrix_multiply_work(x, y, n));
  new (ret) std::vector<double>(s.C);
}
