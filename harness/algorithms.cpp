#include "odometer.hpp"
#include <boost/iterator/iterator_facade.hpp>
#define private public
#include "variants/algorithms.hpp"
#undef private

// par runs both directions; the order inside one direction is fixed while the other one is shown to be free of races
#ifdef INNER
#define VC_PAR_OUTER
#define VC_PAR_INNER _Pragma("omp parallel for schedule(static)")
#else
#define VC_PAR_OUTER _Pragma("omp parallel for schedule(static)")
#define VC_PAR_INNER
#endif

namespace hpx {
namespace parallel {
template <typename T> struct walk<algorithms::dim_index_iterator<T>> {
  typedef algorithms::dim_index_iterator<T> It;
  template <typename F> static void run(parallel_policy, It it, std::size_t n, F f) {
    odo::require(it.dim == 2 && it.cur_index[0] == 0 && it.cur_index[1] == 0);
    std::size_t c0 = odo::count(0, it.max_index[0], 1), c1 = odo::count(0, it.max_index[1], 1);
    if (n == 0)
      return;
    odo::require(n == c0 * c1);
    VC_PAR_OUTER
    for (std::size_t j = 0; j < c1; j++) {
      VC_PAR_INNER
      for (std::size_t i = 0; i < c0; i++) {
        It at(2, 1, 1);
        at.cur_index[0] = i;
        at.cur_index[1] = j;
        f(*at);
      }
    }
  }
};
template <typename T> struct walk<algorithms::index_iterator<T>> {
  typedef algorithms::index_iterator<T> It;
  template <typename F> static void run(sequenced_policy, It it, std::size_t n, F f) {
    odo::require(it.x == 0 && it.y == 0);
    std::size_t r = it.stride;
    if (n == 0)
      return;
    odo::require(n == r * r);
    auto first = it.wrapped_iterator;
    for (std::size_t i = 0; i < r; i++)
      for (std::size_t j = 0; j < r; j++) {
        it.x = i;
        it.y = j;
        it.wrapped_iterator = first + (i * r + j);
        f(*it);
      }
  }
};
} // namespace parallel
} // namespace hpx

extern "C" void vc_algorithms(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, uint64_t block_result,
                              uint64_t block_input) {
  algorithms::algorithms s(N, *A, *B, block_input, block_result);
  new (ret) std::vector<double>(s.matrix_multiply());
}

extern "C" void vc_algorithms_increment(size_t dim, size_t *cur, const size_t *lo, const size_t *hi, const size_t *st) {
  algorithms::dim_index_iterator<size_t> it(dim, 1, 1);
  for (size_t d = 0; d < dim; d++) {
    it.cur_index[d] = cur[d];
    it.max_index[d] = hi[d];
  }
  ++it;
  for (size_t d = 0; d < dim; d++)
    cur[d] = (*it)[d];
}

// position (x,y) of an array with the given stride -> the next position in row-major order
extern "C" void vc_algorithms_element(std::vector<double> *c, size_t stride, size_t x, size_t y, size_t *pos) {
  algorithms::index_iterator<double> it(*c, stride);
  pos[2] = it.x;
  pos[3] = it.y;
  pos[5] = std::get<0>(*it) + (&std::get<2>(*it).get() - c->data());
  it.x = x;
  it.y = y;
  it.wrapped_iterator += x * stride + y;
  ++it;
  pos[0] = std::get<0>(*it);
  pos[1] = std::get<1>(*it);
  pos[4] = &std::get<2>(*it).get() - c->data();
}
