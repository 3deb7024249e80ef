#include "odometer.hpp"
#include <boost/iterator/iterator_facade.hpp>
#define private public
#include "variants/looped.hpp"
#undef private

namespace hpx {
namespace parallel {
template <typename T> struct walk<looped::dim_index_iterator<T>> {
  typedef looped::dim_index_iterator<T> It;
  template <typename F> static void run(sequenced_policy p, It it, std::size_t n, F f) {
    std::size_t c[3], lo[3], st[3];
    odo::require(it.dim == 3);
    if (n == 0)
      return;
    for (int d = 0; d < 3; d++) {
      lo[d] = it.min_index[d];
      st[d] = it.step[d];
      odo::require(st[d] > 0 && it.cur_index[d] == lo[d]);
      c[d] = odo::count(lo[d], it.max_index[d], st[d]);
    }
    odo::require(n == c[0] * c[1] * c[2]);
    odo::visit3(p, it, c, lo, st, f);
  }
};
} // namespace parallel
} // namespace hpx

extern "C" void vc_looped(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, uint64_t block_result,
                          uint64_t block_input) {
  looped::looped s(N, *A, *B, block_result, block_input);
  new (ret) std::vector<double>(s.matrix_multiply());
}

extern "C" void vc_looped_increment(size_t dim, size_t *cur, const size_t *lo, const size_t *hi, const size_t *st) {
  looped::dim_index_iterator<size_t> it(std::vector<size_t>(lo, lo + dim), std::vector<size_t>(hi, hi + dim),
                                        std::vector<size_t>(st, st + dim));
  for (size_t d = 0; d < dim; d++)
    it.cur_index[d] = cur[d];
  ++it;
  for (size_t d = 0; d < dim; d++)
    cur[d] = (*it)[d];
}
