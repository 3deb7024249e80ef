#include "odometer.hpp"
#include <boost/iterator/iterator_facade.hpp>
#define private public
#include "variants/index_iterator.hpp"
#undef private

#ifdef INNER
#define VC_PAR_OUTER
#define VC_PAR_INNER _Pragma("omp parallel for schedule(static)")
#else
#define VC_PAR_OUTER _Pragma("omp parallel for schedule(static)")
#define VC_PAR_INNER
#endif

namespace hpx {
namespace parallel {
template <typename T> struct walk<index_iterator::dim_index_iterator<T>> {
  typedef index_iterator::dim_index_iterator<T> It;
  template <typename F> static void run(sequenced_policy p, It it, std::size_t n, F f) {
    std::size_t c[3], lo[3], st[3];
    odo::require(it.dim == 3);
    if (n == 0)
      return;
    for (int d = 0; d < 3; d++) {
      lo[d] = it.min_index[d];
      st[d] = it.step[d];
      odo::require(st[d] > 0 && it.cur_index[d] == lo[d]);
      c[d] = odo::count(lo[d], it.max_index[d], st[d]);
    }
    odo::require(n == c[0] * c[1] * c[2]);
    odo::visit3(p, it, c, lo, st, f);
  }
  template <typename F> static void run(parallel_policy, It it, std::size_t n, F f) {
    if (n == 0)
      return;
    if (it.dim == 0) {
      odo::require(n == 1);
      f(*it);
      return;
    }
    std::size_t c[2], lo[2], st[2];
    odo::require(it.dim == 2);
    for (int d = 0; d < 2; d++) {
      lo[d] = it.min_index[d];
      st[d] = it.step[d];
      odo::require(st[d] > 0 && it.cur_index[d] == lo[d]);
      c[d] = odo::count(lo[d], it.max_index[d], st[d]);
    }
    odo::require(n == c[0] * c[1]);
    VC_PAR_OUTER
    for (std::size_t j = 0; j < c[1]; j++) {
      VC_PAR_INNER
      for (std::size_t i = 0; i < c[0]; i++) {
        It at(it);
        at.cur_index[0] = lo[0] + i * st[0];
        at.cur_index[1] = lo[1] + j * st[1];
        f(*at);
      }
    }
  }
};
} // namespace parallel
} // namespace hpx

#include "variants/combined.cpp"

extern "C" void vc_combined(std::vector<double> *ret, size_t N, std::vector<double> *A, std::vector<double> *B, uint64_t repetitions,
                            uint64_t verbose) {
  double duration = 0.0;
  combined::combined s(N, *A, *B, repetitions, verbose);
  new (ret) std::vector<double>(s.matrix_multiply(duration));
}

extern "C" void vc_index_iterator_increment(size_t dim, size_t *cur, const size_t *lo, const size_t *hi, const size_t *st) {
  std::vector<size_t> l(lo, lo + dim), h(hi, hi + dim), s(st, st + dim);
  index_iterator::dim_index_iterator<size_t> it(l, h, s);
  for (size_t d = 0; d < dim; d++)
    it.cur_index[d] = cur[d];
  ++it;
  for (size_t d = 0; d < dim; d++)
    cur[d] = (*it)[d];
}
