// Traversal of the odometer iterators by their increment contract (proved apart, vc_*_increment): after m steps from the
// lowest position digit d is (m / (c_0*...*c_{d-1})) mod c_d, so n = c_0*c_1*... steps visit every position once, in this order.
#pragma once
#include "hpx/core.hpp"

namespace odo {
// number of positions of one direction: the odometer stays at lo when lo + step >= hi
inline std::size_t count(std::size_t lo, std::size_t hi, std::size_t step) { return lo < hi ? (hi - lo + step - 1) / step : 1; }
inline void require(bool c) {
  if (!c)
    std::__throw_logic_error("contract of the traversal");
}
template <typename P, typename It, typename F>
inline void visit3(P, It &it, const std::size_t *c, const std::size_t *lo, const std::size_t *st, F &f) {
  for (std::size_t k = 0; k < c[2]; k++)
    for (std::size_t j = 0; j < c[1]; j++)
      for (std::size_t i = 0; i < c[0]; i++) {
        it.cur_index[0] = lo[0] + i * st[0];
        it.cur_index[1] = lo[1] + j * st[1];
        it.cur_index[2] = lo[2] + k * st[2];
        f(*it);
      }
}
} // namespace odo
