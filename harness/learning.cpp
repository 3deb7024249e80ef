// Verification entry points for learning/MetaProgrammingCPP.cpp (real code, instantiated).
#include <cstddef>
#include <cstdint>
#include <type_traits>
#define main learning_main
#include "learning/MetaProgrammingCPP.cpp"
#undef main

template <size_t D> struct Log {
  size_t *log, *count;
  template <typename... I> void operator()(I... i) const {
    const size_t ix[D] = {static_cast<size_t>(i)...};
    for (size_t d = 0; d < D; d++)
      log[*count * D + d] = ix[d];
    *count = *count + 1;
  }
};

#define LOOPER(D)                                                                                   \
  extern "C" void vc_looper##D(size_t min, size_t max, size_t *log, size_t *count) {                \
    Looper<D, size_t> l(min, max);                                                                  \
    l.iterate_simple(Log<D>{log, count});                                                           \
  }
LOOPER(1) LOOPER(2) LOOPER(3) LOOPER(4)
