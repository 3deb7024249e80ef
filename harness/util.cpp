// Verification entry points for src/aligned_allocator.hpp and the exception types (real code).
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <string>

#include "aligned_allocator.hpp"
#include "memory_layout/memory_layout_exception.hpp"
#include "util/matrix_multiplication_exception.hpp"

// the caller fills its array, reads one element back and lets the allocator release the memory
#define ALLOC(T)                                                                                   \
  extern "C" T vc_alloc_##T(size_t n, size_t alignment, size_t i, size_t *misaligned) {            \
    T r = 0;                                                                                       \
    {                                                                                              \
      alignment::aligned_allocator a;                                                              \
      T *p = a.alloc<T>(n, alignment);                                                             \
      *misaligned = reinterpret_cast<uintptr_t>(p) % alignment;                                    \
      for (size_t k = 0; k < n; k++)                                                               \
        p[k] = static_cast<T>(k);                                                                  \
      r = p[i];                                                                                    \
    }                                                                                              \
    return r;                                                                                      \
  }
ALLOC(double)
ALLOC(float)
ALLOC(int)
ALLOC(char)

// one instance manages one array: a second request must not replace the first
extern "C" void vc_alloc_twice(size_t n, size_t m, size_t alignment) {
  alignment::aligned_allocator a;
  a.alloc<double>(n, alignment);
  a.alloc<int>(m, alignment);
}

extern "C" void vc_no_alloc() { alignment::aligned_allocator a; }

#ifdef WITH_WHAT
#define WHAT(NS, E)                                                                                \
  extern "C" char vc_what_##E(const std::string &message, size_t i) {                              \
    NS::E e(message);                                                                              \
    const std::exception &base = e;                                                                \
    return base.what()[i];                                                                         \
  }
WHAT(memory_layout, memory_layout_exception)
WHAT(util, matrix_multiplication_exception)
#endif
