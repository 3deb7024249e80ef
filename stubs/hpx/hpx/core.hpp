// Assumed contract of the HPX facilities the variants use (HPX is not installable here).
//  for_each_n(seq, it, n, f):  f(*it), f(*++it), ... n calls in order
//  for_each_n(par, it, n, f):  the same n calls in any order and possibly at the same time
//  async/then/wait_all/get:    the callee runs exactly once before get / wait_all return; then-continuations may run at the same time
//  client/new_/register_as/connect_to: new_ constructs the component with the given arguments, connect_to finds the registered one
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace hpx {
struct out {
  template <typename T> out &operator<<(const T &) { return *this; }
  out &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
static out cout;
struct flush_type {};
static const flush_type flush;

namespace parallel {
struct sequenced_policy {};
struct parallel_policy {};
typedef parallel_policy parallel_execution_policy;
static const sequenced_policy seq;
static const parallel_policy par;

// one walk per iterator type; a harness may give one that uses a proved contract of the iterator
template <typename It> struct walk {
  template <typename F> static void run(sequenced_policy, It it, std::size_t n, F f) {
    for (std::size_t i = 0; i < n; ++i, ++it)
      f(*it);
  }
  template <typename F> static void run(parallel_policy, It it, std::size_t n, F f) {
    std::vector<It> at;
    at.reserve(n);
    for (std::size_t i = 0; i < n; ++i, ++it)
      at.push_back(it);
#pragma omp parallel for schedule(dynamic)
    for (std::size_t i = 0; i < n; ++i)
      f(*at[n - 1 - i]);
  }
};
template <typename P, typename It, typename F> It for_each_n(P policy, It it, std::size_t n, F f) {
  walk<It>::run(policy, it, n, f);
  return it;
}
template <typename P, typename F> void for_loop(P policy, std::size_t b, std::size_t e, F f) {
  for (std::size_t i = b; i < e; ++i)
    f(i);
}
} // namespace parallel

namespace util {
class iterator_core_access {
public:
  template <typename I> static void increment(I &i) { i.increment(); }
  template <typename I> static bool equal(const I &a, const I &b) { return a.equal(b); }
  template <typename R, typename I> static R dereference(const I &i) { return i.dereference(); }
};
template <typename D, typename V, typename C, typename R = V &> class iterator_facade {
public:
  typedef V value_type;
  typedef R reference;
  typedef std::ptrdiff_t difference_type;
  typedef V *pointer;
  typedef C iterator_category;
  R operator*() const { return iterator_core_access::dereference<R>(static_cast<const D &>(*this)); }
  D &operator++() {
    iterator_core_access::increment(static_cast<D &>(*this));
    return static_cast<D &>(*this);
  }
  D operator++(int) {
    D o = static_cast<D &>(*this);
    ++*this;
    return o;
  }
  friend bool operator==(const D &a, const D &b) { return iterator_core_access::equal(a, b); }
  friend bool operator!=(const D &a, const D &b) { return !iterator_core_access::equal(a, b); }
};
} // namespace util
} // namespace hpx
