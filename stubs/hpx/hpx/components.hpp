// Components, actions, futures: the callee of async runs once, before its future is read; a then-continuation runs once, at the
// latest in wait_all, in any order relative to the other continuations.
#pragma once
#include <hpx/core.hpp>

#ifndef HPX_STUB_LAST
#define HPX_STUB_LAST 0 // the continuation that wait_all runs last
#endif

namespace hpx {
struct id_type {
  void *component;
  bool operator==(const id_type &o) const { return component == o.component; }
};
inline std::ostream &operator<<(std::ostream &o, const id_type &) { return o; }
namespace naming {
typedef hpx::id_type id_type;
inline std::uint32_t get_locality_id_from_id(id_type) { return 0; }
} // namespace naming
inline std::uint32_t get_locality_id() { return 0; }
inline id_type find_here() { return id_type{nullptr}; }
inline id_type find_root_locality() { return find_here(); }

template <typename T> struct future;
template <> struct future<void>;
template <typename T> struct future {
  T value;
  T get() { return std::move(value); }
  template <typename F> future<void> then(F f);
};
template <> struct future<void> {
  void (*run)(void *);
  void *data;
  void get() {
    if (run)
      run(data);
    run = nullptr;
  }
};
namespace util {
template <typename F> struct unwrapping { F wrapped; };
template <typename F> unwrapping<F> unwrapped(F f) { return unwrapping<F>{f}; }
} // namespace util
template <typename F, typename T> struct continuation {
  F f;
  T value;
  static void run(void *p) {
    continuation *c = static_cast<continuation *>(p);
    c->f.wrapped(std::move(c->value));
    delete c;
  }
};
template <typename T> template <typename F> future<void> future<T>::then(F f) {
  return future<void>{&continuation<F, T>::run, new continuation<F, T>{f, std::move(value)}};
}
inline void wait_all(std::vector<future<void>> &v) {
  for (std::size_t i = 0; i < v.size(); i++)
    v[(HPX_STUB_LAST + 1 + i) % v.size()].get();
}
inline future<std::uint32_t> get_num_localities() { return future<std::uint32_t>{1}; }
inline std::vector<id_type> find_all_localities() { return std::vector<id_type>(1, find_here()); }
struct default_distribution_policy {};
inline default_distribution_policy default_layout(const std::vector<id_type> &) { return default_distribution_policy(); }

// what an action does; a harness may give the contract of the action instead
template <typename Action> struct remote {
  template <typename... A> static auto call(id_type id, A... a) {
    return Action::invoke(*static_cast<typename Action::component *>(id.component), a...);
  }
};
template <typename Action, typename... A> auto async(id_type id, A... a) -> future<decltype(remote<Action>::call(id, a...))> {
  return future<decltype(remote<Action>::call(id, a...))>{remote<Action>::call(id, a...)};
}
namespace components {
template <typename C> struct component {};
template <typename C> struct component_base {};
#ifndef HPX_STUB_NAMES // a harness may give its own names
typedef std::string name_type;
template <typename T> T *keep(T *p) { // components live until the program ends
  static std::vector<T *> all;
  all.push_back(p);
  return p;
}
inline std::map<std::string, void *> &names() {
  static std::map<std::string, void *> m;
  return m;
}
template <typename C> void name(const std::string &n, void *p) { names()[n] = p; }
template <typename C> void *named(const std::string &n) { return names().at(n); }
#else
template <typename T> T *keep(T *p) { return p; }
#endif
template <typename C> struct client {
  id_type id;
  id_type get_id() const { return id; }
  bool register_as(const name_type &n, bool = true) {
    name<C>(n, id.component);
    return true;
  }
  void connect_to(const name_type &n) { id.component = named<C>(n); }
};
} // namespace components
template <typename C> struct make;
template <typename T> struct make<components::client<T>> {
  template <typename... A> static components::client<T> one(id_type, A &&... a) { return components::client<T>{id_type{components::keep(new T(std::forward<A>(a)...))}}; }
};
template <typename T> struct make<components::client<T>[]> {
  template <typename... A>
  static future<std::vector<components::client<T>>> one(const default_distribution_policy &, std::size_t n, A &&... a) {
    std::vector<components::client<T>> v;
    for (std::size_t i = 0; i < n; i++)
      v.push_back(components::client<T>{id_type{components::keep(new T(a...))}});
    return future<std::vector<components::client<T>>>{std::move(v)};
  }
};
template <typename C, typename... A> auto new_(A &&... a) -> decltype(make<C>::one(std::forward<A>(a)...)) {
  return make<C>::one(std::forward<A>(a)...);
}
} // namespace hpx

#define HPX_DEFINE_COMPONENT_ACTION(comp, method, name)                                                                                \
  struct name {                                                                                                                        \
    typedef comp component;                                                                                                            \
    template <typename C, typename... A> static auto invoke(C &c, A... a) { return c.method(a...); }                                   \
  }
#define HPX_REGISTER_COMPONENT(...) static_assert(true, "")
#define HPX_REGISTER_ACTION(...) static_assert(true, "")
#define HPX_REGISTER_ACTION_DECLARATION(...) static_assert(true, "")
