// Verification entry points: instantiate the real templates of /repo/src/memory_layout.
#include <array>
#include <cstddef>
#include <cstdint>
#include <new>
#include <vector>

#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"

typedef std::vector<double> vec;
typedef std::vector<memory_layout::tiling_info_dim> tinfo;
template <size_t D> using view_t = memory_layout::tile_view<D, double, std::allocator<double>>;

#define TILED(D)                                                                                   \
  extern "C" void vc_make_tiled##D(vec *ret, vec &org, const tinfo &ti) {                          \
    new (ret) vec(memory_layout::make_tiled<D>(org, ti));                                          \
  }                                                                                                \
  extern "C" void vc_undo_tiling##D(vec *ret, vec &tiled, const tinfo &ti) {                       \
    new (ret) vec(memory_layout::undo_tiling<D>(tiled, ti));                                       \
  }
TILED(1) TILED(2) TILED(3) TILED(4)

// ---- tile_view: every observer and every access operator -------------------------------------
#define VIEW(D)                                                                                    \
  extern "C" double vc_view_read_flat##D(vec &t, size_t (&ix)[D], const tinfo &ti, size_t off) {   \
    view_t<D> v(t, ix, ti);                                                                        \
    return v[off];                                                                                 \
  }                                                                                                \
  extern "C" double vc_view_read_arr##D(vec &t, size_t (&ix)[D], const tinfo &ti,                  \
                                        const std::array<size_t, D> &in) {                         \
    view_t<D> v(t, ix, ti);                                                                        \
    return v[in];                                                                                  \
  }                                                                                                \
  extern "C" void vc_view_write_flat##D(vec &t, size_t (&ix)[D], const tinfo &ti, size_t off,      \
                                        double x) {                                                \
    view_t<D> v(t, ix, ti);                                                                        \
    v[off] = x;                                                                                    \
  }                                                                                                \
  extern "C" void vc_view_write_arr##D(vec &t, size_t (&ix)[D], const tinfo &ti,                   \
                                       const std::array<size_t, D> &in, double x) {                \
    view_t<D> v(t, ix, ti);                                                                        \
    v[in] = x;                                                                                     \
  }                                                                                                \
  extern "C" void vc_view_meta##D(vec &t, size_t (&ix)[D], const tinfo &ti,                        \
                                  const std::array<size_t, D> &in, size_t *out) {                  \
    view_t<D> v(t, ix, ti);                                                                        \
    out[0] = v.size();                                                                             \
    out[1] = v.flat_index(in);                                                                     \
    for (size_t d = 0; d < D; d++) {                                                               \
      out[2 + d] = v.get_tile_index()[d];                                                          \
      out[2 + D + d] = v.get_tiles_dir()[d];                                                       \
    }                                                                                              \
  }
VIEW(1) VIEW(2) VIEW(3) VIEW(4)

extern "C" double vc_view_read_call1(vec &t, size_t (&ix)[1], const tinfo &ti, size_t a) {
  view_t<1> v(t, ix, ti);
  return v(a);
}
extern "C" double vc_view_read_call2(vec &t, size_t (&ix)[2], const tinfo &ti, size_t a, size_t b) {
  view_t<2> v(t, ix, ti);
  return v(a, b);
}
extern "C" double vc_view_read_call3(vec &t, size_t (&ix)[3], const tinfo &ti, size_t a, size_t b,
                                     size_t c) {
  view_t<3> v(t, ix, ti);
  return v(a, b, c);
}
extern "C" double vc_view_read_call4(vec &t, size_t (&ix)[4], const tinfo &ti, size_t a, size_t b,
                                     size_t c, size_t d) {
  view_t<4> v(t, ix, ti);
  return v(a, b, c, d);
}
extern "C" void vc_view_write_call1(vec &t, size_t (&ix)[1], const tinfo &ti, double x, size_t a) {
  view_t<1> v(t, ix, ti);
  v(a) = x;
}
extern "C" void vc_view_write_call2(vec &t, size_t (&ix)[2], const tinfo &ti, double x, size_t a,
                                    size_t b) {
  view_t<2> v(t, ix, ti);
  v(a, b) = x;
}
extern "C" void vc_view_write_call3(vec &t, size_t (&ix)[3], const tinfo &ti, double x, size_t a,
                                    size_t b, size_t c) {
  view_t<3> v(t, ix, ti);
  v(a, b, c) = x;
}
extern "C" void vc_view_write_call4(vec &t, size_t (&ix)[4], const tinfo &ti, double x, size_t a,
                                    size_t b, size_t c, size_t d) {
  view_t<4> v(t, ix, ti);
  v(a, b, c, d) = x;
}

// ---- iterate_tiles: the callback appends what it observes to a ghost log ------------------------
#define ITER(D)                                                                                    \
  extern "C" void vc_iterate_tiles##D(vec &t, const tinfo &ti, size_t *log, double *first,         \
                                      size_t *count) {                                             \
    memory_layout::iterate_tiles<D>(t, ti, [log, first, count](view_t<D> v) {                      \
      for (size_t d = 0; d < D; d++)                                                               \
        log[*count * (D + 1) + d] = v.get_tile_index()[d];                                         \
      log[*count * (D + 1) + D] = v.size();                                                        \
      first[*count] = v[0];                                                                        \
      *count = *count + 1;                                                                         \
    });                                                                                            \
  }                                                                                                \
  extern "C" void vc_iterate_rw##D(vec &t, const tinfo &ti) {                                      \
    memory_layout::iterate_tiles<D>(t, ti, [](view_t<D> v) {                                       \
      for (size_t i = 0; i < v.size(); i++)                                                        \
        v[i] = v[i] + 1.0;                                                                         \
    });                                                                                            \
  }
ITER(1) ITER(2) ITER(3) ITER(4)

// ---- loop_nest -------------------------------------------------------------------------------------
#define NEST(D)                                                                                    \
  extern "C" void vc_loop_nest_arr##D(const std::array<size_t, D> &mn,                             \
                                      const std::array<size_t, D> &mx,                             \
                                      const std::array<size_t, D> &st, size_t *log,                \
                                      size_t *count) {                                             \
    util::loop_nest<D>(mn, mx, st, [log, count](const std::array<size_t, D> &ix) {                 \
      for (size_t d = 0; d < D; d++)                                                               \
        log[*count * D + d] = ix[d];                                                               \
      *count = *count + 1;                                                                         \
    });                                                                                            \
  }                                                                                                \
  extern "C" void vc_loop_nest_c##D(const size_t (&mn)[D], const size_t (&mx)[D],                  \
                                    const size_t (&st)[D], size_t *log, size_t *count) {           \
    util::loop_nest<D>(mn, mx, st, [log, count](const size_t (&ix)[D]) {                           \
      for (size_t d = 0; d < D; d++)                                                               \
        log[*count * D + d] = ix[d];                                                               \
      *count = *count + 1;                                                                         \
    });                                                                                            \
  }
NEST(1) NEST(2) NEST(3) NEST(4)

// ---- flat_index ------------------------------------------------------------------------------------
#define FLAT(D)                                                                                    \
  extern "C" size_t vc_flat_arr##D(const std::array<size_t, D> &ix,                                \
                                   const std::array<size_t, D> &st) {                              \
    return memory_layout::flat_index(ix, st);                                                      \
  }                                                                                                \
  extern "C" size_t vc_flat_c##D(const size_t (&ix)[D], const size_t (&st)[D]) {                   \
    return memory_layout::flat_index(ix, st);                                                      \
  }
FLAT(1) FLAT(2) FLAT(3) FLAT(4)
