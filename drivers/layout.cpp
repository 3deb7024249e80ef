#include "common.hpp"

#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
using namespace drv;
typedef std::vector<memory_layout::tiling_info_dim> tinfo;
static const u64 CAP = 3000000;

static void split(const par &p, std::vector<u64> &T, std::vector<u64> &t, std::vector<u64> &S, tinfo &ti) {
  size_t D = p.size() / 2;
  for (size_t d = 0; d < D; d++) {
    T.push_back(p[d]);
    t.push_back(p[D + d]);
    S.push_back(p[d] * p[D + d]);
    ti.push_back({(size_t)p[D + d], (size_t)(p[d] * p[D + d])});
  }
}
static u64 prod(const std::vector<u64> &v) {
  u64 r = 1;
  for (u64 x : v)
    r *= x;
  return r;
}
static u64 fold(const std::vector<u64> &i, const std::vector<u64> &e) {
  u64 r = 0;
  for (size_t d = 0; d < i.size(); d++)
    r = r * e[d] + i[d];
  return r;
}
// position in the tiled vector of the element at row-major position q
static u64 tiled_pos(u64 q, const std::vector<u64> &T, const std::vector<u64> &t, const std::vector<u64> &S) {
  size_t D = S.size();
  std::vector<u64> a(D), i(D);
  for (size_t k = D; k-- > 0;) {
    u64 x = q % S[k];
    q /= S[k];
    a[k] = x / t[k];
    i[k] = x % t[k];
  }
  return fold(a, T) * prod(t) + fold(i, t);
}
template <typename T> static T value(u64 i) { return (T)(i * 2654435761u % 8388593); }
template <> std::string value<std::string>(u64 i) { return "element number " + std::to_string(i); }

#define DISPATCH(D, f, ...)                                                                        \
  switch (D) {                                                                                     \
  case 1: f<1>(__VA_ARGS__); break;                                                                \
  case 2: f<2>(__VA_ARGS__); break;                                                                \
  case 3: f<3>(__VA_ARGS__); break;                                                                \
  case 4: f<4>(__VA_ARGS__); break;                                                                \
  }

template <size_t D, typename E> static void make_tiled_t(const par &p) {
  std::vector<u64> T, t, S;
  tinfo ti;
  split(p, T, t, S, ti);
  u64 n = prod(S);
  std::vector<E> org(n);
  for (u64 i = 0; i < n; i++)
    org[i] = value<E>(i);
  const std::vector<E> copy = org;
  const tinfo tc = ti;
  std::vector<E> r = memory_layout::make_tiled<D>(org, ti);
  EXPECT(r.size() == n, "result has %zu elements instead of %llu", r.size(), n);
  for (u64 q = 0; q < n; q++)
    EXPECT(r[tiled_pos(q, T, t, S)] == copy[q], "element at row-major position %llu is not at tiled position %llu", q, tiled_pos(q, T, t, S));
  EXPECT(org == copy, "input was modified");
  for (size_t d = 0; d < D; d++)
    EXPECT(ti.size() == D && ti[d].stride == tc[d].stride && ti[d].tile_size_dir == tc[d].tile_size_dir, "tiling info was modified");
}
template <size_t D, typename E> static void undo_tiling_t(const par &p) {
  std::vector<u64> T, t, S;
  tinfo ti;
  split(p, T, t, S, ti);
  u64 n = prod(S);
  std::vector<E> tiled(n);
  for (u64 i = 0; i < n; i++)
    tiled[i] = value<E>(i);
  const std::vector<E> copy = tiled;
  std::vector<E> r = memory_layout::undo_tiling<D>(tiled, ti);
  EXPECT(r.size() == n, "result has %zu elements instead of %llu", r.size(), n);
  for (u64 q = 0; q < n; q++)
    EXPECT(r[q] == copy[tiled_pos(q, T, t, S)], "element at row-major position %llu is not the one stored at tiled position %llu", q, tiled_pos(q, T, t, S));
  EXPECT(tiled == copy, "input was modified");
}
template <size_t D> static void roundtrip(const par &p) {
  std::vector<u64> T, t, S;
  tinfo ti;
  split(p, T, t, S, ti);
  u64 n = prod(S);
  std::vector<double> org(n);
  for (u64 i = 0; i < n; i++)
    org[i] = value<double>(i);
  std::vector<double> a = memory_layout::make_tiled<D>(org, ti);
  std::vector<double> b = memory_layout::undo_tiling<D>(a, ti);
  EXPECT(b == org, "tiling followed by untiling is not the identity");
  std::vector<double> c = memory_layout::undo_tiling<D>(org, ti);
  EXPECT(memory_layout::make_tiled<D>(c, ti) == org, "untiling followed by tiling is not the identity");
}
template <size_t D> static void make1(const par &p) {
  make_tiled_t<D, double>(p);
  if (prod(p) < 4000) {
    make_tiled_t<D, float>(p);
    make_tiled_t<D, std::string>(p);
  }
}
template <size_t D> static void undo1(const par &p) {
  undo_tiling_t<D, double>(p);
  roundtrip<D>(p);
  if (prod(p) < 4000) {
    undo_tiling_t<D, float>(p);
    undo_tiling_t<D, std::string>(p);
  }
}
static void make_tiled_run(const par &p) { DISPATCH(p.size() / 2, make1, p) }
static void undo_tiling_run(const par &p) { DISPATCH(p.size() / 2, undo1, p) }

static void shapes(Gen &g, u64 cap) {
  for (size_t D = 1; D <= 4; D++) {
    static const u64 mT[] = {0, 9, 4, 3, 2}, mt[] = {0, 9, 5, 3, 3};
    std::vector<u64> lo(2 * D, 0), hi(2 * D, mT[D]);
    for (size_t d = 0; d < D; d++) {
      lo[D + d] = 1;
      hi[D + d] = mt[D];
    }
    product(g, lo, hi, [&](const par &p) { g.emit(p); });
  }
  // one direction long, the others short; then random shapes around the dictionary values
  for (u64 v : g.dict)
    for (size_t D = 1; D <= 4; D++)
      for (size_t k = 0; k < 2 * D; k++)
        for (u64 rest = 1; rest <= 2; rest++) {
          par p(2 * D, rest);
          p[k] = v;
          u64 n = 1;
          for (u64 x : p)
            n = (x && n > CAP / x) ? CAP + 1 : n * x;
          if (v && n <= CAP && g.left())
            g.emit(p);
        }
  while (g.left()) {
    size_t D = g.between(1, 4);
    par p(2 * D);
    u64 n = 1;
    bool ok = true;
    std::vector<size_t> order(2 * D);
    for (size_t i = 0; i < 2 * D; i++)
      order[i] = i;
    std::shuffle(order.begin(), order.end(), g.rng);
    u64 c = g.below(4) ? 20000 : cap;
    for (size_t i : order) {
      p[i] = g.pick(1, std::max<u64>(1, c / n));
      n *= p[i];
    }
    (void)ok;
    g.emit(p);
  }
}
static void make_tiled_gen(Gen &g) { shapes(g, CAP); }

// wrong number of entries of the tiling information
template <size_t D> static void throws1(const par &p) {
  u64 n = p[1], k = p[2];
  tinfo ti;
  for (u64 i = 0; i < k; i++)
    ti.push_back({1, (size_t)n});
  std::vector<double> org(n, 1.0);
  for (int w = 0; w < 2; w++) {
    bool thrown = false;
    try {
      std::vector<double> r = w ? memory_layout::undo_tiling<D>(org, ti) : memory_layout::make_tiled<D>(org, ti);
    } catch (const memory_layout::memory_layout_exception &) {
      thrown = true;
    }
    EXPECT(thrown, "%s<%zu> accepted tiling information with %llu entries", w ? "undo_tiling" : "make_tiled", D, k);
  }
}
static void throws_run(const par &p) { DISPATCH(p[0], throws1, p) }
static void throws_gen(Gen &g) {
  for (u64 D = 1; D <= 4; D++)
    for (u64 n = 0; n <= 4; n++)
      for (u64 k = 0; k <= 9; k++)
        if (k != D)
          g.emit({D, n, k});
}

template <size_t D> static std::array<size_t, D> unfold(u64 q, const std::vector<u64> &e) {
  std::array<size_t, D> r;
  for (size_t k = D; k-- > 0;) {
    r[k] = q % e[k];
    q /= e[k];
  }
  return r;
}
template <size_t D, typename V, size_t... I> static double &call(V &v, const std::array<size_t, D> &i, std::index_sequence<I...>) { return v(i[I]...); }

template <size_t D> static void view1(const par &p) {
  std::vector<u64> T, t, S;
  tinfo ti;
  split(p, T, t, S, ti);
  u64 n = prod(S), nt = prod(T), ts = prod(t);
  std::vector<double> tiled(n);
  for (u64 i = 0; i < n; i++)
    tiled[i] = i;
  std::vector<u64> tiles;
  for (u64 a = 0; a < nt; a++)
    if (a < 20 || a + 3 >= nt)
      tiles.push_back(a);
  for (u64 a : tiles) {
    std::array<size_t, D> ai = unfold<D>(a, T);
    size_t ix[D];
    std::copy(ai.begin(), ai.end(), ix);
    memory_layout::tile_view<D, double, std::allocator<double>> v(tiled, ix, ti);
    EXPECT(v.size() == ts, "tile %llu: size() is %zu", a, (size_t)v.size());
    for (size_t d = 0; d < D; d++) {
      EXPECT(v.get_tile_index()[d] == ai[d], "tile %llu: get_tile_index()[%zu] is %zu", a, d, (size_t)v.get_tile_index()[d]);
      EXPECT(v.get_tiles_dir()[d] == T[d], "tile %llu: get_tiles_dir()[%zu] is %zu", a, d, (size_t)v.get_tiles_dir()[d]);
    }
    for (u64 o = 0; o < ts; o++) {
      if (o > 200 && o + 50 < ts)
        continue;
      std::array<size_t, D> in = unfold<D>(o, t);
      EXPECT(v.flat_index(in) == o, "tile %llu: flat_index is %zu instead of %llu", a, (size_t)v.flat_index(in), o);
      double w = a * ts + o;
      EXPECT(v[o] == w, "tile %llu: view[%llu] reads the wrong element", a, o);
      EXPECT(v[in] == w, "tile %llu: view[index %llu] reads the wrong element", a, o);
      EXPECT((call<D>(v, in, std::make_index_sequence<D>()) == w), "tile %llu: view(index %llu) reads the wrong element", a, o);
      v[o] = -1;
      EXPECT(tiled[a * ts + o] == -1, "tile %llu: writing view[%llu] does not reach the vector", a, o);
      v[in] = -2;
      EXPECT(tiled[a * ts + o] == -2, "tile %llu: writing view[index %llu] does not reach the vector", a, o);
      call<D>(v, in, std::make_index_sequence<D>()) = -3;
      EXPECT(tiled[a * ts + o] == -3, "tile %llu: writing view(index %llu) does not reach the vector", a, o);
      tiled[a * ts + o] = w;
    }
  }
  for (u64 i = 0; i < n; i++)
    EXPECT(tiled[i] == i, "element %llu was modified", i);
}
static void view_run(const par &p) { DISPATCH(p.size() / 2, view1, p) }

template <size_t D> static void iterate1(const par &p) {
  std::vector<u64> T, t, S;
  tinfo ti;
  split(p, T, t, S, ti);
  u64 n = prod(S), nt = prod(T), ts = prod(t);
  std::vector<double> tiled(n);
  for (u64 i = 0; i < n; i++)
    tiled[i] = i;
  u64 k = 0;
  memory_layout::iterate_tiles<D>(tiled, ti, [&](memory_layout::tile_view<D, double, std::allocator<double>> v) {
    EXPECT(k < nt, "more than %llu calls", nt);
    std::array<size_t, D> ai = unfold<D>(k, T);
    for (size_t d = 0; d < D; d++)
      EXPECT(v.get_tile_index()[d] == ai[d], "call %llu sees tile index %zu in direction %zu", k, (size_t)v.get_tile_index()[d], d);
    EXPECT(v.size() == ts, "call %llu: view of %zu elements", k, (size_t)v.size());
    for (u64 o = 0; o < ts; o++) {
      EXPECT(v[o] == k * ts + o, "call %llu: element %llu is wrong", k, o);
      v[o] = v[o] + 0.5;
    }
    k++;
  });
  EXPECT(k == nt, "%llu calls for %llu tiles", k, nt);
  for (u64 i = 0; i < n; i++)
    EXPECT(tiled[i] == i + 0.5, "element %llu was not visited exactly once", i);
}
static void iterate_run(const par &p) { DISPATCH(p.size() / 2, iterate1, p) }

template <size_t D> static void nest1(const par &p) {
  std::array<size_t, D> mn, mx, st;
  size_t cmn[D], cmx[D], cst[D];
  std::vector<u64> m(D);
  u64 n = 1;
  for (size_t d = 0; d < D; d++) {
    cmn[d] = mn[d] = p[3 * d];
    cmx[d] = mx[d] = p[3 * d + 1];
    cst[d] = st[d] = p[3 * d + 2];
    m[d] = mx[d] > mn[d] ? (mx[d] - mn[d] + st[d] - 1) / st[d] : 0;
    n *= m[d];
  }
  for (int w = 0; w < 2; w++) {
    u64 k = 0;
    auto see = [&](const size_t *ix) {
      EXPECT(k < n, "more than %llu calls", n);
      std::array<size_t, D> a = unfold<D>(k, m);
      for (size_t d = 0; d < D; d++)
        EXPECT(ix[d] == mn[d] + a[d] * st[d], "call %llu sees index %zu in direction %zu", k, ix[d], d);
      k++;
    };
    if (w)
      util::loop_nest<D>(mn, mx, st, [&](const std::array<size_t, D> &ix) { see(ix.data()); });
    else
      util::loop_nest<D>(cmn, cmx, cst, [&](const size_t(&ix)[D]) { see(ix); });
    EXPECT(k == n, "%llu calls for %llu indices (%s)", k, n, w ? "std::array" : "C array");
    for (size_t d = 0; d < D; d++)
      EXPECT(mn[d] == p[3 * d] && mx[d] == p[3 * d + 1] && st[d] == p[3 * d + 2], "bounds were modified");
  }
}
static void nest_run(const par &p) { DISPATCH(p.size() / 3, nest1, p) }
static void nest_gen(Gen &g) {
  for (size_t D = 1; D <= 3; D++) {
    static const u64 m[] = {0, 7, 3, 1};
    std::vector<u64> lo(3 * D, 0), hi(3 * D, m[D]);
    for (size_t d = 0; d < D; d++) {
      lo[3 * d + 2] = 1;
      hi[3 * d + 1] = m[D] + 1;
      hi[3 * d + 2] = m[D] + 1;
    }
    product(g, lo, hi, [&](const par &p) { g.emit(p); });
  }
  while (g.left()) {
    size_t D = g.between(1, 4);
    par p;
    u64 n = 1;
    for (size_t d = 0; d < D; d++) {
      u64 mn = g.pick(0, 1ull << 40), st = g.pick(1, 1ull << 30), c = g.pick(0, std::max<u64>(1, 200000 / std::max<u64>(1, n)));
      u64 mx = c == 0 ? mn - std::min(mn, g.below(3)) : mn + (c - 1) * st + 1 + g.below(st);
      n *= c;
      p.push_back(mn);
      p.push_back(mx);
      p.push_back(st);
    }
    g.emit(p);
  }
}

template <size_t D> static void flat1(const par &p) {
  std::array<size_t, D> i, e;
  size_t ci[D], ce[D];
  std::vector<u64> vi, ve;
  for (size_t d = 0; d < D; d++) {
    ci[d] = i[d] = p[d];
    ce[d] = e[d] = p[D + d];
    vi.push_back(p[d]);
    ve.push_back(p[D + d]);
  }
  u64 w = fold(vi, ve);
  size_t r = memory_layout::flat_index(i, e), rc = memory_layout::flat_index(ci, ce);
  EXPECT(r == w, "flat_index(std::array) is %zu instead of %llu", r, w);
  EXPECT(rc == w, "flat_index(C array) is %zu instead of %llu", rc, w);
}
static void flat_run(const par &p) { DISPATCH(p.size() / 2, flat1, p) }
static void flat_gen(Gen &g) {
  for (size_t D = 1; D <= 4; D++) {
    static const u64 m[] = {0, 12, 6, 4, 3};
    std::vector<u64> lo(D, 1), hi(D, m[D]);
    product(g, lo, hi, [&](const par &e) {
      std::vector<u64> l0(D, 0), h0(e);
      for (u64 &x : h0)
        x--;
      product(g, l0, h0, [&](const par &i) {
        par p(i);
        p.insert(p.end(), e.begin(), e.end());
        g.emit(p);
      });
    });
  }
  while (g.left()) {
    size_t D = g.between(1, 4);
    par i, e;
    u64 n = 1;
    for (size_t d = 0; d < D; d++) {
      u64 x = g.below(2) ? g.pick(1, (1ull << 59) / n) : g.between(1, std::min<u64>((1ull << 59) / n, 1ull << g.between(1, 40)));
      n *= x;
      e.push_back(x);
      i.push_back(g.below(2) ? x - 1 : g.below(x));
    }
    i.insert(i.end(), e.begin(), e.end());
    g.emit(i);
  }
}

int main(int argc, char **argv) {
  return drv::main(argc, argv,
                   {{"make_tiled", make_tiled_run, make_tiled_gen},
                    {"undo_tiling", undo_tiling_run, make_tiled_gen},
                    {"throws", throws_run, throws_gen},
                    {"view", view_run, make_tiled_gen},
                    {"iterate", iterate_run, make_tiled_gen},
                    {"nest", nest_run, nest_gen},
                    {"flat", flat_run, flat_gen}});
}
