"""Behaviour-preserving edits on which every check has to stay quiet.

quiet.py [ID...]: each edit is applied to a scratch copy of /repo and the checks of its properties run on it."""
import os, re, shutil, subprocess, sys, tempfile

ML = "src/memory_layout/"
R = {}


def edit(rid, props, *subs):
    R[rid] = (props.split(), subs)


# --- memory layout ---------------------------------------------------------------------------------
edit("tile-helper", "P01", (ML + "tile_array.hpp", """namespace detail {
""", """namespace detail {

template <size_t dim>
size_t tiles_in(const std::vector<tiling_info_dim> &info, size_t d) {
  const tiling_info_dim &t = info[d];
  return t.stride / t.tile_size_dir;
}
"""), (ML + "tile_array.hpp", """    cur_stride *= (tiling_info[(dim - 1) - d].stride /
                   tiling_info[(dim - 1) - d].tile_size_dir);""", """    cur_stride *= tiles_in<dim>(tiling_info, dim - 1 - d);"""))
edit("tile-down-loop", "P01", (ML + "tile_array.hpp", """  for (size_t d = 0; d < dim; d++) {
    skipped_blocks += tile_index[(dim - 1) - d] * cur_stride;
    cur_stride *= (tiling_info[(dim - 1) - d].stride /
                   tiling_info[(dim - 1) - d].tile_size_dir);
  }""", """  for (size_t d = dim; d-- > 0;) {
    skipped_blocks += tile_index[d] * cur_stride;
    cur_stride *= tiling_info[d].stride / tiling_info[d].tile_size_dir;
  }"""))
edit("tile-horner", "P01", (ML + "tile_array.hpp", """        for (size_t d = 0; d < dim; d++) {
          inner_flat_index += inner_index[(dim - 1) - d] * cur_stride;
          cur_stride *= tiling_info[(dim - 1) - d].tile_size_dir;
        }
""", """        for (size_t d = 0; d < dim; ++d) {
          inner_flat_index = inner_flat_index * tiling_info[d].tile_size_dir + inner_index[d];
        }
"""))
edit("tile-while", "P01", (ML + "tile_array.hpp", """  for (size_t tile_index_1d = 0;
       tile_index_1d < cur_info.stride / cur_info.tile_size_dir;
       tile_index_1d += 1) {
    partial_tile_index[cur_dim] = tile_index_1d;
    tile_dim<dim, cur_dim + 1>(tiled, org, tiling_info, partial_tile_index);
  }""", """  const size_t tiles = cur_info.stride / cur_info.tile_size_dir;
  size_t tile_index_1d = 0;
  while (tile_index_1d != tiles) {
    partial_tile_index[cur_dim] = tile_index_1d++;
    tile_dim<dim, cur_dim + 1>(tiled, org, tiling_info, partial_tile_index);
  }"""))
edit("tile-check-first", "P01", (ML + "tile_array.hpp", """  std::vector<T, U> tiled;
  tiled.resize(org.size());
  if (tiling_info.size() != dim) {
    throw memory_layout_exception(
        "tiling_info doesn't match specified dimension");
  }
""", """  if (tiling_info.size() != dim) {
    throw memory_layout_exception(
        "tiling_info doesn't match specified dimension");
  }
  std::vector<T, U> tiled(org.size());
"""))
edit("tile-last-to-first", "P01", (ML + "tile_array.hpp", """  for (size_t tile_index_1d = 0;
       tile_index_1d < cur_info.stride / cur_info.tile_size_dir;
       tile_index_1d += 1) {""", """  for (size_t tile_index_1d = cur_info.stride / cur_info.tile_size_dir;
       tile_index_1d-- > 0;) {"""))
edit("undo-horner", "P02", (ML + "tile_array.hpp", """              std::array<size_t, dim> outer_index;
              for (size_t d = 0; d < dim; d++) {
                outer_index[d] = inner_index[d] + index_offset[d];
              }
              size_t flat_outer_index =
                  flat_index(outer_index, untiled_strides);
""", """              size_t flat_outer_index = 0;
              for (size_t d = 0; d < dim; d++) {
                flat_outer_index = flat_outer_index * untiled_strides[d] + (inner_index[d] + index_offset[d]);
              }
"""))
edit("undo-tiles-outer", "P02", (ML + "tile_array.hpp", """  std::array<size_t, dim> min;
  for (size_t d = 0; d < dim; d++) {
    min[d] = 0;
  }
  std::array<size_t, dim> max;
  for (size_t d = 0; d < dim; d++) {
    max[d] = tiling_info[d].tile_size_dir;
  }
  std::array<size_t, dim> strides;
  for (size_t d = 0; d < dim; d++) {
    strides[d] = 1;
  }
""", """  std::array<size_t, dim> min, max, strides;
  min.fill(0);
  strides.fill(1);
  std::transform(tiling_info.begin(), tiling_info.end(), max.begin(),
                 [](const tiling_info_dim &i) { return i.tile_size_dir; });
"""))
edit("view-order", "P03 P04 P02", (ML + "tile_view.hpp", """    size_t cur_stride = 1;
    base_offset = 0;
    for (size_t d = 0; d < dim; d++) {
      base_offset += tile_index[(dim - 1) - d] * cur_stride;
      cur_stride *= (tiling_info[(dim - 1) - d].stride /
                     tiling_info[(dim - 1) - d].tile_size_dir);
    }

    base_offset *= tile_size;""", """    base_offset = 0;
    for (size_t d = 0; d < dim; d++) {
      base_offset = base_offset * tiles_dir[d] + this->tile_index[d];
    }
    base_offset *= tile_size;"""))
edit("view-onefor", "P03 P04", (ML + "tile_view.hpp", """    for (size_t d = 0; d < dim; d++) {
      this->tile_index[d] = tile_index[d];
      this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
    }

    tile_size = 1;
    for (size_t d = 0; d < dim; d++) {
      tile_size *= tiling_info[d].tile_size_dir;
    }
""", """    tile_size = 1;
    size_t d = 0;
    for (const tiling_info_dim &info : this->tiling_info) {
      if (d == dim) break;
      this->tile_index[d] = tile_index[d];
      this->tiles_dir[d] = info.stride / info.tile_size_dir;
      tile_size *= info.tile_size_dir;
      ++d;
    }
"""))
edit("view-call", "P03", (ML + "tile_view.hpp", """		std::array<size_t, dim> inner_index = {indices...};
    return tiled[base_offset + flat_index(inner_index)];""", """    return (*this)[std::array<size_t, dim>{{static_cast<size_t>(indices)...}}];"""))
edit("view-ptr", "P03 P04", (ML + "tile_view.hpp", """  T &operator[](const size_t tile_offset) { return tiled[base_offset + tile_offset]; }""",
     """  T &operator[](const size_t tile_offset) { T *p = tiled.data() + base_offset; return *(p + tile_offset); }"""))
edit("iter-copy", "P04 P02", (ML + "tile_iterator.hpp", """  size_t tiles_dim = cur_info.stride / cur_info.tile_size_dir;
  for (size_t tile_index_1d = 0; tile_index_1d < tiles_dim;
       tile_index_1d += 1) {
    partial_tile_index[cur_dim] = tile_index_1d;
""", """  const size_t tiles_dim = cur_info.stride / cur_info.tile_size_dir;
  size_t &tile_index_1d = partial_tile_index[cur_dim];
  for (tile_index_1d = 0; tile_index_1d < tiles_dim; ++tile_index_1d) {
"""))
edit("nest-while", "P05", (ML + "loop_nest.hpp", """  for (T cur = min[cur_dim]; cur < max[cur_dim]; cur += step[cur_dim]) {
    partial_index[cur_dim] = cur;
    execute_looped<dim, cur_dim + 1>(min, max, step, partial_index, f);
  }
}
}""", """  T cur = min[cur_dim];
  const T end = max[cur_dim];
  const T inc = step[cur_dim];
  while (cur < end) {
    partial_index[cur_dim] = cur;
    execute_looped<dim, cur_dim + 1>(min, max, step, partial_index, f);
    cur += inc;
  }
}
}"""))
edit("nest-dowhile", "P05 P01", (ML + "loop_nest.hpp", """  for (T cur = min[cur_dim]; cur < max[cur_dim]; cur += step[cur_dim]) {
    partial_index[cur_dim] = cur;
    execute_looped<dim, cur_dim + 1>(min, max, step, partial_index, f);
  }
}
}""", """  if (!(min[cur_dim] < max[cur_dim])) {
    return;
  }
  T cur = min[cur_dim];
  do {
    partial_index[cur_dim] = cur;
    execute_looped<dim, cur_dim + 1>(min, max, step, partial_index, f);
    cur += step[cur_dim];
  } while (cur < max[cur_dim]);
}
}"""))
edit("nest-count", "P05", (ML + "loop_nest.hpp", """  for (T cur = min[cur_dim]; cur < max[cur_dim]; cur += step[cur_dim]) {
    partial_index[cur_dim] = cur;
    execute_looped<dim, cur_dim + 1>(min, max, step, partial_index, f);
  }
}
}""", """  for (partial_index[cur_dim] = min[cur_dim]; partial_index[cur_dim] < max[cur_dim];
       partial_index[cur_dim] += step[cur_dim]) {
    execute_looped<dim, cur_dim + 1>(min, max, step, partial_index, f);
  }
}
}"""))
edit("nest-ref", "P05 P01 P02", (ML + "loop_nest.hpp", "std::array<T, dim> &completed_index, F f) {", "std::array<T, dim> &completed_index, F &f) {"),
     (ML + "loop_nest.hpp", "std::array<T, dim> &partial_index, F f) {", "std::array<T, dim> &partial_index, F &f) {"))
edit("flat-horner", "P06 P02", (ML + "util.hpp", """  size_t flat_index = 0;
  size_t cur_stride = 1;
  for (size_t d = 0; d < dim; d++) {
    flat_index += index[(dim - 1) - d] * cur_stride;
    cur_stride *= strides[(dim - 1) - d];
  }
  return flat_index;
}
}""", """  size_t flat = index[0];
  for (size_t d = 1; d < dim; d++) {
    flat = flat * strides[d] + index[d];
  }
  return flat;
}
}"""))
edit("flat-iter", "P06", (ML + "util.hpp", """  size_t flat_index = 0;
  size_t cur_stride = 1;
  for (size_t d = 0; d < dim; d++) {
    flat_index += index[(dim - 1) - d] * cur_stride;
    cur_stride *= strides[(dim - 1) - d];
  }
  return flat_index;
}
}""", """  size_t flat_index = 0;
  size_t cur_stride = 1;
  auto s = strides.rbegin();
  for (auto it = index.rbegin(); it != index.rend(); ++it, ++s) {
    flat_index += *it * cur_stride;
    cur_stride *= *s;
  }
  return flat_index;
}
}"""))

# --- reference kernels -----------------------------------------------------------------------------
NV = "src/reference_kernels/naive.hpp"
edit("naive-helper", "P07", (NV, """#include <cinttypes>
""", """#include <cinttypes>

template <typename T>
static inline T row_times_column(const std::vector<T> &A, const std::vector<T> &B, std::size_t N, uint64_t i, uint64_t j) {
  T sum = 0.0;
  for (uint64_t k = 0; k < N; ++k)
    sum += A.at(i * N + k) * B.at(k * N + j);
  return sum;
}
"""), (NV, """      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(k * N + j);
      }
      C.at(i * N + j) = result_component;
""", """      C.at(i * N + j) = row_times_column(A, B, N, i, j);
"""))
edit("naive-ikj", "P07", (NV, """    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(k * N + j);
      }
      C.at(i * N + j) = result_component;
    }
""", """    for (uint64_t k = 0; k < N; k++) {
      const T a = A.at(i * N + k);
      for (uint64_t j = 0; j < N; j++) {
        C.at(i * N + j) += a * B.at(k * N + j);
      }
    }
"""))
edit("naive-flat", "P07", (NV, """  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
      C.at(i * N + j) = result_component;
    }
  }
""", """  for (uint64_t e = 0; e < N * N; e++) {
    const uint64_t i = e / N;
    const uint64_t j = e % N;
    T result_component = 0.0;
    for (uint64_t k = 0; k < N; k++) {
      result_component += A.at(i * N + k) * B.at(j * N + k);
    }
    C.at(e) = result_component;
  }
"""))
edit("naive-iter", "P07", (NV, """      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
      C.at(i * N + j) = result_component;
""", """      auto a = A.cbegin() + i * N;
      auto b = B.cbegin() + j * N;
      const auto end = a + N;
      T result_component = 0.0;
      while (a != end) {
        result_component += *a++ * *b++;
      }
      C[i * N + j] = result_component;
"""))
edit("naive-collapse", "P07", (NV, """#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(k * N + j);""", """#pragma omp parallel for collapse(2)
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(k * N + j);"""))
edit("naive-sched", "P07", (NV, """#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(k * N + j);""", """#pragma omp parallel for schedule(dynamic, 4)
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = N; k-- > 0;) {
        result_component += A.at(i * N + k) * B.at(k * N + j);"""))
edit("naive-serial", "P07", (NV, """#pragma omp parallel for
""", "", "all"))
edit("naive-inner-product", "P07", (NV, """#include <cinttypes>
""", """#include <cinttypes>
#include <numeric>
"""), (NV, """      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
      C.at(i * N + j) = result_component;
""", """      C.at(i * N + j) = std::inner_product(A.begin() + i * N, A.begin() + (i + 1) * N, B.begin() + j * N, T(0));
"""))
edit("naive-unroll", "P07", (NV, """        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
""", """        result_component += A.at(i * N + k) * B.at(j * N + k);
        if (++k < N) {
          result_component += A.at(i * N + k) * B.at(j * N + k);
        }
      }
"""))
edit("naive-unroll2", "P07", (NV, """      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
""", """      uint64_t k = 0;
      for (; k + 1 < N; k += 2) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
        result_component += A.at(i * N + k + 1) * B.at(j * N + k + 1);
      }
      if (k < N) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
"""))
KN = "src/reference_kernels/kernel.hpp"
edit("kernel-hoist", "P08", (KN, """    for (uint64_t i = 0; i < blockSize; i++) {
      for (uint64_t j = 0; j < blockSize; j++) {
        T result_component = 0.0;
        for (uint64_t k = 0; k < N; k++) {
          result_component += A.at((x + i) * N + k) * B.at(k * N + (y + j));
        }""", """    for (uint64_t i = 0; i < blockSize; i++) {
      const size_t row = (x + i) * N;
      for (uint64_t j = 0; j < blockSize; j++) {
        const size_t column = y + j;
        T result_component = 0.0;
        size_t b = column;
        for (uint64_t k = 0; k < N; k++, b += N) {
          result_component += A.at(row + k) * B.at(b);
        }"""))
edit("kernel-ji", "P08", (KN, """  for (uint64_t i = 0; i < blockSize; i++) {
    for (uint64_t j = 0; j < blockSize; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A[""", """  for (uint64_t j = 0; j < blockSize; j++) {
    for (uint64_t i = 0; i < blockSize; i++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A["""))
edit("blocked-copy", "P08", (KN, """      for (size_t k = 0; k < k_max; k++) {
        A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
      }""", """      std::copy(A.begin() + (x + i) * N + k_block, A.begin() + (x + i) * N + k_block + k_max,
                A_small.begin() + i * block_input);"""))
edit("blocked-end", "P08", (KN, """  for (size_t k_block = 0; k_block < N; k_block += block_input) {

    const size_t k_max = std::min(block_input, N - k_block);
""", """  for (size_t k_block = 0; k_block < N; k_block += block_input) {
    const size_t left = N - k_block;
    const size_t k_max = left < block_input ? left : block_input;
"""))
edit("blocked-fused", "P08", (KN, """        A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
      }
    }
""", """        A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
        B_small[i * block_input + k] = B[(y + i) * N + k_block + k];
      }
    }
"""), (KN, re.compile(r"    for \(size_t j = 0; j < block_result; j\+\+\) \{\s*for \(size_t k = 0; k < k_max; k\+\+\) \{\s*B_small\[j.*?\n      \}\n    \}\n", re.S), ""))
edit("blocked-arr", "P08", (KN, re.compile(r"        T result_component_0_0 = 0.0;.*?result_component_3_1;\n", re.S), """        T acc[4][2] = {};
        for (size_t k = 0; k < k_max; k++) {
          for (size_t r = 0; r < 4; r++) {
            for (size_t c = 0; c < 2; c++) {
              acc[r][c] += A_small[(i + r) * block_input + k] * B_small[(j + c) * block_input + k];
            }
          }
        }
        for (size_t r = 0; r < 4; r++) {
          for (size_t c = 0; c < 2; c++) {
            C[(i + r) * block_result + (j + c)] += acc[r][c];
          }
        }
"""))

# --- util ------------------------------------------------------------------------------------------
TR = "src/util/transpose_matrix.hpp"
edit("tr-flat", "P09", (TR, """  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < N; j++) {
      m[i * N + j] = org[j * N + i];
    }
  }
""", """  for (size_t e = 0; e < N * N; e++) {
    m[e] = org[(e % N) * N + e / N];
  }
"""))
edit("tr-push", "P09", (TR, """  std::vector<T> m(N * N);

  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < N; j++) {
      m[i * N + j] = org[j * N + i];
    }
  }
""", """  std::vector<T> m;
  m.reserve(N * N);

  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < N; j++) {
      m.push_back(org[j * N + i]);
    }
  }
"""))
edit("tr-counter", "P09", (TR, """  for (size_t i = 0; i < stride_org; i++) {
    for (size_t j = 0; j < stride_result; j++) {
      result[i * stride_result + j] = org[j * stride_org + i];
    }
  }
""", """  size_t out = 0;
  for (size_t i = 0; i < stride_org; i++) {
    for (size_t j = 0; j < stride_result; j++) {
      result[out++] = org[j * stride_org + i];
    }
  }
"""))
edit("tr-ji", "P09", (TR, """  for (size_t i = 0; i < stride_org; i++) {
    for (size_t j = 0; j < stride_result; j++) {
      result[i""", """  for (size_t j = 0; j < stride_result; j++) {
    for (size_t i = 0; i < stride_org; i++) {
      result[i"""))
edit("tr-swap", "P09", (TR, """  std::vector<T> m(N * N);

  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < N; j++) {
      m[i * N + j] = org[j * N + i];
    }
  }

  return m;
""", """  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < i; j++) {
      std::swap(org[i * N + j], org[j * N + i]);
    }
  }

  return org;
"""))
edit("enum-iota", "P09", ("src/util/pattern_matrices.hpp", """  for (size_t i = 0; i < N * N; i++) {
    m[i] = static_cast<double>(i);
  }
""", """  size_t i = 0;
  for (auto &e : m) {
    e = static_cast<double>(i++);
  }
"""))
edit("enum-2d", "P09", ("src/util/pattern_matrices.hpp", """  for (size_t i = 0; i < N * N; i++) {
    m[i] = static_cast<double>(i);
  }
""", """  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < N; j++) {
      m[i * N + j] = static_cast<T>(i * N + j);
    }
  }
"""))

# --- otherExperiments ------------------------------------------------------------------------------
OE = "otherExperiments/"
edit("x-naive-acc", "P10", (OE + "multNaive.cpp", """      for (size_t k = 0; k < n; k += 1) {
	C[i * n + j] += A[i * n + k] * B[k * n + j]; 
      }
""", """      double sum = C[i * n + j];
      for (size_t k = 0; k < n; k += 1) {
	sum += A[i * n + k] * B[k * n + j];
      }
      C[i * n + j] = sum;
"""))
edit("x-naive-ikj", "P10", (OE + "multNaive.cpp", """    for (size_t j = 0; j < n; j += 1) {
      for (size_t k = 0; k < n; k += 1) {
	C""", """    for (size_t k = 0; k < n; k += 1) {
      for (size_t j = 0; j < n; j += 1) {
	C"""))
edit("x-transposed-ptr", "P10", (OE + "multTransposed.cpp", """      for (size_t k = 0; k < n; k += 1) {
	C[i * n + j] += A[i * n + k] * B[j * n + k];
      }
""", """      const double *a = A + i * n;
      const double *b = B + j * n;
      double &c = C[i * n + j];
      for (uint32_t k = n; k > 0; --k) {
	c += *a++ * *b++;
      }
"""))
edit("x-counter-u32", "P10", (OE + "multCounter.cpp", """  for (size_t i = 0; i < n; i += 1) {
    for (size_t j = 0; j < n; j += 1) {""", """  for (uint32_t i = 0; i < n; ++i) {
    for (uint32_t j = 0; j < n; ++j) {"""), (OE + "multCounter.cpp", "	result += A[i * n + k] * B[j * n + k];", "	result += A[size_t(i) * n + k] * B[size_t(j) * n + k];"),
     (OE + "multCounter.cpp", "C[i * n + j] = result;", "C[size_t(i) * n + j] = result;"))
edit("x-blocked2-lambda", "P10", (OE + "multBlocked.cpp", """      double result1 = 0.0;
      double result2 = 0.0;
      double result3 = 0.0;
      double result4 = 0.0;


""", """      double result1 = 0.0, result2 = 0.0, result3 = 0.0, result4 = 0.0;
      const double *a0 = A + i * n, *a1 = a0 + n;
      const double *b0 = B + j * n, *b1 = b0 + n;
"""), (OE + "multBlocked.cpp", re.compile(r"	result1 \+= A\[i \* n \+ k\] \* B\[j \* n \+ k\];\n\n.*?	result4[^\n]*\n", re.S), """	result1 += a0[k] * b0[k];
	result2 += a1[k] * b0[k];
	result3 += a0[k] * b1[k];
	result4 += a1[k] * b1[k];
"""))
edit("x-gpu-reg", "P10", (OE + "multGPU.cpp", """	    for (size_t kk = 0; kk < 4; kk++) { //horizontal sum + single store instruction
	      result[(ii + 0) * BLOCKSIZE + jj + 0] += resultChunk1[kk];
	    }
""", """	    double sum = 0.0;
	    for (size_t kk = 0; kk < 4; kk++) {
	      sum += resultChunk1[kk];
	    }
	    result[ii * BLOCKSIZE + jj] += sum;
"""))
edit("x-gpu-scalar", "P10", (OE + "multGPU.cpp", re.compile(r"	    double resultChunk1\[4\];.*?	    for \(size_t kk = 0; kk < 4; kk\+\+\) \{ //horizontal.*?\n	    \}\n", re.S), """	    double sum = 0.0;
	    for (size_t k = 0; k < KCHUNK; ++k) {
	      sum += AA[ii * KCHUNK + k] * BB[jj * KCHUNK + k];
	    }
	    result[ii * BLOCKSIZE + jj] += sum;
"""))
edit("x-gpu-fill", "P10", (OE + "multGPU.cpp", """      double result[BLOCKSIZE * BLOCKSIZE];

      for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
	  result[ii * BLOCKSIZE + jj] = 0.0;
	}
      }
""", """      double result[BLOCKSIZE * BLOCKSIZE] = {0.0};
"""))
edit("x-exch-helper", "P11", (OE + "multExchanged.cpp", """void multExchanged(""", """static inline void load4(double (&reg)[4], const double *from) {
  for (size_t kk = 0; kk < 4; kk++) {
    reg[kk] = from[kk];
  }
}

void multExchanged("""), (OE + "multExchanged.cpp", re.compile(r"	    for \(size_t kk = 0; kk < 4; kk\+\+\) \{ //one SIMD lane\s*Aregister1.*?\n	    \}\n", re.S), """	    load4(Aregister1, AA + ii * KCHUNK + k);
"""))
edit("x-exch-order", "P11", (OE + "multExchanged.cpp", """	for (size_t k = 0; k < KCHUNK; k++) {
	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
	    BB""", """	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
	  for (size_t k = 0; k < KCHUNK; k++) {
	    BB"""))
edit("x-reg-set1", "P11", (OE + "multRegister.cpp", """_mm256_set_pd(AA[(ii + iii) * KCHUNK + (k + 0)],
						   AA[(ii + iii) * KCHUNK + (k + 0)],
						   AA[(ii + iii) * KCHUNK + (k + 0)],
						   AA[(ii + iii) * KCHUNK + (k + 0)]);""", "_mm256_broadcast_sd(&AA[(ii + iii) * KCHUNK + k]);"))
edit("x-reg-memset", "P11", (OE + "multRegister.cpp", """      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];

      for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
      	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
      	  result[ii * BLOCKSIZEY + jj] = 0.0;
      	}
      }
""", """      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
      __builtin_memset(result, 0, sizeof(result));
"""))
edit("x-intrin-plain", "P11", (OE + "multIntrinLoop.cpp", """	  _mm256_stream_pd(C + (i + ii) * n + (j + jj), _mm256_load_pd(result + ii * BLOCKSIZEY + jj));""",
     """	  _mm256_storeu_pd(C + (i + ii) * n + (j + jj), _mm256_loadu_pd(result + ii * BLOCKSIZEY + jj));"""))
edit("x-intrin-copy", "P11", (OE + "multIntrinLoop.cpp", """	    _mm256_store_pd(AA + ii * KCHUNK + k, _mm256_load_pd(A + (i + ii) * n + (kBlock + k)));""",
     """	    for (size_t l = 0; l < 4; ++l)
	      AA[ii * KCHUNK + k + l] = A[(i + ii) * n + (kBlock + k + l)];"""))

# --- compile-time loops, allocator ------------------------------------------------------------------
LE = "learning/MetaProgrammingCPP.cpp"
edit("loop-while", "P12", (LE, """    for (T cur = min; cur < max; cur++) {
        execute_looped<dim - 1>(min, max, f, args..., cur);
    }""", """    T cur = min;
    while (cur < max) {
        execute_looped<dim - 1>(min, max, f, args..., cur);
        ++cur;
    }"""))
edit("loop-empty", "P12", (LE, """    for (T cur = min; cur < max; cur++) {""", """    if (!(min < max))
        return;
    for (T cur = min; cur != max; cur++) {"""))
AL = "src/aligned_allocator.hpp"
edit("alloc-round", "P13", (AL, """    p = std::align(alignment, sizeof(T), p, size_bytes);
    if (!p) {
      throw;
    }
""", """    size_t over = reinterpret_cast<size_t>(p) % alignment;
    if (over != 0) {
      p = data + (alignment - over);
    }
"""))
edit("alloc-bytes", "P13", (AL, """    size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte
""", """    size_t size_bytes = size * sizeof(T);
    size_bytes += alignment;
"""))
# --- HPX variants ----------------------------------------------------------------------------------
VA = "src/variants/"
edit("semi-zero", "P16", (VA + "semi.cpp", """  std::vector<double> C_conflict(N_fixed * N_fixed);
  std::fill(C_conflict.begin(), C_conflict.end(), 0.0);
""", """  std::vector<double> C_conflict(N_fixed * N_fixed, 0.0);
"""))
edit("semi-plain-copy", "P16", (VA + "semi.cpp", """  iterate_indices<2>(pol_copy, {0, 0}, {N, N},
                     [this, &C, &C_conflict, N_fixed](size_t x, size_t y) {
                       C[x * N + y] = C_conflict[x * N_fixed + y];

                     });
""", """  for (size_t y = 0; y < N; y++) {
    for (size_t x = 0; x < N; x++) {
      C[x * N + y] = C_conflict[x * N_fixed + y];
    }
  }
"""))
edit("semi-klast", "P16", (VA + "semi.cpp", """    for (size_t k_inner = 0; k_inner < block_input; k_inner++) {""", """    const size_t chunk = block_input;
    for (size_t k_inner = 0; k_inner != chunk; ++k_inner) {"""))
edit("looped-ref", "P17", (VA + "looped.hpp", """                      C[x * N + y] += A[x * N + k] * B[y * N + k];""", """                      double &c = C[x * N + y];
                      c = c + B[k + y * N] * A[k + x * N];"""))
edit("looped-step", "P17", (VA + "looped.hpp", """      if (cur_index[d] + step[d] < max_index[d]) {""", """      const T next = cur_index[d] + step[d];
      if (!(next >= max_index[d])) {"""))
edit("looped-reset-down", "P17", (VA + "looped.hpp", """        for (size_t i = 0; i < d; i++) {""", """        for (size_t i = d; i-- > 0;) {"""))
edit("looped-dims", "P17", (VA + "looped.hpp", """          std::vector<T> recursive_min(dim);
          for (size_t d = 0; d < dim; d++) {
            recursive_min[d] = cur_index[d];
          }
""", """          std::vector<T> recursive_min(cur_index);
"""))
edit("alg-loop", "P18", (VA + "algorithms.hpp", """                  value +=
                      std::inner_product(A_submatrix_begin, A_submatrix_end,
                                         B_submatrix_begin, 0.0);""", """                  double sum = 0.0;
                  while (A_submatrix_begin != A_submatrix_end) {
                    sum += *A_submatrix_begin++ * *B_submatrix_begin++;
                  }
                  value += sum;"""))
edit("alg-loop-y", "P18", (VA + "algorithms.hpp", """          for (size_t x = 0; x < block_result; x++) {
            for (size_t y = 0; y < block_result; y++) {
              C[(""", """          for (size_t y = 0; y < block_result; y++) {
            for (size_t x = 0; x < block_result; x++) {
              C[("""))
edit("alg-blocks", "P18", (VA + "algorithms.hpp", """    size_t result_blocks = (N / block_result);
""", """    size_t result_blocks = N / block_result;
""" ), (VA + "algorithms.hpp", """    if (N % block_result != 0) {
      result_blocks += 1;
    }
""", """    result_blocks += N % block_result != 0 ? 1 : 0;
"""))
edit("alg-copy", "P18", (VA + "algorithms.hpp", """            for (size_t x = 0; x < block_result; x++) {
              for (size_t k = 0; k < block_input; k++) {
                A_small[x * block_input + k] =
                    A[(outer_x + x) * N + k_block + k];
              }
            }
""", """            for (size_t x = 0; x < block_result; x++) {
              const size_t row = (outer_x + x) * N + k_block;
              std::copy(A.begin() + row, A.begin() + row + block_input, A_small.begin() + x * block_input);
            }
"""))
edit("comb-copy", "P19", (VA + "combined.cpp", """      A.at(x * K_size + k) = A_org.at(x * N + k);""", """      const double a = A_org[x * N + k];
      A[x * K_size + k] = a;"""))
edit("comb-pad", "P19", (VA + "combined.cpp", """  size_t k_pad = L3_K_STEP - (N % L3_K_STEP);
  if (k_pad == L3_K_STEP) {
    k_pad = 0; // nothing to pad
  }
""", """  size_t k_pad = (L3_K_STEP - N % L3_K_STEP) % L3_K_STEP;
"""))
DC = VA + "components/"
edit("sub-early", "P20", (DC + "multiplier.cpp", """  if (!transposed) {
    kernel::kernel(A, B, C, N, x, y, block_result);
  } else {""", """  if (!transposed) {
    kernel::kernel(A, B, C, N, x, y, block_result);
    return C;
  }
  {"""))
edit("ext-row", "P21", (DC + "recursive.cpp", """      for (uint64_t j = 0; j < blockSize; j++) {""", """      const size_t row = (x + i) * blocksize_last + y;
      for (uint64_t j = 0; j < blockSize; j++) {"""), (DC + "recursive.cpp", "        C.at((x + i) * blocksize_last + (y + j)) =", "        C.at(row + j) ="))
edit("ext-copy", "P21", (DC + "recursive.cpp", "    size_t blocksize_last = 2 * blockSize;", "    const size_t blocksize_last = blockSize + blockSize;"))
edit("rec-order", "P21", (DC + "recursive.cpp", "{0, 0}, {0 + n_new, 0}, {0, 0 + n_new}, {0 + n_new, 0 + n_new}", "{n_new, n_new}, {0, n_new}, {n_new, 0}, {0, 0}"))
edit("rec-size", "P21", (DC + "recursive.cpp", "    uint64_t submatrix_count = 4;", "    const uint64_t submatrix_count = 2 * 2;"), (DC + "recursive.cpp", "    std::vector<double> C(blockSize * blockSize);", "    std::vector<double> C(4 * n_new * n_new, 0.0);"))
edit("ins-ji", "P21", (VA + "static_improved.cpp", """  for (size_t i = 0; i < w.N; i++) {
    for (size_t j = 0; j < w.N; j++) {""", """  for (size_t j = 0; j < w.N; j++) {
    for (size_t i = 0; i < w.N; i++) {"""))


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = sys.argv[1:] or list(R)
    for rid in ids:
        props, subs = R[rid]
        tmp = tempfile.mkdtemp(prefix="quiet-")
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        ok = True
        for f, old, new, *al in subs:
            p = os.path.join(repo, f)
            s = open(p).read()
            # comment lines inside the text are skipped
            if isinstance(old, str) and old not in s:
                s = "\n".join(l for l in s.split("\n") if not re.match(r"\s*//", l))
            if isinstance(old, str):
                ok &= old in s
                s = s.replace(old, new) if al else s.replace(old, new, 1)
            else:
                s, n = old.subn(lambda m: new, s, 1)
                ok &= n == 1
            open(p, "w").write(s)
        if not ok:
            print(rid, "DOES NOT APPLY")
        for p in props if ok else ():
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp)
            r = subprocess.run([sys.executable, os.path.join(here, "check.py"), p], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            tail = (r.stdout.strip().split("\n") or [""])[-1]
            print(rid, p, r.returncode, "quiet" if not r.returncode else v[:1] + [tail[:300]] + [r.stderr[-200:]], flush=True)
        shutil.rmtree(tmp)


main()
