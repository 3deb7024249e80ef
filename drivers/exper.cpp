#include "common.hpp"

#include "mult.hpp"
using namespace drv;

void multRegister_nofma(double *, double *, double *, const uint32_t);
void multIntrinLoop_nofma(double *, double *, double *, const uint32_t);
void multGPUASM_nofma(double *, double *, double *, const uint32_t);

typedef void (*fn)(double *, double *, double *, const uint32_t);
struct Variant {
  const char *name;
  fn f, f2; // f2: the build without FMA instructions
  u64 unit;
  bool transposed, acc;
};
#ifdef PLAIN
static const Variant V[] = {{"naive", multNaive, nullptr, 1, false, true},     {"transposed", multTransposed, nullptr, 1, true, true},
                            {"counter", multCounter, nullptr, 1, true, false}, {"blocked2", multBlocked2, nullptr, 2, true, false},
                            {"blocked4", multBlocked4, nullptr, 4, true, false}, {"gpu", multGPU, nullptr, 128, true, false}};
#else
static const Variant V[] = {{"exchanged", multExchanged, nullptr, 128, false, false},
                            {"register", multRegister, multRegister_nofma, 256, false, false},
                            {"intrinloop", multIntrinLoop, multIntrinLoop_nofma, 128, false, false},
                            {"gpuasm", multGPUASM, multGPUASM_nofma, 256, true, false},
                            {"asm", multASM, nullptr, 4, true, false}};
#endif

struct Buf { // exactly n doubles, 64 byte aligned, redzones from ASan
  double *p;
  u64 n;
  explicit Buf(u64 n) : p(nullptr), n(n) {
    if (posix_memalign((void **)&p, 64, n * 8 ? n * 8 : 8))
      throw std::bad_alloc();
  }
  ~Buf() { free(p); }
};

// p = {n, build, seed}
template <int v> static void run(const par &p) {
  const Variant &w = V[v];
  u64 n = p[0], seed = p.size() > 2 ? p[2] : 1;
  if (n % w.unit)
    return;
  fn f = p.size() > 1 && p[1] && w.f2 ? w.f2 : w.f;
  Buf A(n * n), B(n * n), C(n * n);
  std::vector<double> a(n * n), b(n * n), c(n * n);
  std::mt19937_64 r(seed);
  for (u64 i = 0; i < n * n; i++) {
    a[i] = (double)(int)(r() % 19) - 9;
    b[i] = (double)(int)(r() % 19) - 9;
    c[i] = (double)(int)(r() % 19) - 9;
  }
  std::copy(a.begin(), a.end(), A.p);
  std::copy(b.begin(), b.end(), B.p);
  std::copy(c.begin(), c.end(), C.p);
  f(A.p, B.p, C.p, (uint32_t)n);
  EXPECT(!n || (!memcmp(A.p, a.data(), n * n * 8) && !memcmp(B.p, b.data(), n * n * 8)), "an operand was modified");
  std::vector<double> row(n);
  for (u64 i = 0; i < n; i++) {
    if (w.transposed)
      for (u64 j = 0; j < n; j++) {
        double s = 0;
        for (u64 k = 0; k < n; k++)
          s += a[i * n + k] * b[j * n + k];
        row[j] = s;
      }
    else {
      std::fill(row.begin(), row.end(), 0.0);
      for (u64 k = 0; k < n; k++)
        for (u64 j = 0; j < n; j++)
          row[j] += a[i * n + k] * b[k * n + j];
    }
    for (u64 j = 0; j < n; j++) {
      double want = row[j] + (w.acc ? c[i * n + j] : 0.0);
      EXPECT(C.p[i * n + j] == want, "n=%llu: C[%llu][%llu] is %g instead of %g", n, i, j, C.p[i * n + j], want);
    }
  }
}
template <int v> static void gen(Gen &g) {
  const Variant &w = V[v];
  u64 s = 1;
  for (u64 q = 0; q * w.unit <= (w.unit > 100 ? 256 : 40); q++)
    for (u64 bld = 0; bld <= (w.f2 ? 1 : 0); bld++)
      g.emit({q * w.unit, bld, s++});
  for (u64 d : g.dict) {
    u64 n = (d + w.unit - 1) / w.unit * w.unit;
    if (n > 40 && n <= (w.unit > 100 ? 768 : 520) && g.left())
      for (u64 bld = 0; bld <= (w.f2 ? 1 : 0) && g.left(); bld++)
        g.emit({n, bld, s++});
  }
  while (g.left())
    g.emit({w.unit * g.between(1, std::max<u64>(1, (w.unit > 100 ? 640 : 260) / w.unit)), g.below(2), s++});
}

int main(int argc, char **argv) {
  return drv::main(argc, argv,
                   {{V[0].name, run<0>, gen<0>},
                    {V[1].name, run<1>, gen<1>},
                    {V[2].name, run<2>, gen<2>},
                    {V[3].name, run<3>, gen<3>},
                    {V[4].name, run<4>, gen<4>},
#ifdef PLAIN
                    {V[5].name, run<5>, gen<5>}
#endif
                   });
}
