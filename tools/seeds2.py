PRE = "#include <array>\n#include <cstddef>\n#include <cstdint>\n#include <cstdio>\n#include <vector>\n#include <algorithm>\n"
MUL = PRE + r'''
#include <cstdlib>
void %(f)s(double *A, double *B, double *C, const uint32_t n);
int main() {
  const size_t n = %(n)d;
  double *A = (double *)aligned_alloc(64, n * n * 8), *B = (double *)aligned_alloc(64, n * n * 8), *C = (double *)aligned_alloc(64, n * n * 8);
  for (int round = 0; round < %(r)d; round++) {
    for (size_t i = 0; i < n * n; i++) {
      A[i] = (double)(i * 7 %% 13) - 5;
      B[i] = (double)(i * 5 %% 11) - 4;
      C[i] = 77;
    }
    %(f)s(A, B, C, n);
    for (size_t q = 0; q < n * n; q += %(step)d) {
      double s = 0;
      size_t i = q / n, j = q %% n;
      for (size_t k = 0; k < n; k++)
        s += A[i * n + k] * %(b)s;
      if (C[q] != s)
        return 1;
    }
  }
  return 0;
}
'''
OEX = "g++ -std=c++14 -O2 -mavx2 -mfma -fopenmp -w"
SEEDS = [
 dict(id="B11", property="P12", file="learning/MetaProgrammingCPP.cpp",
      old="for (T cur = min; cur < max; cur++) {\n        execute_looped", new="for (T cur = min; cur != max; cur++) {\n        execute_looped",
      cxx="g++ -std=c++14 -O1 -w -I .",
      demo=PRE + r'''
#include <type_traits>
#define main learning_main
#include "learning/MetaProgrammingCPP.cpp"
#undef main
int main() {
  size_t calls = 0;
  Looper<2, size_t> l(5, 3);
  l.iterate_simple([&](size_t, size_t) {
    if (++calls > 10)
      exit(1);
  });
  return calls != 0;
}
''',
      needs="a lower bound above the upper bound", breaks="the loop runs through the whole integer range"),
 dict(id="B12", property="P13", file="src/aligned_allocator.hpp",
      old="size_t size_bytes = sizeof(T) * size + alignment;", new="size_t size_bytes = sizeof(T) * size + alignment / 2;",
      demo=PRE + r'''
#include "aligned_allocator.hpp"
int main() {
  for (size_t n = 1; n < 400; n++) {
    alignment::aligned_allocator a;
    double *p = a.alloc<double>(n, 4096);
    for (size_t k = 0; k < n; k++)
      p[k] = k;
    if ((size_t)p % 4096)
      return 1;
  }
  return 0;
}
''',
      needs="an address from operator new in the first half of an alignment period", breaks="std::align finds no room and the program terminates"),
 dict(id="B13", property="P10", file="otherExperiments/multBlocked.cpp",
      old="""  #pragma omp parallel for
  //REMARK: blocking with blocksize 2 -> ~2x performance
  for (size_t i = 0; i < n; i += 2) {
    for (size_t j = 0; j < n; j += 2) {

      //REMARK: g++-4.9 doesn't report successfully vectorized loop
      double result1 = 0.0;
""",
      new="""  double result1;
  #pragma omp parallel for
  //REMARK: blocking with blocksize 2 -> ~2x performance
  for (size_t i = 0; i < n; i += 2) {
    for (size_t j = 0; j < n; j += 2) {

      //REMARK: g++-4.9 doesn't report successfully vectorized loop
      result1 = 0.0;
""",
      cxx="g++ -std=c++14 -O0 -mavx2 -mfma -fopenmp -w", link="otherExperiments/multBlocked.cpp",
      demo=MUL % dict(f="multBlocked2", n=128, r=100, step=1, b="B[j * n + k]"),
      needs="two threads updating the shared accumulator at the same time", breaks="one of the four accumulators is shared by all threads"),
 dict(id="B14", property="P10", file="otherExperiments/multGPU.cpp",
      old="for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {\n\n\tdouble AA", new="for (size_t kBlock = 0; kBlock + KCHUNK <= n - (n > 2 * KCHUNK ? KCHUNK / 2 : 0); kBlock += KCHUNK) {\n\n\tdouble AA",
      cxx=OEX, link="otherExperiments/multGPU.cpp",
      demo=MUL % dict(f="multGPU", n=384, r=1, step=7, b="B[j * n + k]"),
      needs="n of at least three chunks", breaks="the last chunk of every dot product is dropped"),
 dict(id="B15", property="P11", file="otherExperiments/multExchanged.cpp",
      old="B[(kBlock + k) * n + (j + jj)]", new="B[(kBlock + k) * n + (i + jj)]",
      cxx=OEX, link="otherExperiments/multExchanged.cpp",
      demo=MUL % dict(f="multExchanged", n=256, r=1, step=1, b="B[k * n + j]"),
      needs="more than one block (n >= 256)", breaks="off-diagonal blocks use the columns of the wrong block"),
 dict(id="B16", property="P11", file="otherExperiments/multASM.cpp",
      old='''"movl $0, %%eax\\n\\t"''', new='''"movl $4, %%eax\\n\\t"''',
      cxx=OEX, link="otherExperiments/multASM.cpp",
      demo=MUL % dict(f="multASM", n=8, r=1, step=1, b="B[j * n + k]"),
      needs="n > 4 (the first pass always runs)", breaks="the last four products of every dot product are dropped"),
]
