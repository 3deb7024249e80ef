"""Which contracts decide which property."""
import layout as L

ML = ["src/memory_layout/" + x for x in ("tile_array.hpp", "tile_iterator.hpp", "tile_view.hpp", "loop_nest.hpp", "util.hpp",
                                         "tiling_info_dim.hpp", "memory_layout_exception.hpp")]
D4 = (1, 2, 3, 4)


def E(fmt, *vals):
    return [fmt % v for v in vals]


OE = "otherExperiments/"
XF = ["-std=c++11", "-mavx2", "-mfma", "-ffast-math"]         # the flags of otherExperiments/Makefile
XN = ["-std=c++11", "-mavx2", "-ffast-math"]                  # a machine without FMA
XCXX = ["g++", "-std=c++14", "-O2", "-g", "-mavx2", "-mfma", "-fopenmp", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


VC = ["-I/repo/src", "-I/verif/stubs/vc", "-I/verif/stubs/omp", "-mavx2", "-mfma"]
VCI = ["-I/repo/src", "-I/verif/stubs/vc"]
VCA = "the Vc library is not installed: Vc::double_v is replaced by stubs/vc (a vector of four doubles, elementwise arithmetic)"
HPX = ["-I/repo/src", "-I/verif/stubs/vc", "-I/verif/stubs/omp", "-I/verif/stubs/hpx"]
HPXI = ["/repo/src", "/verif/stubs/vc", "/verif/stubs/hpx"]
ODO = "a traversal of n steps of an odometer iterator visits what n applications of its proved increment contract give (induction on paper, DESIGN.md)"
HPXA = "HPX is not installed: hpx::parallel::for_each_n, hpx::cout and the iterator facade are replaced by stubs/hpx (their documented contracts)"
RK = "src/reference_kernels/"
VA = "src/variants/"
DIST = ["components/multiplier", "components/recursive", "single", "static_improved"]


def xu(src, flags, *cases, label=""):
    return dict(src=OE + src, module="exper", flags=flags, cases=list(cases), label=label)


def nofma(name):
    return (OE + name + ".cpp", ["-mno-fma", "-D%s=%s_nofma" % (name, name)])


PROPS = {
    "P01": dict(harness="layout", module="layout", files=ML,
                cases=E("make_tiled(%d)", *D4) + E("throws('vc_make_tiled',%d)", *D4),
                driver="layout", modes=["make_tiled", "throws"]),
    "P02": dict(harness="layout", module="layout", files=ML,
                cases=E("undo_tiling(%d)", *D4) + E("throws('vc_undo_tiling',%d)", *D4),
                driver="layout", modes=["undo_tiling", "throws"]),
    "P03": dict(harness="layout", module="layout", files=ML,
                cases=["view_%s(%d,'%s')" % (k, d, h) for k in ("read", "write") for h in ("flat", "arr", "call") for d in D4]
                + E("view_meta(%d)", *D4),
                driver="layout", modes=["view"]),
    "P04": dict(harness="layout", module="layout", files=ML,
                cases=E("iterate_tiles(%d)", *D4) + E("iterate_rw(%d)", *D4),
                driver="layout", modes=["iterate"]),
    "P05": dict(harness="layout", module="layout", files=ML,
                cases=["loop_nest(%d,'%s')" % (d, k) for d in D4 for k in ("arr", "c")],
                driver="layout", modes=["nest"]),
    "P06": dict(harness="layout", module="layout", files=ML,
                cases=["flat_index(%d,'%s')" % (d, k) for d in D4 for k in ("arr", "c")],
                driver="layout", modes=["flat"]),
    "P07": dict(harness="ref", module="ref", files=["src/reference_kernels/naive.hpp"],
                cases=["naive('vc_naive',False)", "naive('vc_naive_transposed',True)"],
                driver="ref", modes=["naive", "naive_transposed"], cxxflags=["-O0"]),
    "P08": dict(harness="ref", module="ref", files=["src/reference_kernels/kernel.hpp"],
                cases=["kernel('vc_kernel',False)", "kernel('vc_kernel_transposed',True)",
                       "kernel('vc_kernel_transposed_blocked',True,True)"],
                driver="ref", modes=["kernel", "kernel_transposed", "kernel_transposed_blocked"]),
    "P09": dict(harness="ref", module="ref",
                files=["src/util/" + x for x in ("transpose_matrix.hpp", "create_identity_matrix.hpp", "pattern_matrices.hpp")],
                cases=["transpose", "transpose_rect('vc_transpose_rect')", "transpose_rect('vc_transpose_rect_aligned')",
                       "identity", "enumerating"],
                driver="ref", modes=["transpose", "patterns"]),
    "P10": dict(files=[OE + "mult%s.cpp" % x for x in ("Naive", "Transposed", "Counter", "Blocked", "GPU")],
                units=[xu("multNaive.cpp", XF, "mult('multNaive',acc=True)"),
                       xu("multTransposed.cpp", XF, "mult('multTransposed',transposed=True,acc=True)"),
                       xu("multCounter.cpp", XF, "mult('multCounter',transposed=True)"),
                       xu("multBlocked.cpp", XF, "mult('multBlocked2',2,transposed=True)", "mult('multBlocked4',4,transposed=True)"),
                       xu("multGPU.cpp", XF, "mult('multGPU',128,transposed=True)")],
                driver="exper", modes=["naive", "transposed", "counter", "blocked2", "blocked4", "gpu"], cxx=XCXX,
                cxxflags=["-DPLAIN"], include=["/repo/otherExperiments"],
                sources=[OE + "mult%s.cpp" % x for x in ("Naive", "Transposed", "Counter", "Blocked", "GPU")]),
    "P11": dict(files=[OE + "mult%s.cpp" % x for x in ("Exchanged", "Register", "IntrinLoop", "GPUASM", "ASM")],
                units=[xu("multExchanged.cpp", XF, "mult('multExchanged',128)"),
                       xu("multRegister.cpp", XF, "mult('multRegister',256)"),
                       xu("multRegister.cpp", XN, "mult('multRegister',256)", label=" [no FMA]"),
                       xu("multIntrinLoop.cpp", XF, "mult('multIntrinLoop',128,align=32)"),
                       xu("multIntrinLoop.cpp", XN, "mult('multIntrinLoop',128,align=32)", label=" [no FMA]"),
                       xu("multGPUASM.cpp", XF, "mult('multGPUASM',256,transposed=True)"),
                       xu("multGPUASM.cpp", XN, "mult('multGPUASM',256,transposed=True)", label=" [no FMA]"),
                       dict(harness="asm", module="exper", flags=XF + ["-I/repo/otherExperiments"],
                            cases=["mult('multASM',4,transposed=True,align=32)"])],
                driver="exper", modes=["exchanged", "register", "intrinloop", "gpuasm", "asm"], cxx=XCXX,
                include=["/repo/otherExperiments"],
                sources=[OE + "mult%s.cpp" % x for x in ("Exchanged", "Register", "IntrinLoop", "GPUASM", "ASM")]
                + [nofma("mult" + x) for x in ("Register", "IntrinLoop", "GPUASM")],
                assumptions=["the inline assembly of multASM is translated instruction by instruction to IR (engine/asmlift.py)"]),
    "P12": dict(harness="learning", module="learning", files=["learning/MetaProgrammingCPP.cpp"], flags=["-I/repo"],
                cases=E("looper(%d)", *D4), driver="misc", modes=["looper"], include=["/repo/src", "/repo"]),
    "P13": dict(harness="util", module="utilp", files=["src/aligned_allocator.hpp"],
                cases=["alloc('%s',%d,%d)" % (t, w, k) for t, w in (("double", 8), ("float", 4), ("int", 4), ("char", 1))
                       for k in range(0, 21 if t == "double" else 13)] + ["alloc_twice(0)", "alloc_twice(5)", "no_alloc"],
                driver="misc", modes=["alloc"], include=["/repo/src", "/repo"]),
    "P14": dict(harness="tiled", module="tiled", files=["src/reference_kernels/kernel_tiled.cpp"], flags=VC,
                cases=["tiled('none')", "tiled('x')", "tiled('y')", "tiled('both')"],
                driver="tiled", modes=["tiled"], cxx=XCXX, include=["/repo/src", "/verif/stubs/vc"],
                sources=[(RK + "kernel_tiled.cpp", VCI)], cxxflags=["-DTILED"], assumptions=[VCA]),
    "P15": dict(harness="ktest", module="tiled", files=["src/reference_kernels/kernel_test.cpp"], flags=VC,
                cases=["ktest()"], driver="tiled", modes=["test"], cxx=XCXX, include=["/repo/src", "/verif/stubs/vc"],
                sources=[(RK + "kernel_test.cpp", VCI)], assumptions=[VCA]),
    "P16": dict(harness="semi", module="variants", files=["src/variants/semi.cpp", "src/variants/index_iterator.hpp"], flags=HPX,
                cases=["semi(%d)" % k for k in (1, 0, -1)], driver="variants", modes=["multiply"], include=HPXI, cxxflags=["-DSEMI"],
                sources=[("src/variants/semi.cpp", ["-I" + x for x in HPXI])], assumptions=[HPXA]),
    "P17": dict(harness="looped", module="variants", files=["src/variants/looped.hpp"], flags=HPX,
                cases=["blocked('vc_looped')"] + ["increment('vc_looped_increment',%d,%d)" % (d, k) for d in (1, 2, 3) for k in range(d + 1)],
                driver="variants", modes=["multiply"], include=HPXI, cxxflags=["-DLOOPED"], assumptions=[HPXA, ODO]),
    "P18": dict(files=["src/variants/algorithms.hpp"],
                units=[dict(harness="algorithms", module="variants", flags=HPX, cases=["blocked('vc_algorithms')", "element_increment(True)", "element_increment(False)"]
                            + ["increment('vc_algorithms_increment',%d,%d,True)" % (d, k) for d in (1, 2, 3) for k in range(d + 1)]),
                       dict(harness="algorithms", module="variants", flags=HPX + ["-DINNER"], cases=["blocked('vc_algorithms')"], label=" [inner direction]")],
                driver="variants", modes=["multiply"], include=HPXI, cxxflags=["-DALGORITHMS"], assumptions=[HPXA, ODO]),
    "P19": dict(files=["src/variants/combined.cpp", "src/variants/index_iterator.hpp"],
                units=[dict(harness="combined", module="variants", flags=HPX + ["-mavx2", "-mfma"],
                            cases=["combined('%s')" % k for k in ("none", "x", "y", "both")]
                            + ["increment('vc_index_iterator_increment',%d,%d)" % (d, k) for d in (1, 2, 3) for k in range(d + 1)]),
                       dict(harness="combined", module="variants", flags=HPX + ["-mavx2", "-mfma", "-DINNER"],
                            cases=["combined('%s')" % k for k in ("none", "x", "y", "both")], label=" [inner direction]")],
                driver="variants", modes=["multiply"], cxx=XCXX, include=HPXI, cxxflags=["-DCOMBINED"],
                sources=[("src/variants/combined.cpp", ["-I" + x for x in HPXI])], assumptions=[VCA, HPXA, ODO]),
    "P20": dict(harness="dist", module="dist", files=["src/variants/components/multiplier.cpp", "src/reference_kernels/kernel.hpp"], flags=HPX,
                cases=["submatrix(False)", "submatrix(True)", "submatrix(True,False)", "submatrix(True,True)", "submatrix(False,True)", "submatrix(False,False)"],
                driver="dist", modes=["submatrix"], include=HPXI, cxxflags=["-O1"],
                sources=[(VA + x + ".cpp", ["-I" + x for x in HPXI]) for x in DIST], assumptions=[HPXA]),
    "P21": dict(files=[VA + "components/recursive.cpp", VA + "single.cpp", VA + "static_improved.cpp", VA + "components/multiplier.cpp"],
                units=[dict(harness="dist", module="dist", flags=HPX, cases=["extract", "distribute(False)", "distribute(True)", "insert", "single(1)", "single(2)", "single(3)"])]
                + [dict(harness="dist", module="dist", flags=HPX + ["-DHPX_STUB_LAST=%d" % k], cases=["distribute(True)"], label=" [continuation %d last]" % k) for k in (1, 2, 3)],
                driver="dist", modes=["single", "improved"], include=HPXI, cxxflags=["-O1"],
                sources=[(VA + x + ".cpp", ["-I" + x for x in HPXI]) for x in DIST],
                assumptions=[HPXA, "the recursive action and the multiplier action are used by their contracts (induction over the block size)",
                             "component names: \"text\" + std::to_string(n) is replaced by the pair (text, n) for the proof",
                             "bounded: single::matrix_multiply is verified for 1, 2 and 3 repetitions"]),
}
