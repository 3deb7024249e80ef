"""Mechanical extraction: /repo's current sources -> LLVM IR that the verifier reads.

Nothing of the code is rewritten by hand: a harness only instantiates templates / calls functions of
/repo.  clang parses the sources, opt promotes locals to SSA, inlines (so that library templates are
verified as code, not assumed) and removes dead functions."""
import os
import subprocess
import asmlift
import ir

CLANG = "clang++"
BASE = ["-std=c++14", "-fopenmp", "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm",
        "-Wno-everything", "-I/repo/src", "-fno-vectorize", "-fno-slp-vectorize",
        "-isystem", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs", "omp")]
PASSES = ("elim-avail-extern,function(sroa,simplifycfg),cgscc(inline),"
          "function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify),strip,globaldce")


class ExtractError(Exception):
    pass


def compile_ir(src, out, flags=(), passes=None, repo="/repo"):
    tmp = out + ".raw.ll"
    r = subprocess.run([CLANG] + [b.replace("/repo", repo) for b in BASE] + list(flags) + ["-o", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("clang failed on %s:\n%s" % (src, r.stderr[-3000:]))
    with open(tmp) as f:
        text = f.read()
    if " asm \"" in text or " asm sideeffect" in text:
        try:
            text = asmlift.lift(text)
        except asmlift.AsmError as e:
            raise ExtractError("inline assembly of %s: %s" % (src, e))
        with open(tmp, "w") as f:
            f.write(text)
    r = subprocess.run(["opt", "-S", "-passes=" + (passes or PASSES), "-inline-threshold=100000", "-o", out, tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("opt failed on %s:\n%s" % (src, r.stderr[-3000:]))
    os.unlink(tmp)
    return out


def load(path):
    with open(path) as f:
        return ir.parse_module(f.read())
