#!/usr/bin/env python3
"""clgen.py KERNELDIR OUT: writes OUT, a C++ file with every OpenCL kernel of the repository, compiled as C++
behind sim/opencl/prelude.h, and tables of programs (by source text) and kernels (by name)."""
import glob, os, re, sys
src, out = sys.argv[1:3]
o = ['#include "prelude.h"', "namespace cl_kernels {"]
progs, kern = [], []
for f in sorted(glob.glob(src + "/*.cl")):
    stem = os.path.basename(f); ns = "p_" + re.sub(r"\W", "_", stem[:-3])
    t = open(f, encoding="utf-8", errors="surrogateescape").read()
    progs.append((stem, t))
    clean = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
    o += [f"namespace {ns} {{", f'#line 1 "{f}"', clean, "}"]
    for m in re.finditer(r"\b(?:__)?kernel\b[^(]*?\bvoid\s+(\w+)\s*\(([^)]*)\)", clean):
        args = [a.strip() for a in m.group(2).split(",") if a.strip()]
        kinds, call = "", []
        for i, a in enumerate(args):
            if "*" in a:
                ty = re.sub(r"\b(__\w+|const|restrict)\b|\w+\s*$", " ", a.replace("*", " * ")).split("*")[0].split()
                kinds += "m"; call.append(f"*({' '.join(ty)}* const*)a[{i}]")
            else:
                ty = [w for w in a.split()[:-1] if not w.startswith("__") and w != "const"]
                k = {"float": "f", "int": "i"}.get(" ".join(ty), "u")
                kinds += k; call.append(f"*(const {' '.join(ty)}*)a[{i}]")
        kern.append((stem, m.group(1), kinds))
        o.append(f"static void run_{ns}_{m.group(1)}(const void* const* a) {{ {ns}::{m.group(1)}({', '.join(call)}); }}")
o.append("}\nnamespace sim {")
def cstr(t): return "".join("\\%03o" % b for b in t.encode("utf-8", "surrogateescape"))
o.append("const ClProgramInfo cl_programs_table[] = {")
for s, t in progs:
    b = t.encode("utf-8", "surrogateescape")
    lines = ["\"" + "".join("\\%03o" % c for c in b[i:i + 400]) + "\"" for i in range(0, len(b), 400)] or ['""']
    o.append('{"%s", %s, %d},' % (s, "\n".join(lines), len(b)))
o.append('{0, 0, 0}};\nconst int cl_programs_count = %d;' % len(progs))
o.append("const ClKernelInfo cl_kernels_table[] = {")
for s, n, k in kern: o.append('{"%s", "%s", %d, "%s", cl_kernels::run_p_%s_%s},' % (s, n, len(k), k, re.sub(r"\W", "_", s[:-3]), n))
o.append('{0, 0, 0, 0, 0}};\nconst int cl_kernels_count = %d;\n}' % len(kern))
text = "\n".join(o) + "\n"
b = text.encode("utf-8", "surrogateescape")
if not os.path.exists(out) or open(out, "rb").read() != b: open(out, "wb").write(b)
