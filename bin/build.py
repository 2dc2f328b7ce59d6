#!/usr/bin/env python3
"""Builds the simulator of one property from /repo's current working tree.
usage: build.py ID   -> prints the path of the executable.
Sources: every .cpp below /repo/src (as CMakeLists.txt does), the tools the property
drives (their main renamed), the simulator core and sim/props/ID.cpp."""
import os, re, subprocess, sys, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

def main():
    pid = sys.argv[1]
    prop = f"{VERIF}/sim/props/{pid}.cpp"
    head = open(prop).read(4000)
    variant = re.search(r"^// VARIANT:\s*(\w+)", head, re.M).group(1)
    m = re.search(r"^// TOOLS:(.*)$", head, re.M)
    tools = m.group(1).split() if m else []
    opencl = re.search(r"^// OPENCL:", head, re.M) is not None
    incs = [f"{REPO}/include", f"{REPO}/include/cn24"] + [f"{REPO}/include/cn24/{d}" for d in ("util", "net", "math", "factory")] + [f"{REPO}/include/private"]
    inc = " ".join("-I" + i for i in incs)
    defs = '-DBUILD_POSIX -DBUILD_LINUX -DBUILD_PNG -DBUILD_JPG -DGIT_SHA1="\\"sim\\"" -DBUILD_DATE="\\"sim\\""'
    base = "-O1 -g1 -pipe -fno-omit-frame-pointer -w"
    kern = ""
    if variant == "asan":
        cxx = f"-std=c++11 {base} -fsanitize=address"; hx = f"-std=c++17 {base} -fsanitize=address -DSIM_ASAN"; ld = "-fsanitize=address"
    elif variant == "sched":
        cxx = f"-std=c++11 {base} -fopenmp -fsanitize=thread"; hx = f"-std=c++17 {base} -DSIM_SCHED"; ld = ""
    else:
        raise SystemExit("unknown variant " + variant)
    extra = os.environ.get("SIM_EXTRA_CXXFLAGS", "")
    out = f"{BUILD}/{variant}"
    os.makedirs(out, exist_ok=True)
    srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    objs, lines = [], []
    lines.append("rule cxx\n command = g++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in\n")
    lines.append(f"rule tool\n command = g++ $flags -MMD -MF $out.d -c $in -o $out && python3 {VERIF}/bin/localize.py $out $keep\n depfile = $out.d\n deps = gcc\n description = TOOL $in\n")
    lines.append(f"rule link\n command = g++ -rdynamic {ld} @$out.rsp -o $out -lpng -ljpeg -lz -ldl -lpthread\n rspfile = $out.rsp\n rspfile_content = $in\n description = LINK $out\n")
    def obj(src, o, flags):
        lines.append(f"build {o}: cxx {src}\n flags = {flags}\n"); objs.append(o)
    for s in srcs:
        obj(s, f"{out}/repo/" + os.path.relpath(s, REPO).replace("/", "_") + ".o", f"{cxx} {extra} {defs} {inc}")
    for t in tools:
        o = f"{out}/repo/tool_{t}.o"
        lines.append(f"build {o}: tool {REPO}/tools/{t}.cpp\n flags = {cxx} {extra} {defs} {inc}\n keep = {t}\n"); objs.append(o)
    core = ["core", "seam_io"] + (["seam_threads"] if variant == "sched" else []) + (["seam_opencl"] if opencl else [])
    for c in core:
        obj(f"{VERIF}/sim/core/{c}.cpp", f"{out}/core_{c}.o", f"{hx} -I{VERIF}/sim/core {inc}")
    for c in sorted(glob.glob(f"{VERIF}/sim/common/*.cpp")):
        obj(c, f"{out}/common_{os.path.basename(c)[:-4]}.o", f"{hx} {defs} -I{VERIF}/sim/core -I{VERIF}/sim/common {inc}")
    obj(prop, f"{out}/prop_{pid}.o", f"{hx} {defs} -I{VERIF}/sim/core -I{VERIF}/sim/common {inc}")
    if opencl:   # cn24 a second and third time, for the simulated OpenCL device without and with (simulated) clBLAS
        cl = f"{VERIF}/sim/opencl"; gen = f"{out}/cl_kernels.cpp"
        subprocess.run([sys.executable, f"{VERIF}/bin/clgen.py", f"{REPO}/kernels", gen], check=True)
        obj(gen, f"{out}/cl_kernels.o", f"-std=c++11 {base} -fsanitize=address -I{cl}")
        for cfg, more in (("Ocl", "-DBUILD_OPENCL"), ("Blas", "-DBUILD_OPENCL -DBUILD_CLBLAS")):
            ns = f"-DConv=Conv{cfg} -DSIM_NS=world_{cfg} {more} -DCL_TARGET_OPENCL_VERSION=120 -DCL_USE_DEPRECATED_OPENCL_1_1_APIS -I{cl}"
            for s in srcs:
                obj(s, f"{out}/{cfg}/" + os.path.relpath(s, REPO).replace("/", "_") + ".o", f"{cxx} {extra} {defs} {ns} {inc}")
            for t in tools:
                o = f"{out}/{cfg}/tool_{t}.o"
                lines.append(f"build {o}: tool {REPO}/tools/{t}.cpp\n flags = {cxx} {extra} {defs} {ns} {inc}\n keep = {t}{cfg}\n"); objs.append(o)
            for c in ("common/world", "opencl/driver"):
                obj(f"{VERIF}/sim/{c}.cpp", f"{out}/{cfg}/{os.path.basename(c)}.o", f"{hx} {defs} {ns} -I{VERIF}/sim/core -I{VERIF}/sim/common {inc}")
        obj(f"{VERIF}/sim/opencl/driver.cpp", f"{out}/cpu_driver.o", f"{hx} {defs} -I{VERIF}/sim/core -I{VERIF}/sim/common {inc}")
    exe = f"{out}/sim_{pid}"
    lines.append(f"build {exe}: link {' '.join(objs)}\n")
    nf = f"{out}/build_{pid}.ninja"
    open(nf, "w").write("\n".join(lines))
    r = subprocess.run(["ninja", "-C", out, "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:]); sys.exit(2)
    print(exe)

main()
