#!/usr/bin/env python3
"""localize.py OBJ TOOL: renames main of a tool's object file to int TOOL_main(int, char**) and makes its other
strong global symbols local, so that several tools can be linked into one simulator. main is compiled under its
own name, as it may end without a return statement."""
import subprocess, sys
obj, tool = sys.argv[1:3]
names = []
for l in subprocess.run(["nm", "--defined-only", obj], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
    f = l.split()
    if len(f) == 3 and f[1] in "TDBR" and f[2] != "main" and not f[2].startswith("__asan"): names.append(f[2])
new = tool + "_main"
open(obj + ".sym", "w").write("\n".join(names) + "\n")
subprocess.run(["objcopy", f"--redefine-sym=main=_Z{len(new)}{new}iPPc"] + (["--localize-symbols=" + obj + ".sym"] if names else []) + [obj], check=True)
