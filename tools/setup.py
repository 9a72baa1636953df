#!/usr/bin/env python3
"""setup_cmd: nothing is built ahead (every check builds from /repo's current tree); verify the tools."""
import os, shutil, subprocess, sys, tempfile
for t in ("g++", "clang++"):
    if shutil.which(t) is None:
        sys.exit(f"missing {t}")
d = tempfile.mkdtemp(prefix="vf-setup-")
try:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <Eigen/Core>\n#include <xtensor/xtensor.hpp>\nint main(){xt::xtensor<double,1> a=xt::zeros<double>({3});return (int)a(0);}\n")
    for c in (["g++"], ["clang++", "-fsanitize=address,undefined"]):
        subprocess.run([*c, "-std=c++17", "-I/usr/include/eigen3", "-w", src, "-o", src + ".x"], check=True)
        subprocess.run([src + ".x"], check=True)
finally:
    shutil.rmtree(d)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("setup ok")
