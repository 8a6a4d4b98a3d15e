#!/usr/bin/env python3
"""Offline toolchain check; the checks build what they need themselves."""
import os, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as d:
    s = d + "/t.cpp"
    open(s, "w").write("int main(){return 0;}\n")
    for fl in (["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
        subprocess.check_call(["clang++", "-std=c++17"] + fl + [s, "-o", d + "/t"])
        subprocess.check_call([d + "/t"])
for x in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(H, x), exist_ok=True)
print("setup ok")
