#!/usr/bin/env python3
"""Nothing to pre-build (each check builds from /repo); verifies the tools."""
import shutil, sys, subprocess, os, tempfile
for t in ("gcc", "g++", "clang", "clang++", "ar", "python3"):
    if not shutil.which(t):
        print("missing tool", t); sys.exit(1)
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write("#include <gmpxx.h>\n#include <openssl/evp.h>\nint main(){mpz_class a(3);return a*a==9&&EVP_sha256()?0:1;}\n")
    r = subprocess.run(["g++", src, "-o", d + "/t", "-lgmpxx", "-lgmp", "-lcrypto"])
    sys.exit(r.returncode or subprocess.run([d + "/t"]).returncode)
finally:
    shutil.rmtree(d)
